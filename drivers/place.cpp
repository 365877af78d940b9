#include <ygopen/proto/duel/data.hpp>
using P = YGOpen::Proto::Duel::Place;
using namespace YGOpen::Duel;
extern "C" {
bool d_less(P const& a, P const& b) { return YGOpen::Proto::Duel::PlaceLess{}(a, b); }
bool d_eq(P const& a, P const& b) { return a == b; }
bool d_empty(unsigned l) { return is_empty(static_cast<Location>(l)); }
bool d_pile(unsigned l) { return is_pile(static_cast<Location>(l)); }
bool d_zone(unsigned l) { return is_zone(static_cast<Location>(l)); }
bool d_pempty(P const& p) { return is_empty(p); }
bool d_ppile(P const& p) { return is_pile(p); }
bool d_pzone(P const& p) { return is_zone(p); }
unsigned d_con(P const& p) { return get_con(p); }
unsigned d_loc(P const& p) { return get_loc(p); }
}
