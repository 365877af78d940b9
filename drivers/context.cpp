// C24: entry points of the encoding context. The access specifiers of its header are opened so that the driver can
// say where the board is; nothing else is changed.
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <functional>
#include <map>
#include <utility>
#include <variant>
#include <vector>
#include <ygopen/codec/encode_common.hpp>
#include <ygopen/client/board.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/proto/duel/msg.hpp>
#define private public
#include <ygopen/server/basic_encode_context.hpp>
#undef private
using C = YGOpen::Server::BasicEncodeContext;
using F = C::BoardType::FrameType;
using P = C::Place;
using V = F::PileType;
using namespace YGOpen::Duel;
extern "C" {
void d_ctor(void* p) { new(p) C(); }
unsigned long d_size() { return sizeof(C); }
void const* d_board(C& c) { return &c.board_; }
void const* d_frame(C& c) { return &c.board_.frame(); }
V* d_pile(C& c, unsigned char o, unsigned l) { return &c.board_.frame().pile(Controller(o), Location(l)); }
F::Side::Zone* d_zone(C& c, unsigned char o, unsigned l, unsigned s) { return &c.board_.frame().zone(Controller(o), Location(l), s); }
C::CardType** d_zcard(F::Side::Zone* z) { return &z->card; }
V* d_zmats(F::Side::Zone* z) { return &z->materials; }
unsigned long c_pile_size(C const& c, C::Con con, C::Loc loc) { return c.pile_size(con, loc); }
unsigned c_get_win(C const& c) { return c.get_match_win_reason(); }
bool c_has(C const& c, P const& p) { return c.has_xyz_mat(p); }
void c_get_left(P* out, C const& c, P const& p) { new(out) P(c.get_xyz_left(p)); }
void c_win(C& c, unsigned r) { c.match_win_reason(r); }
void c_defer(C& c, P const& p) { c.xyz_mat_defer(p); }
void c_take(std::vector<P>* out, C& c) { new(out) std::vector<P>(c.take_deferred_xyz_mat()); }
void c_left(C& c, P const& l, P const& f) { c.xyz_left(l, f); }
bool d_less(P const& a, P const& b) { return YGOpen::Proto::Duel::PlaceLess{}(a, b); }
void c_parse(C& c, YGOpen::Proto::Duel::Msg const& m) { c.parse(m); }
}
