// Entry points of the frame operations (the bodies are the repository's templates).
#include <ygopen/client/frame.hpp>
struct Card
{
	unsigned long id;
	Card() noexcept;
	~Card() noexcept;
	Card(Card&&) noexcept;
	Card(Card const&) = delete;
};
struct Open : YGOpen::Client::BasicFrame<Card>
{
	using B = YGOpen::Client::BasicFrame<Card>;
	using B::construct_card;
	using B::destruct_card;
	using B::card_insert;
	using B::card_erase;
};
using F = YGOpen::Client::BasicFrame<Card>;
using P = YGOpen::Proto::Duel::Place;
using namespace YGOpen::Duel;
using V = F::PileType;
extern "C" {
void d_ctor(void* p) { new(p) F(); }
unsigned long d_size() { return sizeof(F); }
V* d_pile(F& f, unsigned char c, unsigned l) { return &f.pile(Controller(c), Location(l)); }
V const* d_pile_c(F const& f, unsigned char c, unsigned l) { return &f.pile(Controller(c), Location(l)); }
V* d_pile_p(F& f, P const& p) { return &f.pile(p); }
V const* d_pile_pc(F const& f, P const& p) { return &f.pile(p); }
F::Side::Zone* d_zone(F& f, unsigned char c, unsigned l, unsigned s) { return &f.zone(Controller(c), Location(l), s); }
F::Side::Zone const* d_zone_c(F const& f, unsigned char c, unsigned l, unsigned s) { return &f.zone(Controller(c), Location(l), s); }
F::Side::Zone* d_zone_p(F& f, P const& p) { return &f.zone(p); }
F::Side::Zone const* d_zone_pc(F const& f, P const& p) { return &f.zone(p); }
Card** d_zcard(F::Side::Zone* z) { return &z->card; }
V* d_zmats(F::Side::Zone* z) { return &z->materials; }
unsigned long d_lim(unsigned l) { return YGOpen::Client::zone_seq_lim(Location(l)); }
bool d_has(F const& f, P const& p) { return f.has_card(p); }
Card* d_card(F& f, P const& p) { return &f.card(p); }
Card const* d_card_c(F const& f, P const& p) { return &f.card(p); }
Card* d_add(F& f, P const& p) { return &f.card_add(p); }
void d_remove(F& f, P const& p) { f.card_remove(p); }
Card* d_move(F& f, P const& p, P const& q) { return &f.card_move(p, q); }
void d_swap(F& f, P const& p, P const& q) { f.card_swap(p, q); }
void d_shuffle(F& f, google::protobuf::RepeatedPtrField<P> const& p, google::protobuf::RepeatedPtrField<P> const& q) { f.card_shuffle(p.cbegin(), q.cbegin(), p.size()); }
void d_resize(F& f, P const& p, size_t n) { f.pile_resize(p, n); }
void d_splice(F& f, P const& p, size_t n, P const& q, bool r) { f.pile_splice(p, n, q, r); }
void d_pswap(F& f, P const& p, P const& q) { f.pile_swap(p, q); }
void d_zswap(F::Side::Zone& a, F::Side::Zone& b) { std::swap(a, b); }
void d_clear(F& f) { f.clear(); }
Card* d_construct(Open& f) { return &f.construct_card(); }
void d_destruct(Open& f, Card& c) { f.destruct_card(c); }
}
