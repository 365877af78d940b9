PRE = r'''
#include <ygopen/client/frame.hpp>
#include <google/protobuf/repeated_field.h>
#include <cstdio>
#include <set>
using P = YGOpen::Proto::Duel::Place;
using namespace YGOpen::Duel;
static P pl(unsigned c, unsigned l, unsigned s, int o = -1) { P p; p.set_con(c); p.set_loc(l); p.set_seq(s); p.set_oseq(o); return p; }
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
struct Card { static int& live() { static int n = 0; return n; } Card() { live()++; } Card(Card&&) { live()++; } ~Card() { live()--; } };
using F = YGOpen::Client::BasicFrame<Card>;
'''
FR = 'include/ygopen/client/frame.hpp'
SPECS = [
    dict(id='C03-a', prop='C03', edits=[(FR, "				std::swap(z2.materials, z1.materials);\n			}\n			else if(is_from_not_mat && !is_to_not_mat)", "				if(z2.materials.capacity() <= z1.materials.capacity())\n					std::swap(z2.materials, z1.materials);\n			}\n			else if(is_from_not_mat && !is_to_not_mat)")],
         demo=PRE + r'''int main() { F f; Card* c = &f.card_add(pl(0,4,2)); auto* a = &f.card_add(pl(0,4,2,0)); auto* b = &f.card_add(pl(0,4,2,1));
	f.card_add(pl(1,4,0)); for(int i = 0; i < 9; i++) f.card_add(pl(1,4,0,i)); for(int i = 9; i-- > 0;) f.card_remove(pl(1,4,0,i)); f.card_remove(pl(1,4,0));
	f.card_move(pl(0,4,2), pl(1,4,0)); CHECK(&f.card(pl(1,4,0)) == c); CHECK(f.zone(pl(1,4,0)).materials.size() == 2); CHECK(f.zone(pl(0,4,2)).materials.empty()); return 0; }''',
         needs='a move between zones whose destination once held more materials than the source holds now', breaks='materials stay behind when their card moves to another zone'),
    dict(id='C05-a', prop='C05', edits=[(FR, "			if(is_empty(p))\n				continue;\n			std::swap(zone", "			if(is_empty(p))\n				break;\n			std::swap(zone")],
         demo=PRE + r'''int main() { F f; Card* c[3]; google::protobuf::RepeatedPtrField<P> a, b; for(int i = 0; i < 3; i++) { c[i] = &f.card_add(pl(0,4,i)); *a.Add() = pl(0,4,i); }
	b.Add(); *b.Add() = pl(0,4,2); *b.Add() = pl(0,4,1); f.card_shuffle(a.cbegin(), b.cbegin(), 3);
	CHECK(&f.card(pl(0,4,0)) == c[0]); CHECK(&f.card(pl(0,4,2)) == c[1]); CHECK(&f.card(pl(0,4,1)) == c[2]); return 0; }''',
         needs='a shuffle where an entry without current zone precedes one with a current zone', breaks='the entries after one without current zone are not moved'),
    dict(id='C06-a', prop='C06', edits=[(FR, "			pile_to.insert(pile_to.begin() + to.seq(),\n			               pile_splice_cache_.cbegin(),", "			auto const moved = &pile_from == &pile_to && to.seq() > from.seq() + count ? count : 0U;\n			pile_to.insert(pile_to.begin() + to.seq() - moved,\n			               pile_splice_cache_.cbegin(),")],
         demo=PRE + r'''int main() { F f; Card* c[6]; for(int i = 0; i < 6; i++) c[i] = &f.card_add(pl(0,1,i));
	f.pile_splice(pl(0,1,0), 2, pl(0,1,4), false); Card* w[] = {c[2], c[3], c[4], c[5], c[0], c[1]}; for(int i = 0; i < 6; i++) CHECK(&f.card(pl(0,1,i)) == w[i]); return 0; }''',
         needs='a splice within one pile whose destination index lies behind the range removed', breaks='the destination index is taken in the pile before the removal'),
    dict(id='C07-a', prop='C07', edits=[(FR, "				if(zone.card != nullptr)\n					destruct_card(*zone.card);\n				zone.card = nullptr;\n				destruct_pile(zone.materials);", "				if(zone.card == nullptr)\n				{\n					zone.materials.clear();\n					continue;\n				}\n				destruct_card(*zone.card);\n				zone.card = nullptr;\n				destruct_pile(zone.materials);")],
         demo=PRE + r'''int main() { F f; f.card_add(pl(0,4,1)); f.card_add(pl(0,4,1,0)); f.card_remove(pl(0,4,1)); f.clear(); CHECK(Card::live() == 0); return 0; }''',
         needs='clear while a zone without card still has materials', breaks='material cards of a zone without card are never destroyed by clear'),
    dict(id='C01-a', prop='C01', edits=[(FR, "			return place.seq() < pile(place).size();\n		assert(is_zone(place));", "			return place.seq() + 1U <= pile(place).size();\n		assert(is_zone(place));")],
         demo=PRE + r"""int main() { F f; f.card_add(pl(0,1,0)); CHECK(f.has_card(pl(0,1,0))); CHECK(!f.has_card(pl(0,1,1))); CHECK(!f.has_card(pl(0,1,0xFFFFFFFFU))); return 0; }""",
         needs='the largest possible sequence in a pile', breaks='has_card claims a card at the largest sequence of every pile'),
    dict(id='C02-a', prop='C02', edits=[(FR, "			c = p[place.seq()];\n			p.erase(p.begin() + place.seq());", "			c = p[place.seq()];\n			if(place.seq() + 2U == p.size())\n				std::swap(p[place.seq()], p[p.size() - 1U]), p.pop_back();\n			else if(is_pile(place) && p.size() > 16U)\n				p[place.seq()] = p.back(), p.pop_back();\n			else\n				p.erase(p.begin() + place.seq());")],
         demo=PRE + r'''int main() { F f; Card* c[20]; for(int i = 0; i < 20; i++) c[i] = &f.card_add(pl(0,1,i)); f.card_remove(pl(0,1,3)); CHECK(&f.card(pl(0,1,3)) == c[4]); CHECK(&f.card(pl(0,1,18)) == c[19]); return 0; }''',
         needs='a removal from the middle of a pile of more than 16 cards', breaks='the last card of a large pile jumps to the place of the one removed'),
    dict(id='C29-a', prop='C29', edits=[('include/ygopen/bit.hpp', "	while(i < std::numeric_limits<T>::digits && popcnt(chosen) < count)", "	while(i + 1U < std::numeric_limits<T>::digits && popcnt(chosen) < count)")],
         demo=r"""#include <ygopen/bit.hpp>
#include <cstdint>
#include <cstdio>
int main() { volatile uint32_t v = 0x80000001U; if(YGOpen::Bit::chooser<uint32_t>(2, v) != 0x80000001U) { std::puts("chooser"); return 1; } return 0; }""",
         needs='an input with its most significant bit set and a count that reaches it', breaks='chooser never picks the most significant bit'),
    dict(id='C13-a', prop='C13', edits=[('include/ygopen/proto/duel/data.hpp', "		if(lhs.seq() < rhs.seq())\n			return true;\n		if(rhs.seq() < lhs.seq())\n			return false;", "		if(lhs.seq() != rhs.seq())\n			return static_cast<int32_t>(lhs.seq() - rhs.seq()) < 0;")],
         demo="#include <ygopen/proto/duel/data.hpp>\n#include <cstdio>\nusing namespace YGOpen::Proto::Duel;\nint main() { Place a, b, c; b.set_seq(0x7FFFFFFF); c.set_seq(0xFFFFFFFE); PlaceLess l; if(l(a, b) && l(b, c) && !l(a, c)) { std::puts(\"not transitive\"); return 1; } return 0; }\n",
         needs='three places whose sequences span more than half of the 32 bit range', breaks='the order of places is not transitive'),
]
