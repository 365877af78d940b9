exec(open('/verif/tools/seeds/frame.py').read().split('SPECS = [')[0])
DATA = 'include/ygopen/proto/duel/data.hpp'
LOC = 'include/ygopen/duel/constants/location.hpp'
UN = 'include/ygopen/client/undoable.hpp'
EN = 'src/codec/edo9300_ocgcore_encode.cpp'
SPECS = [
    dict(id='C02-b', prop='C02', edits=[(FR, '''		insert_at_(z.materials, place.oseq(), &c);
	}
''', '''		insert_at_(z.materials, static_cast<uint8_t>(place.oseq()), &c);
	}
''')],
         demo=PRE + r'''int main() { F f; f.card_add(pl(0,4,1)); Card* l{}; for(int i = 0; i < 257; i++) l = &f.card_add(pl(0,4,1,i)); CHECK(&f.card(pl(0,4,1,256)) == l); return 0; }''',
         needs='more than 256 materials', breaks='the material is inserted at another index'),
    dict(id='C02-c', prop='C02', edits=[(FR, '''			auto& p = pile(place);
			c = p[place.seq()];
			p.erase(p.begin() + place.seq());
''', '''			auto& p = pile(place);
			c = p[place.seq()];
			if(get_loc(place) == Duel::LOCATION_HAND && place.seq() + 2U < p.size())
				std::swap(p[place.seq()], p[place.seq() + 1U]),
					p.erase(p.begin() + place.seq() + 1U);
			else if(get_loc(place) == Duel::LOCATION_HAND && place.seq() > 1U)
				std::swap(p[place.seq()], p[place.seq() - 1U]),
					p.erase(p.begin() + place.seq() - 1U);
			else
				p.erase(p.begin() + place.seq());
''')] if 0 else [(FR, '''			p.erase(p.begin() + place.seq());
		}
		else
''', '''			if(p.size() == p.capacity() && place.seq() + 2U == p.size())
				std::swap(p[place.seq()], p[place.seq() + 1U]), p.erase(p.begin() + place.seq());
			else
				p.erase(p.begin() + place.seq());
		}
		else
''')],
         demo=PRE + r'''int main() { F f; Card* c[4]; for(int i = 0; i < 4; i++) c[i] = &f.card_add(pl(0,2,i)); f.card_remove(pl(0,2,2)); CHECK(&f.card(pl(0,2,2)) == c[3]); return 0; }''',
         needs='a removal of the last card but one while the vector of the pile is full', breaks='the wrong card disappears from the pile'),
    dict(id='C03-b', prop='C03', edits=[(FR, '''				c = take_at_(z1.materials, from.oseq());
				insert_at_(z2.materials, to.oseq(), c);
''', '''				size_t const index = &z1 == &z2 && to.oseq() > from.oseq()
				                         ? to.oseq() - 1
				                         : to.oseq();
				c = take_at_(z1.materials, from.oseq());
				insert_at_(z2.materials, index, c);
''')],
         demo=PRE + r'''int main() { F f; f.card_add(pl(0,4,1)); Card* m[4]; for(int i = 0; i < 4; i++) m[i] = &f.card_add(pl(0,4,1,i));
	f.card_move(pl(0,4,1,0), pl(0,4,1,2)); Card* w[] = {m[1], m[2], m[0], m[3]}; for(int i = 0; i < 4; i++) CHECK(&f.card(pl(0,4,1,i)) == w[i]); return 0; }''',
         needs='a material moved towards the end of its own stack', breaks='the material ends one position too early'),
    dict(id='C03-c', prop='C03', edits=[(FR, '''			c = take_at_(p, from.seq());
			auto& z = zone(to);
			if(is_to_not_mat)
			{
				assert(z.card == nullptr);
				z.card = c;
			}
''', '''			c = take_at_(p, from.seq());
			auto& z = zone(to);
			if(is_to_not_mat)
			{
				assert(z.card == nullptr);
				z.card = c;
				z.materials.clear();
			}
''')],
         demo=PRE + r'''int main() { F f; f.card_add(pl(0,4,1)); Card* m = &f.card_add(pl(0,4,1,0)); f.card_move(pl(0,4,1), pl(0,1,0)); f.card_move(pl(0,1,0), pl(0,4,1));
	CHECK(f.zone(pl(0,4,1)).materials.size() == 1); CHECK(&f.card(pl(0,4,1,0)) == m); return 0; }''',
         needs='a card coming back to a zone where materials stayed', breaks='the materials that stayed in the zone are lost'),
    dict(id='C04-a', prop='C04', edits=[(FR, '''				std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
''', '''				if(&za != &zb)
					std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
''')],
         demo=PRE + r'''int main() { F f; f.card_add(pl(0,4,1)); Card* m[2]; for(int i = 0; i < 2; i++) m[i] = &f.card_add(pl(0,4,1,i)); f.card_swap(pl(0,4,1,0), pl(0,4,1,1)); CHECK(&f.card(pl(0,4,1,0)) == m[1]); return 0; }''',
         needs='a swap of two materials of one card', breaks='the two materials keep their places'),
    dict(id='C05-b', prop='C05', edits=[(FR, '''			for(size_t j = 0U; j < count; j++)
			{
				if(seqs[j] != seq)
''', '''			for(size_t j = i; j + 1U < UPPER_BOUND && j < count; j++)
			{
				if(seqs[j] != seq)
''')],
         demo=PRE + r'''int main() { F f; Card* c[7]; google::protobuf::RepeatedPtrField<P> a, b; for(int i = 0; i < 7; i++) { c[i] = &f.card_add(pl(0,4,i)); *a.Add() = pl(0,4,i); }
	int t[] = {6, 5, 4, 3, 2, 1, 0}; for(int i : t) *b.Add() = pl(0,4,i); f.card_shuffle(a.cbegin(), b.cbegin(), 7); for(int i = 0; i < 7; i++) CHECK(&f.card(pl(0,4,t[i])) == c[i]); return 0; }''',
         needs='a shuffle of a full row whose last zone gets another card before its turn', breaks='two cards of the row end in each other\'s zone'),
    dict(id='C07-c', prop='C07', edits=[(FR, '''			destruct_zone_location(side.skill_);
''', '''			destruct_zone_location(side.pendulum_);
''')],
         demo=PRE + r'''int main() { F f; f.card_add(pl(1,0x400,0)); f.clear(); CHECK(Card::live() == 0); CHECK(!f.has_card(pl(1,0x400,0))); return 0; }''',
         needs='clear with a card in a skill zone', breaks='cards of the skill zones survive clear'),
    dict(id='C13-b', prop='C13', edits=[(DATA, '''		if(lhs.oseq() < rhs.oseq())
			return true;
		return false;
''', '''		// Every negative overlay index means that it is not a material.
		if(lhs.oseq() < 0 && rhs.oseq() < 0)
			return lhs.loc() == YGOpen::Duel::LOCATION_UNSPECIFIED && lhs.oseq() < rhs.oseq();
		return lhs.oseq() < rhs.oseq();
''')],
         demo="#include <ygopen/proto/duel/data.hpp>\n#include <cstdio>\nusing namespace YGOpen::Proto::Duel;\nint main() { Place a, b; a.set_loc(4); b.set_loc(4); a.set_oseq(-1); b.set_oseq(-2); if(a == b) { std::puts(\"equal\"); return 1; } return 0; }\n",
         needs='two places that differ only in negative overlay indices', breaks='different places compare equal'),
    dict(id='C01-b', prop='C01', edits=[(FR, '''		return static_cast<size_t>(place.oseq()) < z.materials.size();
''', '''		return static_cast<uint8_t>(place.oseq()) < z.materials.size();
''')],
         demo=PRE + r'''int main() { F f; f.card_add(pl(0,4,1)); f.card_add(pl(0,4,1,0)); CHECK(f.has_card(pl(0,4,1,0))); CHECK(!f.has_card(pl(0,4,1,256))); return 0; }''',
         needs='a material index of 256 or more', breaks='cards that do not exist are reported as existing'),
    dict(id='C01-c', prop='C01', edits=[(FR, '''			if(loc == LOCATION_PENDULUM_ZONE)
				return t.pendulum_.data();
''', '''			// Pendulum zones are the corners of the spell row.
			if(loc == LOCATION_PENDULUM_ZONE && std::is_const_v<T>)
				return t.spell_.data();
			if(loc == LOCATION_PENDULUM_ZONE)
				return t.pendulum_.data();
''')],
         demo=PRE + r'''int main() { F f; F const& c = f; for(unsigned i = 0; i < 2; i++) CHECK(&c.zone(pl(1,0x200,i)) == &f.zone(pl(1,0x200,i))); return 0; }''',
         needs='a pendulum zone seen through the read-only view', breaks='the read-only view aliases other zones'),
    dict(id='C04-b', prop='C04', edits=[(FR, '''				std::swap(za.materials[a.oseq()], zb.materials[b.oseq()]);
''', '''				if(&za != &zb)
					std::swap(za.materials[a.oseq()],
					          zb.materials[b.oseq()]);
''')],
         demo=PRE + r'''int main() { F f; f.card_add(pl(0,4,1)); Card* a = &f.card_add(pl(0,4,1,0)); f.card_add(pl(0,4,1,1)); f.card_swap(pl(0,4,1,0), pl(0,4,1,1)); CHECK(&f.card(pl(0,4,1,1)) == a); return 0; }''',
         needs='two materials of the same zone swapped', breaks='the materials keep their order'),
    dict(id='C06-b', prop='C06', edits=[(FR, '''			if(reverse)
				std::reverse_copy(first, last, d_first);
''', '''			if(reverse && count > 2U)
				std::reverse_copy(first, last, d_first);
''')],
         demo=PRE + r'''int main() { F f; Card* c[3]; for(int i = 0; i < 3; i++) c[i] = &f.card_add(pl(0,1,i)); f.pile_splice(pl(0,1,1), 2, pl(0,2,0), true); CHECK(&f.card(pl(0,2,0)) == c[2]); CHECK(&f.card(pl(0,2,1)) == c[1]); return 0; }''',
         needs='a reversed splice of two cards', breaks='the cards keep their order'),
    dict(id='C06-c', prop='C06', edits=[(FR, '''				p.push_back(&construct_card());
''', '''				p.insert(p.begin(), &construct_card());
''')],
         demo=PRE + r'''int main() { F f; Card* c = &f.card_add(pl(0,1,0)); f.pile_resize(pl(0,1,0), 4); CHECK(&f.card(pl(0,1,0)) == c); return 0; }''',
         needs='a pile with cards that grows', breaks='the cards that were there change place'),
    dict(id='C07-b', prop='C07', edits=[(FR, '''				if(zone.card != nullptr)
					destruct_card(*zone.card);
				zone.card = nullptr;
''', '''				if(zone.card == nullptr)
					continue;
				destruct_card(*zone.card);
				zone.card = nullptr;
''')],
         demo=PRE + r'''int main() { F f; f.card_add(pl(0,4,1)); f.card_add(pl(0,4,1,0)); f.card_move(pl(0,4,1), pl(0,2,0)); f.clear(); CHECK(f.zone(pl(0,4,1)).materials.empty()); return 0; }''',
         needs='a zone whose card left without its materials', breaks='clearing leaves the materials in place'),
    dict(id='C07-d', prop='C07', edits=[(FR, '''			for(size_t i = p.size() - count; i != 0; i--)
			{
				destruct_card(*p.back());
				p.pop_back();
			}
''', '''			for(size_t i = count; i < p.size(); i++)
				destruct_card(*p.back());
			p.resize(count);
''')],
         demo=PRE + r'''#include <set>
int main() { F f; std::set<Card*> s; for(int i = 0; i < 3; i++) s.insert(&f.card_add(pl(0,1,i))); Card* first = &f.card(pl(0,1,0)); f.pile_resize(pl(0,1,0), 1); Card* a = &f.card_add(pl(0,2,0)); Card* b = &f.card_add(pl(0,2,0)); CHECK(a != b); CHECK(a != first); CHECK(b != first); return 0; }''',
         needs='a pile that shrinks by more than one card', breaks='the last card is destroyed once for each card that goes'),
    dict(id='C09-b', prop='C09', edits=[(UN, '''		if(current_ == --values_.cend())
			values_.emplace_back(std::forward<U>(v));
		current_++;
''', '''		if(current_ == --values_.cend())
		{
			// Keep no copies of the value.
			if(*current_ == v)
				return *this;
			values_.emplace_back(std::forward<U>(v));
		}
		current_++;
''')],
         demo=r'''#include <ygopen/client/undoable.hpp>
#include <cstdio>
int main() { YGOpen::Client::BasicUndoable<unsigned> u; u = 5U; u = 7U; u = 7U; u.undo(); if(!(u == 7U)) { std::puts("undone too far"); return 1; } return 0; }''',
         needs='an assignment of the value already there, then undone', breaks='undo goes back past an assignment too many'),
    dict(id='C13-c', prop='C13', edits=[(DATA, '''		if(lhs.seq() < rhs.seq())
			return true;
		if(rhs.seq() < lhs.seq())
			return false;
''', '''		if(auto const d = static_cast<int32_t>(lhs.seq() - rhs.seq()); d != 0)
			return d < 0;
''')],
         demo="#include <ygopen/proto/duel/data.hpp>\n#include <cstdio>\nusing namespace YGOpen::Proto::Duel;\nint main() { Place a, b, c; a.set_seq(0); b.set_seq(0x60000000u); c.set_seq(0xC0000000u); PlaceLess l; if(l(a, b) && l(b, c) && !l(a, c)) { std::puts(\"not transitive\"); return 1; } return 0; }\n",
         needs='sequences that lie far apart', breaks='the order is not transitive'),
    dict(id='C29-b', prop='C29', edits=[('include/ygopen/bit.hpp', '''		chosen |= x & (T{1} << i);
''', '''		chosen |= x & (1U << i);
''')],
         demo=r'''#include <ygopen/bit.hpp>
#include <cstdint>
#include <cstdio>
int main() { volatile uint64_t v = 0x300000001ULL; if(YGOpen::Bit::chooser<uint64_t>(3U, v) != 0x300000001ULL) { std::puts("chooser"); return 1; } return 0; }''',
         needs='a 64-bit value with bits to choose in the upper half', breaks='the upper bits are not chosen'),
]
