// Executable reference model of the duel field, and the card type with a register of live objects.
#pragma once
#include "nat.hpp"
#include <ygopen/proto/duel/data.hpp>
#include <algorithm>
#include <array>
#include <map>
#include <set>
#include <tuple>
#include <vector>
namespace ref
{
using P = YGOpen::Proto::Duel::Place;
struct Card
{
	static inline std::set<Card const*> live;
	static inline std::vector<Card const*> dead; // destroyed since last cleared
	static inline long built = 0;
	bool owned;
	Card() noexcept : owned(true) { live.insert(this); built++; }
	Card(Card&& o) noexcept : owned(true)
	{
		live.erase(&o);
		o.owned = false;
		live.insert(this);
	}
	Card(Card const&) = delete;
	~Card() noexcept
	{
		if(!owned) return;
		dead.push_back(this);
		if(live.erase(this) != 1) nat::fail("a card is destroyed twice");
	}
};
using Pile = std::vector<Card const*>;
struct Zone { Card const* card = nullptr; Pile mats; };
static constexpr unsigned PILES[] = {0x1, 0x2, 0x10, 0x20, 0x40};
static constexpr unsigned ZONES[] = {0x4, 0x8, 0x100, 0x200, 0x400};
static constexpr unsigned LIMS[] = {7, 5, 1, 2, 1};
inline P place(unsigned con, unsigned loc, unsigned seq, int oseq = -1)
{
	P p;
	p.set_con(con);
	p.set_loc(loc);
	p.set_seq(seq);
	p.set_oseq(oseq);
	return p;
}
inline std::string str(P const& p)
{
	return "(" + std::to_string(unsigned(p.con())) + "," + std::to_string(p.loc()) + "," + std::to_string(p.seq()) + "," + std::to_string(p.oseq()) + ")";
}
inline bool pile_loc(unsigned l) { return (l & 0x73) != 0; }
struct Field
{
	std::map<std::pair<unsigned, unsigned>, Pile> piles;
	std::map<std::tuple<unsigned, unsigned, unsigned>, Zone> zones;
	Field()
	{
		for(unsigned c : {0u, 1u})
		{
			for(auto l : PILES) piles[{c, l}];
			for(int i = 0; i < 5; i++)
				for(unsigned s = 0; s < LIMS[i]; s++) zones[{c, ZONES[i], s}];
		}
	}
	Pile& pile(P const& p) { return piles.at({unsigned(p.con()), unsigned(p.loc())}); }
	Zone& zone(P const& p) { return zones.at({unsigned(p.con()), unsigned(p.loc()), unsigned(p.seq())}); }
	bool is_pile(P const& p) { return pile_loc(p.loc()); }
	// the stack (pile or materials) and index, or null for a zone card
	Pile* stack(P const& p, size_t& i)
	{
		if(is_pile(p)) { i = p.seq(); return &pile(p); }
		if(p.oseq() < 0) return nullptr;
		i = p.oseq();
		return &zone(p).mats;
	}
	bool has(P const& p)
	{
		size_t i;
		if(auto* s = stack(p, i)) return i < s->size();
		return zone(p).card != nullptr;
	}
	bool can_insert(P const& p)
	{
		size_t i;
		if(auto* s = stack(p, i)) return i <= s->size();
		return zone(p).card == nullptr;
	}
	Card const*& at(P const& p)
	{
		size_t i;
		if(auto* s = stack(p, i)) return s->at(i);
		return zone(p).card;
	}
	void insert(P const& p, Card const* c)
	{
		size_t i;
		if(auto* s = stack(p, i)) s->insert(s->begin() + i, c);
		else zone(p).card = c;
	}
	Card const* erase(P const& p)
	{
		size_t i;
		Card const* c = at(p);
		if(auto* s = stack(p, i)) s->erase(s->begin() + i);
		else zone(p).card = nullptr;
		return c;
	}
	void clear()
	{
		for(auto& x : piles) x.second.clear();
		for(auto& x : zones) x.second = Zone();
	}
	std::set<Card const*> all() const
	{
		std::set<Card const*> r;
		for(auto& x : piles) r.insert(x.second.begin(), x.second.end());
		for(auto& x : zones)
		{
			if(x.second.card) r.insert(x.second.card);
			r.insert(x.second.mats.begin(), x.second.mats.end());
		}
		return r;
	}
	bool operator==(Field const& o) const
	{
		if(piles != o.piles) return false;
		for(auto& x : zones)
		{
			auto& z = o.zones.at(x.first);
			if(x.second.card != z.card || x.second.mats != z.mats) return false;
		}
		return true;
	}
	// first difference
	std::string diff(Field const& o) const
	{
		for(auto& x : piles)
			if(o.piles.at(x.first) != x.second)
				return "pile of player " + std::to_string(x.first.first) + " location " + std::to_string(x.first.second) + dump(x.second) + " instead of" + dump(o.piles.at(x.first));
		for(auto& x : zones)
		{
			auto& z = o.zones.at(x.first);
			if(x.second.card != z.card || x.second.mats != z.mats)
				return "zone of player " + std::to_string(std::get<0>(x.first)) + " location " + std::to_string(std::get<1>(x.first)) + " sequence " + std::to_string(std::get<2>(x.first)) +
				       dump({x.second.card}) + dump(x.second.mats) + " instead of" + dump({z.card}) + dump(z.mats);
		}
		return "";
	}
	static std::string dump(Pile const& p)
	{
		std::string s = " [";
		char b[40];
		for(auto* c : p) { std::snprintf(b, 40, "%llx ", (unsigned long long)(uintptr_t)c); s += b; }
		return s + "]";
	}
	template<typename F>
	static Field read(F const& f)
	{
		using namespace YGOpen::Duel;
		Field r;
		for(auto& x : r.piles)
		{
			auto& v = f.pile(Controller(x.first.first), Location(x.first.second));
			x.second.assign(v.begin(), v.end());
		}
		for(auto& x : r.zones)
		{
			auto& z = f.zone(Controller(std::get<0>(x.first)), Location(std::get<1>(x.first)), std::get<2>(x.first));
			x.second.card = z.card;
			x.second.mats.assign(z.materials.begin(), z.materials.end());
		}
		return r;
	}
};
// random places
struct Gen
{
	nat::Rng& g;
	// stacks of hundreds of cards, where there are any (sequence or material index to be filled in)
	std::vector<P> big{};
	unsigned high(unsigned n) { return n > 256 && rnd(2) ? 256 + rnd(n - 256) : rnd(n); }
	bool large(Field& f, P& p, bool hole)
	{
		if(big.empty() || rnd(3)) return false;
		p = big[rnd(big.size())];
		size_t i;
		auto n = f.stack(p, i)->size() + hole;
		if(!n) return false;
		if(f.is_pile(p)) p.set_seq(high(n)); else p.set_oseq(high(n));
		return true;
	}
	unsigned rnd(unsigned n) { return unsigned(g() % n); }
	P pile() { return place(rnd(2), PILES[rnd(5)], 0); }
	P zone() { unsigned i = rnd(5); if(rnd(2)) i = 0; return place(rnd(2), ZONES[i], rnd(LIMS[i])); }
	P row() { unsigned i = rnd(4) ? 0 : 1; return place(rnd(2), ZONES[i], 0); }
	// a place holding a card if there is one in the stack or zone chosen
	bool held(Field& f, P& p)
	{
		if(large(f, p, false)) return true;
		switch(rnd(3))
		{
		case 0: { p = pile(); auto n = f.pile(p).size(); if(!n) return false; p.set_seq(rnd(n)); return true; }
		case 1: p = zone(); return f.zone(p).card != nullptr;
		default: { p = zone(); auto n = f.zone(p).mats.size(); if(!n) return false; p.set_oseq(rnd(n)); return true; }
		}
	}
	bool hole(Field& f, P& p)
	{
		if(large(f, p, true)) return true;
		switch(rnd(3))
		{
		case 0: { p = pile(); auto n = f.pile(p).size(); p.set_seq(rnd(4) ? rnd(n + 1) : n); return true; }
		case 1: p = zone(); return f.zone(p).card == nullptr;
		default: { p = zone(); auto n = f.zone(p).mats.size(); p.set_oseq(rnd(n + 1)); return true; }
		}
	}
};
}
