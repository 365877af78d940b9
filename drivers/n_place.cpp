#include "nat.hpp"
#include <ygopen/proto/duel/data.hpp>
#include <tuple>
using P = YGOpen::Proto::Duel::Place;
using namespace YGOpen::Duel;
static auto key(P const& p) { return std::make_tuple(p.con(), p.loc(), p.seq(), p.oseq()); }
static std::string str(P const& p)
{
	return "(" + std::to_string(unsigned(p.con())) + "," + std::to_string(p.loc()) + "," + std::to_string(p.seq()) + "," + std::to_string(p.oseq()) + ")";
}
static void all(nat::Rng& g)
{
	static const unsigned locs[] = {0, 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x100, 0x200, 0x400};
	auto val = [&]() -> uint32_t { switch(g() % 5) { case 0: return 0; case 1: return 1; case 2: return g() % 8; case 3: return 0xFFFFFFFFu - g() % 3; default: return (uint32_t)g(); } };
	for(int n = 0; n < 200; n++)
	{
		P p[3];
		for(auto& x : p)
		{
			if(&x != p && g() % 2) x = *(&x - 1);
			unsigned m = g();
			if(m & 1) x.set_con((decltype(x.con()))(g() % 3 ? g() % 2 : val()));
			if(m & 2) x.set_loc((decltype(x.loc()))(g() % 2 ? locs[g() % 11] : val()));
			if(m & 4) x.set_seq(val());
			if(m & 8) x.set_oseq(val());
		}
		YGOpen::Proto::Duel::PlaceLess lt;
		for(auto& a : p)
			for(auto& b : p)
			{
				nat::expect((a == b) == (key(a) == key(b)), [&] { return "equality of " + str(a) + " " + str(b); });
				nat::expect((lt(a, b) || lt(b, a)) == (key(a) != key(b)), [&] { return "equivalence of " + str(a) + " " + str(b); });
				nat::expect(!(lt(a, b) && lt(b, a)), [&] { return "asymmetry " + str(a) + " " + str(b); });
				for(auto& c : p)
					nat::expect(!(lt(a, b) && lt(b, c)) || lt(a, c), [&] { return "transitivity " + str(a) + " " + str(b) + " " + str(c); });
			}
	}
	for(unsigned i = 0; i < 11; i++)
	{
		P p;
		p.set_loc(decltype(p.loc())(locs[i]));
		auto l = static_cast<Location>(locs[i]);
		bool pile = (locs[i] & 0x73) != 0, zone = (locs[i] & 0x70C) != 0;
		nat::expect(is_empty(l) == (locs[i] == 0) && is_pile(l) == pile && is_zone(l) == zone && is_empty(p) == is_empty(l) && is_pile(p) == pile && is_zone(p) == zone,
			[&] { return "kind of location " + std::to_string(locs[i]); });
	}
}
NAT_MAIN(all)
