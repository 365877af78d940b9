// Random histories of undoable values against a recorded list of values.
#include "nat.hpp"
#include <cassert>
#include <string>
#include <vector>
#include <ygopen/client/undoable.hpp>
template<typename T, typename Mk>
static void run(unsigned long seed, Mk mk)
{
	nat::Rng g(seed);
	YGOpen::Client::BasicUndoable<T> u{};
	std::vector<T> vals(1);
	size_t cur = 0;
	std::string h;
	auto check = [&](char const* what)
	{
		nat::doing = h;
		T const& r = u;
		nat::expect(r == vals[cur], [&] { return std::string(what) + ": reads as another value than that of position " + std::to_string(cur) + " after: " + h; });
		nat::expect((u == vals[cur]) && true, [&] { return std::string(what) + ": compares unequal to its value after: " + h; });
	};
	check("new");
	int n = 1 + g() % 60, back = 2;
	if(g() % 256 == 0) { n = 2000; back = 64; } // long histories
	for(int i = 0; i < n; i++)
	{
		if(g() % back == 0 && cur > 0) { h += " undo"; nat::doing = h; u.undo(); cur--; check("undo"); continue; }
		T v = mk(g);
		h += cur + 1 == vals.size() ? " assign-new" : " assign-past";
		nat::doing = h;
		if(cur + 1 == vals.size()) vals.push_back(v);
		else if(g() % 2) v = vals[cur + 1];
		if constexpr(std::is_same_v<T, uint32_t>) { if(g() % 2) u = v; else u = T(v); }
		else { if(g() % 2) u = v; else u.assign(v.begin(), v.end()); }
		cur++;
		check("assignment");
	}
	while(cur > 0) { h += " undo"; nat::doing = h; u.undo(); cur--; check("undo"); }
	while(cur + 1 < vals.size()) { h += " redo"; nat::doing = h; if constexpr(std::is_same_v<T, uint32_t>) u = T(7777); else { T x{7, 7}; u.assign(x.begin(), x.end()); } cur++; check("redo"); }
}
static void one(nat::Rng& g0)
{
	unsigned long seed = g0();
	run<uint32_t>(seed, [](nat::Rng& g) { return uint32_t(g()); });
	run<std::vector<uint64_t>>(seed + 1, [](nat::Rng& g) { std::vector<uint64_t> v(g() % 4); for(auto& x : v) x = g(); return v; });
}
NAT_MAIN(one)
