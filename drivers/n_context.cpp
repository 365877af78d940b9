// Random histories of an encoding context: messages with events that fit the field and queries, and the notifications
// of the encoder; every question it answers against plain records of what it was told (C24).
#include "nevent.hpp"
#include <cassert>
#include <functional>
#include <map>
#include <memory>
#include <utility>
#include <variant>
#include <ygopen/codec/encode_common.hpp>
#include <ygopen/client/board.hpp>
#include <ygopen/client/frame.hpp>
#define private public
#include <ygopen/server/basic_encode_context.hpp>
#undef private
using Msg = YGOpen::Proto::Duel::Msg;
using C = YGOpen::Server::BasicEncodeContext;
static std::string now;
static std::string ctx() { return now; }
using Key = std::tuple<int, uint32_t, uint32_t, int>;
static Key key(Place const& p) { return {p.con(), p.loc(), p.seq(), p.oseq()}; }
static void one(nat::Rng& g)
{
	nat::context = ctx;
	Fit f{{g}, {g}};
	auto c = std::make_unique<C>();
	std::map<Key, Place> left;
	std::vector<Place> deferred, seen;
	uint32_t win = 0;
	now = "history:";
	auto some = [&] { if(!seen.empty() && f.m.rnd(2)) return seen[f.m.rnd(unsigned(seen.size()))]; auto p = f.m.place(); p.set_seq(f.m.rnd(3)); return p; };
	auto check = [&]
	{
		for(int k = 3; k--;)
		{
			auto p = some();
			auto it = left.find(key(p));
			auto want = it == left.end() ? p : it->second;
			nat::doing = "get_xyz_left";
			auto got = c->get_xyz_left(p);
			nat::expect(key(got) == key(want), [&] { return "origin of " + S(p) + ": " + S(got) + ", expected " + S(want); });
		}
		nat::doing = "get_match_win_reason";
		auto w = c->get_match_win_reason();
		nat::expect(w == win, [&] { return "match win reason " + std::to_string(w) + ", expected " + std::to_string(win); });
		nat::doing = "pile_size";
		for(auto& [k, v] : f.t.piles)
		{
			auto n = c->pile_size(C::Con(k.first), C::Loc(k.second));
			nat::expect(n == v.size(), [&] { return "pile_size(" + std::to_string(unsigned(k.first)) + ", " + std::to_string(k.second) + "): " + std::to_string(n) + ", expected " + std::to_string(v.size()); });
		}
		nat::doing = "has_xyz_mat";
		for(auto& [k, v] : f.t.zones)
		{
			auto p = ref::place(std::get<0>(k), std::get<1>(k), std::get<2>(k), f.m.rnd(2) ? -1 : 0);
			bool h = c->has_xyz_mat(p);
			nat::expect(h == !v.mats.empty(), [&] { return "has_xyz_mat" + S(p) + ": " + std::to_string(h); });
		}
	};
	check();
	for(unsigned n = 3 + f.m.rnd(30); n--;)
	{
		switch(f.m.rnd(8))
		{
		case 0:
			win = f.m.u32();
			now += "\n match_win_reason " + std::to_string(win);
			nat::doing = "match_win_reason";
			c->match_win_reason(win);
			break;
		case 1:
		{
			auto p = f.m.place();
			now += "\n xyz_mat_defer " + S(p);
			nat::doing = "xyz_mat_defer";
			c->xyz_mat_defer(p);
			deferred.push_back(p);
			break;
		}
		case 2:
		{
			now += "\n take_deferred_xyz_mat";
			nat::doing = "take_deferred_xyz_mat";
			auto v = c->take_deferred_xyz_mat();
			bool ok = v.size() == deferred.size();
			for(size_t i = 0; ok && i < v.size(); i++) ok = key(v[i]) == key(deferred[i]);
			nat::expect(ok, [&]
			{
				std::string s = "the deferred list:";
				for(auto& p : v) s += S(p);
				s += "\n  expected:";
				for(auto& p : deferred) s += S(p);
				return s;
			});
			deferred.clear();
			break;
		}
		case 3: case 4:
		{
			auto p = some(), q = some();
			seen.push_back(p);
			if(f.m.rnd(2)) { auto x = p; x.set_oseq(x.oseq() + 1); seen.push_back(x); }
			now += "\n xyz_left " + S(p) + " from " + S(q);
			nat::doing = "xyz_left";
			c->xyz_left(p, q);
			left[key(p)] = q;
			break;
		}
		default:
		{
			Msg m;
			bool ev = f.m.rnd(4) && f.event(*m.mutable_event());
			if(!ev) m.clear_event();
			if(!ev && f.m.rnd(2)) m.mutable_request();
			std::map<Key, std::pair<Place, uint32_t>> codes;
			for(int k = int(f.m.rnd(4)); k--;)
			{
				ref::P p;
				if(!f.g.held(f.t, p)) continue;
				// a zone card whose place names a pile position is not what a query is about
				auto* q = m.add_queries();
				*q->mutable_place() = p;
				uint32_t v = f.m.u32();
				q->mutable_data()->mutable_code()->set_value(v);
				codes[key(p)] = {p, v};
			}
			now += "\n parse " + m.ShortDebugString();
			nat::doing = "parse";
			c->parse(m);
			for(auto& [k, x] : codes)
			{
				nat::expect(c->board_.frame().has_card(x.first), [&] { return "no card at " + S(x.first); });
				auto v = uint32_t(c->board_.frame().card(x.first).code());
				nat::expect(v == x.second, [&] { return "the code of " + S(x.first) + " is " + std::to_string(v) + ", expected " + std::to_string(x.second); });
			}
			if(ev && m.event().t_case() == Event::kNextTurn) now += "";
		}
		}
		check();
	}
}
NAT_MAIN(one)
