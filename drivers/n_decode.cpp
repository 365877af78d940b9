// decode_one_answer against the core's format, seeded
#include "nat.hpp"
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/proto/duel/msg.hpp>
#include <cstring>
#include <vector>
using namespace YGOpen::Proto::Duel;
using Bytes = std::vector<uint8_t>;
static void put(Bytes& b, uint64_t v, unsigned n) { for(unsigned i = 0; i < n; i++) b.push_back(uint8_t(v >> (8 * i))); }
static std::string hex(Bytes const& b)
{
	std::string s;
	char t[4];
	for(auto x : b) { std::snprintf(t, 4, "%02x ", x); s += t; }
	return s;
}
static void all(nat::Rng& g)
{
	auto v32 = [&]() -> uint32_t { switch(g() % 6) { case 0: return 0; case 1: return 1; case 2: return 0xFFFFFFFFu; case 3: return 0x80000000u; default: return (uint32_t)g(); } };
	Msg::Request rq;
	Answer an;
	Bytes want;
	auto count = [&]() -> unsigned { switch(g() % 8) { case 0: return 0; case 1: return 1; case 2: return 64 + g() % 190; default: return g() % 12; } };
	auto const kind = g() % 30;
	switch(kind)
	{
	case 0: { auto v = v32(); an.set_select_attribute(v); put(want, v, 4); break; }
	case 1: { auto v = v32(); an.set_select_card_code(v); put(want, v, 4); break; }
	case 2: { auto v = v32(); an.set_select_effect(v); put(want, v, 4); break; }
	case 3: { auto v = v32(); an.set_select_number(v); put(want, v, 4); break; }
	case 4: { auto v = v32(); an.set_select_position(v); put(want, v, 4); break; }
	case 5: { uint64_t v = g() % 2 ? g() : v32(); an.set_select_race(v); put(want, v, 8); break; }
	case 6: { auto v = v32(); an.set_select_rock_paper_scissors((int32_t)v); put(want, v, 4); break; }
	case 7: { bool v = g() % 2; an.set_select_yes_no(v); put(want, v, 4); break; }
	case 8: { rq.mutable_select_card(); an.mutable_select_card()->set_cancel(g() % 2); put(want, 0xFFFFFFFFu, 4); break; }
	case 9: { rq.mutable_select_card(); an.mutable_select_card()->set_finish(g() % 2); put(want, 0xFFFFFFFFu, 4); break; }
	case 10: case 11: case 12: case 13:
	{
		auto* sc = rq.mutable_select_card();
		bool rec = false;
		switch(g() % 4) { case 0: sc->mutable_recursive(); rec = true; break; case 1: sc->mutable_unique_range(); break; case 2: sc->mutable_unique_sum(); break; default: sc->mutable_unique_tributes(); break; }
		auto n = 1 + count();
		if(g() % 40 == 0) n += 300;
		put(want, 1, 4);
		if(!rec) put(want, n, 4);
		for(unsigned i = 0; i < n; i++)
		{
			unsigned v = g() % 3 ? g() % 16 : g() % 0x10000;
			an.mutable_select_card()->mutable_indexes()->add_values(v);
			if(!rec) put(want, v, 2);
			else if(i == 0) put(want, v, 4);
		}
		break;
	}
	case 14: { rq.mutable_select_idle()->set_is_battle_cmd(g() % 2); an.mutable_select_idle()->set_shuffle(g() % 2); put(want, 8, 4); break; }
	case 15: case 16:
	{
		bool b = g() % 2, e = g() % 2;
		rq.mutable_select_idle()->set_is_battle_cmd(b);
		an.mutable_select_idle()->set_phase(e ? 0x200 : b ? 0x100 : 0x80);
		put(want, b ? (e ? 3 : 2) : (e ? 7 : 6), 4);
		break;
	}
	case 17: case 18: case 19: case 20:
	{
		static const struct { Answer::SelectIdle::Action a; bool b; unsigned t; } T[] = {{Answer::SelectIdle::ACTION_ACTIVATE, true, 0}, {Answer::SelectIdle::ACTION_ACTIVATE, false, 5}, {Answer::SelectIdle::ACTION_SUMMON, false, 0}, {Answer::SelectIdle::ACTION_SPSUMMON, false, 1},
			{Answer::SelectIdle::ACTION_REPOSITION, false, 2}, {Answer::SelectIdle::ACTION_MSET, false, 3}, {Answer::SelectIdle::ACTION_SSET, false, 4}, {Answer::SelectIdle::ACTION_ATTACK, true, 1}};
		auto const& t = T[g() % 8];
		rq.mutable_select_idle()->set_is_battle_cmd(t.b);
		unsigned i = g() % 2 ? g() % 10 : g() % 0x10000;
		an.mutable_select_idle()->mutable_card_action()->set_action(t.a);
		an.mutable_select_idle()->mutable_card_action()->set_index(i);
		put(want, t.t, 2);
		put(want, i, 2);
		break;
	}
	case 21: { an.mutable_select_to_chain()->set_no_op(g() % 2); put(want, 0xFFFFFFFFu, 4); break; }
	case 22: { auto v = v32(); an.mutable_select_to_chain()->set_index(v); put(want, v, 4); break; }
	case 23: case 24: case 25: case 26:
	{
		static const struct { unsigned loc, n, cl, cs; } T[] = {{4, 7, 4, 0}, {8, 5, 8, 0}, {0x100, 1, 8, 5}, {0x200, 2, 8, 6}};
		auto n = g() % 2 ? 1 + g() % 3 : count();
		an.mutable_select_zone();
		for(unsigned i = 0; i < n; i++)
		{
			auto const& t = T[g() % 4];
			auto* p = an.mutable_select_zone()->add_places();
			unsigned s = g() % t.n, c = g() % 2;
			p->set_con((decltype(p->con()))c);
			p->set_loc((decltype(p->loc()))t.loc);
			p->set_seq(s);
			p->set_oseq(-1);
			put(want, c, 1); put(want, t.cl, 1); put(want, t.cs + s, 1);
		}
		break;
	}
	case 27: { an.mutable_sort()->set_skip(g() % 2); put(want, 0xFFFFFFFFu, 4); break; }
	default:
	{
		auto n = g() % 10 ? 1 + g() % 20 : 1 + g() % 255;
		put(want, n, 1);
		for(unsigned i = 0; i < n; i++)
		{
			auto v = g() % 3 ? i : g() % 256;
			an.mutable_sort()->mutable_indexes()->add_values(v);
			put(want, v, 1);
		}
		break;
	}
	}
	Bytes out(g() % 3 ? g() % 40 : 0, (uint8_t)g());
	auto const rs = rq.SerializeAsString(), as = an.SerializeAsString();
	nat::doing = an.ShortDebugString();
	YGOpen::Codec::Edo9300::OCGCore::decode_one_answer(rq, an, out);
	nat::expect(out == want, [&] { return "answer " + an.ShortDebugString() + " to " + rq.ShortDebugString() + "\n gives " + hex(out) + "\n expected " + hex(want); });
	nat::expect(rs == rq.SerializeAsString() && as == an.SerializeAsString(), [] { return std::string("request or answer changed"); });
}
NAT_MAIN(all)
