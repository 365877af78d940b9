// Random events on a board: the operations performed on a recording frame and the values of the board against the
// statements of C10 and C30; undoing against the operations recorded while applying, and on the real frame that
// keeps history against snapshots (C11).
#include "nevent.hpp"
#include <cassert>
#include <list>
#include <utility>
#include <ygopen/client/board.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/duel/constants/phase.hpp>
#include <ygopen/proto/duel/msg.hpp>
using namespace YGOpen::Duel;
using YGOpen::Proto::Duel::Chain;
using YGOpen::Proto::Duel::Place;
using Event = YGOpen::Proto::Duel::Msg::Event;
using Strings = std::vector<std::string>;
static std::string now;
static std::string ctx() { return now; }
static std::string S(Chain const& c) { return std::to_string(std::hash<std::string>()(c.SerializeAsString()) % 100000); }
template<typename T>
static std::string join(T const& v)
{
	std::string s;
	for(auto& x : v) s += " " + x;
	return s;
}
struct RecFrame
{
	Strings log;
	void op(std::string s) { log.push_back(std::move(s)); }
	void card_add(Place const& p) { op("add" + S(p)); }
	void card_remove(Place const& p) { op("remove" + S(p)); }
	void pile_resize(Place const& p, size_t n) { op("resize" + S(p) + std::to_string(n)); }
	void clear() { op("clear"); }
	void card_move(Place const& a, Place const& b) { op("move" + S(a) + S(b)); }
	void card_swap(Place const& a, Place const& b) { op("swap" + S(a) + S(b)); }
	void pile_splice(Place const& a, size_t n, Place const& b, bool r) { op("splice" + S(a) + S(b) + std::to_string(n) + (r ? "r" : "")); }
	void pile_swap(Place const& a, Place const& b) { op("pswap" + S(a) + S(b)); }
	template<typename It>
	std::string two(It a, It b, size_t n)
	{
		std::string s;
		for(size_t i = 0; i < n; i++, ++a, ++b) s += S(*a) + S(*b);
		return s;
	}
	template<typename It>
	void card_shuffle(It a, It b, size_t n) { op("shuffle" + two(a, b, n)); }
	void undo_card_add(Place const& p) { op("undo add" + S(p)); }
	void undo_card_remove(Place const& p) { op("undo remove" + S(p)); }
	void undo_pile_resize(Place const& p, size_t n) { op("undo resize" + S(p) + std::to_string(n)); }
	void undo_clear() { op("undo clear"); }
	template<typename It>
	void undo_card_shuffle(It a, It b, size_t n) { op("undo shuffle" + two(a, b, n)); }
};
template<typename T>
struct RecList
{
	std::vector<T> v;
	Strings log;
	template<typename It>
	void assign(It b, It e) { v.assign(b, e); log.push_back("set"); }
	void push_back(T const& x) { v.push_back(x); log.push_back("push" + S(x)); }
	void pop_back() { if(!v.empty()) v.pop_back(); log.push_back("pop"); }
	void undo_push_back(T const& x) { log.push_back("undo push" + S(x)); }
	void undo_pop_back() { log.push_back("undo pop"); }
	void undo() { log.push_back("undo set"); }
};
template<typename T>
struct RecValue
{
	T v{};
	Strings log;
	operator T const&() const noexcept { return v; }
	template<typename U>
	RecValue& operator=(U&& u) { v = static_cast<T>(u); log.push_back("set"); return *this; }
	void undo() { log.push_back("undo set"); }
};
template<template<typename> class V>
struct RecTraits
{
	using BlockedZonesType = RecList<Place>;
	using ChainStackType = RecList<Chain>;
	using FrameType = RecFrame;
	using LPType = V<uint32_t>;
	using PhaseType = V<Phase>;
	using TurnControllerType = V<Controller>;
	using TurnType = V<uint32_t>;
};
template<typename T> using Plain = T;
using PB = YGOpen::Client::BasicBoard<RecTraits<Plain>>;
using UB = YGOpen::Client::BasicBoard<RecTraits<RecValue>>;
struct LimboTraits
{
	template<typename T> using V = YGOpen::Client::BasicUndoable<T>;
	using BlockedZonesType = V<std::vector<Place>>;
	using ChainStackType = V<std::vector<Chain>>;
	using FrameType = YGOpen::Client::LimboFrame<ref::Card>;
	using LPType = V<uint32_t>;
	using PhaseType = V<Phase>;
	using TurnControllerType = V<Controller>;
	using TurnType = V<uint32_t>;
};
using LB = YGOpen::Client::BasicBoard<LimboTraits>;
static Strings expected(Event const& e)
{
	RecFrame f;
	using E = Event;
	auto resizes = [&](auto const& m) { for(auto const& o : m.ops()) f.pile_resize(o.place(), o.count()); };
	auto adds = [&](auto const& m) { for(auto const& p : m.places()) f.card_add(p); };
	auto removes = [&](auto const& m) { for(auto const& p : m.places()) f.card_remove(p); };
	if(e.t_case() == E::kBoard)
	{
		if(e.board().t_case() == E::Board::kExchange)
		{
			resizes(e.board().exchange().resize());
			removes(e.board().exchange().remove());
			adds(e.board().exchange().add());
		}
		if(e.board().t_case() == E::Board::kState)
		{
			f.clear();
			adds(e.board().state().add());
			resizes(e.board().state().resize());
		}
	}
	if(e.t_case() == E::kCard)
	{
		auto const& c = e.card();
		if(c.t_case() == E::Card::kAdd) adds(c.add());
		if(c.t_case() == E::Card::kRemove) removes(c.remove());
		if(c.t_case() == E::Card::kExchange) for(auto const& o : c.exchange().ops()) f.card_swap(o.place_a(), o.place_b());
		if(c.t_case() == E::Card::kMove) for(auto const& o : c.move().ops()) f.card_move(o.old_place(), o.new_place());
		if(c.t_case() == E::Card::kShuffle) f.card_shuffle(c.shuffle().previous_places().begin(), c.shuffle().current_places().begin(), size_t(c.shuffle().current_places_size()));
	}
	if(e.t_case() == E::kPile)
	{
		auto const& c = e.pile();
		if(c.t_case() == E::Pile::kResize) resizes(c.resize());
		if(c.t_case() == E::Pile::kExchange) for(auto const& o : c.exchange().ops()) f.pile_swap(o.place_a(), o.place_b());
		if(c.t_case() == E::Pile::kSplice) for(auto const& o : c.splice().ops()) f.pile_splice(o.from(), o.count(), o.to(), o.reverse());
	}
	return f.log;
}
struct Vals
{
	uint64_t turn, con, lp[2], phase;
	Strings chains, blocked;
	bool operator==(Vals const& o) const { return turn == o.turn && con == o.con && lp[0] == o.lp[0] && lp[1] == o.lp[1] && phase == o.phase && chains == o.chains && blocked == o.blocked; }
	std::string str() const
	{
		return "turn " + std::to_string(turn) + " of " + std::to_string(con) + " lp " + std::to_string(lp[0]) + " " + std::to_string(lp[1]) + " phase " + std::to_string(phase) + " chains" + join(chains) + " blocked" + join(blocked);
	}
};
template<typename T> static std::vector<T> const& list(RecList<T> const& l) { return l.v; }
template<typename T> static std::vector<T> const& list(YGOpen::Client::BasicUndoable<std::vector<T>> const& l) { return l; }
template<typename B>
static Vals vals(B const& b)
{
	Vals v;
	v.turn = uint32_t{b.turn()};
	v.con = uint64_t(Controller{b.turn_controller()});
	v.lp[0] = uint32_t{b.lp(CONTROLLER_0)};
	v.lp[1] = uint32_t{b.lp(CONTROLLER_1)};
	v.phase = uint64_t(Phase{b.phase()});
	for(auto& c : list(b.chain_stack())) v.chains.push_back(S(c));
	for(auto& c : list(b.blocked_zones())) v.blocked.push_back(S(c));
	return v;
}
static Vals after(Vals v, Event const& e)
{
	using E = Event;
	switch(e.t_case())
	{
	case E::kBoard:
		if(e.board().t_case() == E::Board::kState)
		{
			auto const& s = e.board().state();
			if(s.turn_counter() >= 0) v.turn = uint64_t(s.turn_counter());
			v.lp[0] = s.lps(0);
			v.lp[1] = s.lps(1);
			v.chains.clear();
			for(auto const& c : s.chains()) v.chains.push_back(S(c));
		}
		break;
	case E::kChainStack:
		if(e.chain_stack().t_case() == E::ChainStack::kPush) v.chains.push_back(S(e.chain_stack().push()));
		if(e.chain_stack().t_case() == E::ChainStack::kPop && !v.chains.empty()) v.chains.pop_back();
		break;
	case E::kNextTurn: v.turn = uint32_t(v.turn + 1); v.con = uint64_t(Controller(e.next_turn())); break;
	case E::kNextPhase: v.phase = e.next_phase(); break;
	case E::kLp:
	{
		auto& l = v.lp[e.lp().controller()];
		switch(e.lp().t_case())
		{
		case E::LP::kBecome: l = e.lp().become(); break;
		case E::LP::kDamage: l -= std::min<uint64_t>(l, e.lp().damage()); break;
		case E::LP::kPay: l -= std::min<uint64_t>(l, e.lp().pay()); break;
		case E::LP::kRecover: l = uint32_t(l + e.lp().recover()); break;
		default: break;
		}
		break;
	}
	case E::kZoneBlock:
		v.blocked.clear();
		for(auto const& p : e.zone_block().zones()) v.blocked.push_back(S(p));
		break;
	default: break;
	}
	return v;
}
static void describe(Event const& e)
{
	std::string h;
	for(unsigned char c : e.SerializeAsString()) { char b[4]; std::snprintf(b, sizeof b, "%02x", c); h += b; }
	now += "\n  event of kind " + std::to_string(int(e.t_case())) + ": " + h.substr(0, 600);
}
static void apply(nat::Rng& g, bool lp)
{
	Make m{g};
	PB b;
	b.turn() = m.u32();
	b.lp(CONTROLLER_0) = m.u32();
	b.lp(CONTROLLER_1) = m.u32();
	auto v = vals(b);
	now = "start: " + v.str();
	for(unsigned i = 1 + m.rnd(8); i--;)
	{
		Event e;
		if(lp) m.lp(e); else m.event(e);
		describe(e);
		b.frame().log.clear();
		nat::doing = "parse_event";
		parse_event(b, e);
		auto want = expected(e);
		nat::expect(b.frame().log == want, [&] { return "operations on the frame:" + join(b.frame().log) + "\n  expected:" + join(want); });
		v = after(v, e);
		auto got = vals(b);
		nat::expect(got == v, [&] { return "board: " + got.str() + "\n  expected: " + v.str(); });
	}
}
static std::string inverse(std::string const& s, Event const& e, size_t i)
{
	if(s.rfind("move", 0) == 0) { auto const& o = e.card().move().ops(int(i)); return "move" + S(o.new_place()) + S(o.old_place()); }
	if(s.rfind("splice", 0) == 0) { auto const& o = e.pile().splice().ops(int(i)); return "splice" + S(o.to()) + S(o.from()) + std::to_string(size_t(o.count())) + (o.reverse() ? "r" : ""); }
	if(s.rfind("swap", 0) == 0 || s.rfind("pswap", 0) == 0) return s;
	return "undo " + s;
}
static void undone(Strings const& done, Strings const& un, char const* what)
{
	Strings want;
	for(auto i = done.rbegin(); i != done.rend(); ++i) want.push_back("undo " + *i);
	nat::expect(un == want, [&] { return std::string(what) + ":" + join(un) + "\n  expected:" + join(want); });
}
static void undo(nat::Rng& g)
{
	Make m{g};
	Event e;
	m.event(e);
	now = "";
	describe(e);
	UB a, b;
	nat::own = false;
	nat::doing = "parse_event";
	parse_event(a, e);
	nat::own = true;
	nat::doing = "undo_parse_event";
	undo_parse_event(b, e);
	Strings want;
	auto const& l = a.frame().log;
	for(size_t i = l.size(); i-- > 0;) want.push_back(inverse(l[i], e, i));
	nat::expect(b.frame().log == want, [&] { return "operations on the frame:" + join(b.frame().log) + "\n  expected:" + join(want); });
	undone(a.chain_stack().log, b.chain_stack().log, "chain stack");
	undone(a.blocked_zones().log, b.blocked_zones().log, "blocked zones");
	undone(a.turn().log, b.turn().log, "turn");
	undone(a.turn_controller().log, b.turn_controller().log, "turn controller");
	undone(a.phase().log, b.phase().log, "phase");
	undone(a.lp(CONTROLLER_0).log, b.lp(CONTROLLER_0).log, "life points");
	undone(a.lp(CONTROLLER_1).log, b.lp(CONTROLLER_1).log, "life points");
}
static void history(nat::Rng& g)
{
	ref::Card::live.clear();
	Fit f{{g}, {g}};
	auto b = std::make_unique<LB>();
	struct Step { Event e; ref::Field before, after; Vals vb, va; };
	std::vector<Step> h;
	size_t pos = 0;
	now = "history:";
	unsigned n = 3 + f.m.rnd(25);
	auto back = [&]()
	{
		auto& s = h[--pos];
		now += "\n undo";
		describe(s.e);
		nat::own = true;
		nat::doing = "undo_parse_event";
		undo_parse_event(*b, s.e);
		auto r = ref::Field::read(b->frame());
		nat::expect(r == s.before, [&] { return "after undoing the field differs: " + r.diff(s.before); });
		auto v = vals(*b);
		nat::expect(v == s.vb, [&] { return "after undoing the board is " + v.str() + "\n  and was " + s.vb.str(); });
		nat::own = false;
	};
	for(unsigned i = 0; i < n; i++)
	{
		if(pos > 0 && f.m.rnd(5) == 0) { back(); continue; }
		if(pos < h.size())
		{
			auto& s = h[pos++];
			now += "\n again";
			describe(s.e);
			nat::doing = "parse_event";
			parse_event(*b, s.e);
			if(!(ref::Field::read(b->frame()) == s.after) || !(vals(*b) == s.va)) return;
			continue;
		}
		Event e;
		if(!f.event(e)) continue;
		Step s;
		s.e = e;
		s.before = ref::Field::read(b->frame());
		s.vb = vals(*b);
		describe(e);
		nat::doing = "parse_event";
		parse_event(*b, e);
		s.after = ref::Field::read(b->frame());
		s.va = vals(*b);
		// the shape must be what was meant, or later events do not fit
		for(auto& x : s.after.piles) if(x.second.size() != f.t.piles[x.first].size()) return;
		for(auto& x : s.after.zones) { auto& z = f.t.zones[x.first]; if((x.second.card != nullptr) != (z.card != nullptr) || x.second.mats.size() != z.mats.size()) return; }
		h.push_back(s);
		pos++;
	}
	while(pos > 0) back();
}
static void run(nat::Rng& g)
{
	nat::context = ctx;
	auto is = [](char const* p) { return nat::prop.empty() || nat::prop == p; };
	nat::own = true;
	if(is("C10")) apply(g, false);
	if(is("C30")) apply(g, true);
	if(is("C11"))
	{
		undo(g);
		nat::own = false;
		if(g() % 4 == 0) history(g);
	}
	nat::own = false;
}
NAT_MAIN(run)
