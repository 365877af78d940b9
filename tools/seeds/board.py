PRE = r'''
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdio>
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <utility>
#include <vector>
#include <ygopen/client/board.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/frame_limbo.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/client/undoable.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/duel/constants/phase.hpp>
#include <ygopen/proto/duel/msg.hpp>
using namespace YGOpen::Duel;
using PL = YGOpen::Proto::Duel::Place;
using Chain = YGOpen::Proto::Duel::Chain;
using Event = YGOpen::Proto::Duel::Msg::Event;
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
struct Card { int id{}; };
template<typename T> using Plain = T;
template<typename T> using Undoable = YGOpen::Client::BasicUndoable<T>;
template<template<typename> class V, typename F>
struct Traits
{
	using BlockedZonesType = V<std::vector<PL>>;
	using ChainStackType = V<std::vector<Chain>>;
	using FrameType = F;
	using LPType = V<uint32_t>;
	using PhaseType = V<Phase>;
	using TurnControllerType = V<Controller>;
	using TurnType = V<uint32_t>;
};
using B = YGOpen::Client::BasicBoard<Traits<Plain, YGOpen::Client::BasicFrame<Card>>>;
using UB = YGOpen::Client::BasicBoard<Traits<Undoable, YGOpen::Client::LimboFrame<Card>>>;
static PL pl(int con, uint32_t loc, uint32_t seq, int oseq = -1)
{
	PL p;
	p.set_con(con);
	p.set_loc(loc);
	p.set_seq(seq);
	p.set_oseq(oseq);
	return p;
}
'''
PE = 'include/ygopen/client/parse_event.hpp'
UE = 'include/ygopen/client/undo_parse_event.hpp'
SPECS = [
    dict(id='C10-a', prop='C10', edits=[(PE, '''			for(auto const& place : exchange.remove().places())
				frame.card_remove(place);
			for(auto const& place : exchange.add().places())
				frame.card_add(place);
''', '''			for(auto const& place : exchange.add().places())
				frame.card_add(place);
			for(auto const& place : exchange.remove().places())
				frame.card_remove(place);
''')],
         demo=PRE + r'''
int main()
{
	B b;
	auto place = pl(0, LOCATION_MAIN_DECK, 0);
	b.frame().card_add(place).id = 7;
	Event e;
	auto* x = e.mutable_board()->mutable_exchange();
	*x->mutable_remove()->add_places() = place;
	*x->mutable_add()->add_places() = place;
	*x->mutable_add()->add_places() = pl(0, LOCATION_MAIN_DECK, 1);
	YGOpen::Client::parse_event(b, e);
	CHECK(b.frame().pile(place).size() == 2);
	CHECK(b.frame().card(pl(0, LOCATION_MAIN_DECK, 0)).id == 0);
	CHECK(b.frame().card(pl(0, LOCATION_MAIN_DECK, 1)).id == 0);
}
''', needs='an exchange of the board that removes and adds cards of the same pile', breaks='the new cards are added before the old ones are removed: a card that should be gone stays'),
    dict(id='C10-b', prop='C10', edits=[(PE, 'if(auto tc = state.turn_counter(); tc >= 0)', 'if(auto tc = state.turn_counter(); tc > 0)')],
         demo=PRE + r'''
int main()
{
	B b;
	b.turn() = 5;
	Event e;
	auto* x = e.mutable_board()->mutable_state();
	x->add_lps(1);
	x->add_lps(2);
	x->set_turn_counter(0);
	YGOpen::Client::parse_event(b, e);
	CHECK(b.turn() == 0);
}
''', needs='a full state with turn counter 0 on a board that has seen turns', breaks='the turn keeps its old value'),
    dict(id='C10-c', prop='C10', edits=[(PE, 'frame.card_swap(op.place_a(), op.place_b());', '''{
					if(op.place_a().oseq() == op.place_b().oseq())
						frame.card_swap(op.place_a(), op.place_b());
				}''')],
         demo=PRE + r'''
int main()
{
	B b;
	b.frame().card_add(pl(0, LOCATION_MONSTER_ZONE, 1)).id = 1;
	b.frame().card_add(pl(0, LOCATION_MONSTER_ZONE, 1, 0)).id = 2;
	b.frame().card_add(pl(1, LOCATION_HAND, 0)).id = 3;
	Event e;
	auto* x = e.mutable_card()->mutable_exchange()->add_ops();
	*x->mutable_place_a() = pl(0, LOCATION_MONSTER_ZONE, 1, 0);
	*x->mutable_place_b() = pl(1, LOCATION_HAND, 0);
	YGOpen::Client::parse_event(b, e);
	CHECK(b.frame().card(pl(1, LOCATION_HAND, 0)).id == 2);
	CHECK(b.frame().card(pl(0, LOCATION_MONSTER_ZONE, 1, 0)).id == 3);
}
''', needs='an exchange of a material with a card of another place', breaks='the exchange is not applied'),
    dict(id='C11-a', prop='C11', edits=[(UE, 'for(auto const& op : reverse(pile.splice().ops()))', 'for(auto const& op : pile.splice().ops())')],
         demo=PRE + r'''
int main()
{
	UB b;
	int id = 0;
	for(unsigned i = 0; i < 4; i++) b.frame().card_add(pl(0, LOCATION_MAIN_DECK, i)).id = id++;
	Event e;
	auto add = [&](PL f, unsigned n, PL t)
	{
		auto* x = e.mutable_pile()->mutable_splice()->add_ops();
		*x->mutable_from() = f;
		*x->mutable_to() = t;
		x->set_count(n);
	};
	add(pl(0, LOCATION_MAIN_DECK, 0), 2, pl(0, LOCATION_GRAVEYARD, 0));
	add(pl(0, LOCATION_MAIN_DECK, 0), 1, pl(0, LOCATION_GRAVEYARD, 1));
	YGOpen::Client::parse_event(b, e);
	CHECK(b.frame().card(pl(0, LOCATION_GRAVEYARD, 1)).id == 2);
	YGOpen::Client::undo_parse_event(b, e);
	for(int i = 0; i < 4; i++) CHECK(b.frame().card(pl(0, LOCATION_MAIN_DECK, unsigned(i))).id == i);
}
''', needs='undoing an event with two dependent splices', breaks='the splices are undone in the wrong order and cards end up in other positions'),
    dict(id='C11-b', prop='C11', edits=[(UE, '''	case Msg::Event::kNextTurn:
	{
		board.turn().undo();
''', '''	case Msg::Event::kNextTurn:
	{
		if(uint32_t{board.turn()} > 1U)
			board.turn().undo();
''')],
         demo=PRE + r'''
int main()
{
	UB b;
	Event e;
	e.set_next_turn(1);
	YGOpen::Client::parse_event(b, e);
	CHECK(uint32_t{b.turn()} == 1);
	YGOpen::Client::undo_parse_event(b, e);
	CHECK(uint32_t{b.turn()} == 0);
}
''', needs='undoing the very first turn of a duel', breaks='the turn stays 1'),
    dict(id='C11-c', prop='C11', edits=[(UE, 'frame.pile_splice(op.to(), op.count(), op.from(), op.reverse());', 'frame.pile_splice(op.to(), op.count(), op.from(), op.reverse() && op.count() > 2);')],
         demo=PRE + r'''
int main()
{
	UB b;
	for(unsigned i = 0; i < 3; i++) b.frame().card_add(pl(0, LOCATION_MAIN_DECK, i)).id = int(i);
	Event e;
	auto* x = e.mutable_pile()->mutable_splice()->add_ops();
	*x->mutable_from() = pl(0, LOCATION_MAIN_DECK, 0);
	*x->mutable_to() = pl(0, LOCATION_GRAVEYARD, 0);
	x->set_count(2);
	x->set_reverse(true);
	YGOpen::Client::parse_event(b, e);
	YGOpen::Client::undo_parse_event(b, e);
	for(int i = 0; i < 3; i++) CHECK(b.frame().card(pl(0, LOCATION_MAIN_DECK, unsigned(i))).id == i);
}
''', needs='undoing a reversing splice of two cards', breaks='the two cards come back in the opposite order'),
    dict(id='C30-a', prop='C30', edits=[(PE, 'lpv = (lpv < lp.pay()) ? 0 : lpv - lp.pay();', 'lpv = (lpv < lp.pay()) ? lpv : lpv - lp.pay();')],
         demo=PRE + r'''
int main()
{
	B b;
	b.lp(CONTROLLER_1) = 500;
	Event e;
	e.mutable_lp()->set_controller(1);
	e.mutable_lp()->set_pay(501);
	YGOpen::Client::parse_event(b, e);
	CHECK(b.lp(CONTROLLER_1) == 0);
}
''', needs='a payment of more than the player has', breaks='the life points are left unchanged instead of becoming zero'),
    dict(id='C30-b', prop='C30', edits=[(PE, 'lpv = (lpv < lp.damage()) ? 0 : lpv - lp.damage();', 'lpv = static_cast<int32_t>(lpv - lp.damage()) < 0 ? 0 : lpv - lp.damage();')],
         demo=PRE + r'''
int main()
{
	B b;
	b.lp(CONTROLLER_0) = 100;
	Event e;
	e.mutable_lp()->set_controller(0);
	e.mutable_lp()->set_damage(0x90000000U);
	YGOpen::Client::parse_event(b, e);
	CHECK(b.lp(CONTROLLER_0) == 0);
}
''', needs='damage of 2^31 or more', breaks='the life points wrap around instead of stopping at zero'),
]
