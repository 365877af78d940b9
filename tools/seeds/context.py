PRE = r'''
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <cstdio>
#include <functional>
#include <utility>
#include <variant>
#include <vector>
#include <ygopen/codec/encode_common.hpp>
#include <ygopen/client/board.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/proto/duel/msg.hpp>
#define private public
#include <ygopen/server/basic_encode_context.hpp>
#undef private
using namespace YGOpen::Duel;
using C = YGOpen::Server::BasicEncodeContext;
using PL = YGOpen::Proto::Duel::Place;
using Msg = YGOpen::Proto::Duel::Msg;
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
static PL pl(int con, uint32_t loc, uint32_t seq, int oseq = -1)
{
	PL p;
	p.set_con(con);
	p.set_loc(loc);
	p.set_seq(seq);
	p.set_oseq(oseq);
	return p;
}
'''
BC = 'include/ygopen/server/basic_encode_context.hpp'
DATA = 'include/ygopen/proto/duel/data.hpp'
SPECS = [
    dict(id='C24-a', prop='C24', edits=[(BC, 'left_[left] = from;', 'left_.emplace(left, from);')],
         demo=PRE + r'''
int main()
{
	C c;
	c.xyz_left(pl(0, LOCATION_MONSTER_ZONE, 2), pl(0, LOCATION_GRAVEYARD, 0));
	c.xyz_left(pl(0, LOCATION_MONSTER_ZONE, 2), pl(0, LOCATION_MONSTER_ZONE, 4));
	CHECK(c.get_xyz_left(pl(0, LOCATION_MONSTER_ZONE, 2)).seq() == 4);
}
''', needs='two cards that leave through the same place', breaks='the first origin is returned instead of the last'),
    dict(id='C24-b', prop='C24', edits=[(BC, '''		if(msg.t_case() == YGOpen::Proto::Duel::Msg::kEvent)
			parse_event(board_, msg.event());
		for(auto const& query : msg.queries())
			static_cast<void>(
				YGOpen::Client::parse_query(board_.frame(), query));
''', '''		for(auto const& query : msg.queries())
			static_cast<void>(
				YGOpen::Client::parse_query(board_.frame(), query));
		if(msg.t_case() == YGOpen::Proto::Duel::Msg::kEvent)
			parse_event(board_, msg.event());
''')],
         demo=PRE + r'''
int main()
{
	C c;
	Msg a;
	for(unsigned i = 0; i < 2; i++) *a.mutable_event()->mutable_card()->mutable_add()->add_places() = pl(0, LOCATION_HAND, i);
	c.parse(a);
	Msg m;
	auto* o = m.mutable_event()->mutable_card()->mutable_exchange()->add_ops();
	*o->mutable_place_a() = pl(0, LOCATION_HAND, 0);
	*o->mutable_place_b() = pl(0, LOCATION_HAND, 1);
	auto* q = m.add_queries();
	*q->mutable_place() = pl(0, LOCATION_HAND, 0);
	q->mutable_data()->mutable_code()->set_value(77);
	c.parse(m);
	CHECK(c.board_.frame().card(pl(0, LOCATION_HAND, 0)).code() == 77);
}
''', needs='a message whose event moves the card its query is about', breaks='the query is applied to the card that was at the place before the event'),
    dict(id='C24-c', prop='C24', edits=[(BC, 'match_win_reason_ = reason;', 'match_win_reason_ |= reason;')],
         demo=PRE + r'''
int main()
{
	C c;
	c.match_win_reason(0x10);
	c.match_win_reason(0x4);
	CHECK(c.get_match_win_reason() == 0x4);
}
''', needs='two match win reasons in one match', breaks='the reasons are mixed'),
]
