PRE = r'''
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdio>
#include <functional>
#include <list>
#include <memory>
#include <utility>
#include <vector>
#include <ygopen/duel/constants/attribute.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/link_arrow.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/duel/constants/position.hpp>
#include <ygopen/duel/constants/race.hpp>
#include <ygopen/duel/constants/status.hpp>
#include <ygopen/duel/constants/type.hpp>
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/parse_query.hpp>
using namespace YGOpen::Client;
using namespace YGOpen::Duel;
using PL = YGOpen::Proto::Duel::Place;
using Query = YGOpen::Proto::Duel::Msg::Query;
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
using Card = BasicCard<DefaultCardTraits>;
static PL pl(int con, uint32_t loc, uint32_t seq, int oseq = -1)
{
	PL p;
	p.set_con(con);
	p.set_loc(loc);
	p.set_seq(seq);
	p.set_oseq(oseq);
	return p;
}
'''
PQ = 'include/ygopen/client/parse_query.hpp'
DATA = 'include/ygopen/proto/duel/data.hpp'
SPECS = [
    dict(id='C12-a', prop='C12', edits=[(DATA, 'return !PlaceLess{}(lhs, rhs) && !PlaceLess{}(rhs, lhs);', 'return !PlaceLess{}(lhs, rhs);')],
         demo=PRE + r'''
int main()
{
	BasicFrame<Card> f;
	auto p = pl(0, LOCATION_MONSTER_ZONE, 0);
	f.card_add(p).equipped_to() = pl(0, LOCATION_MONSTER_ZONE, 3);
	Query q;
	*q.mutable_place() = p;
	*q.mutable_data()->mutable_equipped_to()->mutable_value() = pl(0, LOCATION_MONSTER_ZONE, 1);
	auto hits = parse_query<true>(f, q);
	CHECK(hits == QueryCacheHit::UNSPECIFIED);
	CHECK(f.card(p).equipped_to().seq() == 1);
}
''', needs='caching on, and a card that becomes equipped to a place ordered before the old one', breaks='the new value is dropped and reported as a hit'),
    dict(id='C12-b', prop='C12', edits=[(PQ, 'if(data.has_counters())', 'if(data.counters().values_size() > 0)')],
         demo=PRE + r'''
int main()
{
	BasicFrame<Card> f;
	auto p = pl(0, LOCATION_MONSTER_ZONE, 0);
	auto& c = f.card_add(p);
	c.counters().emplace_back();
	Query q;
	*q.mutable_place() = p;
	q.mutable_data()->mutable_counters();
	(void)parse_query(f, q);
	CHECK(c.counters().empty());
}
''', needs='a query that carries an empty list of counters for a card that has some', breaks='the counters stay'),
    dict(id='C12-c', prop='C12', edits=[(PQ, '''			if(card.name() == qv)                                       \\
				hits |= (QueryCacheHit::NAME);                          \\
''', '''			if(card.name() == qv)                                       \\
				hits = (QueryCacheHit::NAME);                           \\
''')],
         demo=PRE + r'''
int main()
{
	BasicFrame<Card> f;
	auto p = pl(0, LOCATION_MONSTER_ZONE, 0);
	auto& c = f.card_add(p);
	c.code() = 5;
	c.atk() = 7;
	Query q;
	*q.mutable_place() = p;
	q.mutable_data()->mutable_code()->set_value(5);
	q.mutable_data()->mutable_atk()->set_value(7);
	auto hits = parse_query<true>(f, q);
	CHECK(!!static_cast<uint64_t>(hits & QueryCacheHit::CODE));
	CHECK(!!static_cast<uint64_t>(hits & QueryCacheHit::ATTACK));
}
''', needs='caching on and two carried properties that are already equal', breaks='only the last one is named as a hit'),
]
