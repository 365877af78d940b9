// Random queries on the cards of a real frame (plain values and values that keep history): every property of every
// card and the returned hits against the statement of C12, computed with protobuf reflection by property name.
#include "nframe.hpp"
#include <cassert>
#include <list>
#include <utility>
#include <ygopen/duel/constants/attribute.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/link_arrow.hpp>
#include <ygopen/duel/constants/position.hpp>
#include <ygopen/duel/constants/race.hpp>
#include <ygopen/duel/constants/status.hpp>
#include <ygopen/duel/constants/type.hpp>
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/frame.hpp>
#include <ygopen/client/parse_query.hpp>
#include <ygopen/client/undoable.hpp>
using YGOpen::Client::QueryCacheHit;
using YGOpen::Proto::Duel::Counter;
using YGOpen::Proto::Duel::Place;
using Query = YGOpen::Proto::Duel::Msg::Query;
static std::string now;
static std::string ctx() { return now; }
using D = YGOpen::Client::DefaultCardTraits;
struct UTraits
{
#define X(NAME, Name, name, value) using Name##Type = YGOpen::Client::BasicUndoable<typename D::Name##Type>;
#define EXPAND_ARRAY_LIKE_QUERIES
#define EXPAND_SEPARATE_LINK_DATA_QUERIES
#include <ygopen/client/queries.inl>
#undef EXPAND_SEPARATE_LINK_DATA_QUERIES
#undef EXPAND_ARRAY_LIKE_QUERIES
#undef X
};
static std::string S(Place const& p) { return ref::str(p); }
static std::string S(Counter const& c) { return "(" + std::to_string(c.type()) + "," + std::to_string(c.count()) + ")"; }
template<typename T>
static std::string S(std::vector<T> const& v)
{
	std::string s = "[";
	for(auto& x : v) s += S(x);
	return s + "]";
}
template<typename T>
static std::enable_if_t<std::is_integral_v<T> || std::is_enum_v<T>, std::string> S(T v) { return std::to_string(uint64_t(v)); }
using Vals = std::map<std::string, std::string>;
template<typename Card>
static Vals vals(Card const& c)
{
	Vals v;
#define X(NAME, Name, name, value) { typename D::Name##Type const& x = c.name(); v[#name] = S(x); }
#define EXPAND_ARRAY_LIKE_QUERIES
#define EXPAND_SEPARATE_LINK_DATA_QUERIES
#include <ygopen/client/queries.inl>
#undef EXPAND_SEPARATE_LINK_DATA_QUERIES
#undef EXPAND_ARRAY_LIKE_QUERIES
#undef X
	return v;
}
struct Make
{
	nat::Rng& g;
	unsigned dense;
	unsigned rnd(unsigned n) { return unsigned(g() % n); }
	Place place() { return ref::place(rnd(2), 1u << rnd(11), rnd(3) ? rnd(3) : rnd(60), rnd(3) ? -1 : int(rnd(3))); }
	uint64_t num() { return rnd(4) ? rnd(3) : g(); }
	template<typename T> static constexpr bool is_place = std::is_same_v<std::decay_t<T>, Place>;
	void query(Query& q)
	{
		auto* d = q.mutable_data();
#define X(NAME, Name, name, value_) if(rnd(dense) == 0) { auto* m = d->mutable_##name(); if constexpr(is_place<decltype(m->value())>) put(m); else set(m); }
#define EXPAND_SEPARATE_LINK_DATA_QUERIES
#include <ygopen/client/queries.inl>
#undef EXPAND_SEPARATE_LINK_DATA_QUERIES
#undef X
		if(rnd(3) == 0) { auto* m = d->mutable_targets(); for(int i = int(rnd(4)); i--;) *m->add_values() = place(); }
		if(rnd(3) == 0) { auto* m = d->mutable_counters(); for(int i = int(rnd(4)); i--;) { auto* c = m->add_values(); c->set_type(uint32_t(num())); c->set_count(uint32_t(num())); } }
	}
	template<typename M> void put(M* m) { *m->mutable_value() = place(); }
	template<typename M> void set(M* m) { m->set_value(static_cast<std::decay_t<decltype(m->value())>>(num())); }
};
// what the card should be, and which hits there should be
static uint64_t after(Vals& v, Query const& q, bool cache)
{
	uint64_t hits = 0;
	auto const& d = q.data();
#define X(NAME, Name, name, value_) \
	if(d.has_##name()) \
	{ \
		auto s = S(static_cast<typename D::Name##Type>(d.name().value())); \
		if(cache && v[#name] == s) hits |= uint64_t(value_); \
		v[#name] = s; \
	}
#define EXPAND_SEPARATE_LINK_DATA_QUERIES
#include <ygopen/client/queries.inl>
#undef EXPAND_SEPARATE_LINK_DATA_QUERIES
#undef X
	if(d.has_targets()) { auto const& l = d.targets().values(); v["targets"] = S(std::vector<Place>(l.begin(), l.end())); }
	if(d.has_counters()) { auto const& l = d.counters().values(); v["counters"] = S(std::vector<Counter>(l.begin(), l.end())); }
	return hits;
}
static std::string str(Vals const& v)
{
	std::string s;
	for(auto& [k, x] : v) s += " " + k + "=" + x;
	return s;
}
template<typename T>
static void history(nat::Rng& g)
{
	using Card = YGOpen::Client::BasicCard<T>;
	Make m{g, 1u + unsigned(g() % 4)};
	YGOpen::Client::BasicFrame<Card> f;
	std::vector<Place> ps;
	std::vector<Vals> want;
	nat::own = false;
	nat::doing = "card_add";
	for(unsigned i = 0; i < 3; i++) ps.push_back(ref::place(m.rnd(2), 0x1, 0)), f.card_add(ref::place(unsigned(ps.back().con()), 0x1, unsigned(f.pile(ps.back()).size())));
	ps.clear();
	for(unsigned con = 0; con < 2; con++)
		for(unsigned i = 0; i < f.pile(ref::place(con, 1, 0)).size(); i++) ps.push_back(ref::place(con, 1, i));
	auto z = ref::place(m.rnd(2), 0x4, m.rnd(5));
	f.card_add(z);
	ps.push_back(z);
	z.set_oseq(0);
	f.card_add(z);
	ps.push_back(z);
	auto const& cf = f;
	for(auto& p : ps) want.push_back(vals(cf.card(p)));
	nat::own = true;
	nat::doing = "parse_query";
	for(int n = 1 + int(m.rnd(6)); n--;)
	{
		auto const k = m.rnd(unsigned(ps.size()));
		bool const cache = m.rnd(2);
		Query q;
		*q.mutable_place() = ps[k];
		m.query(q);
		now = "query (caching " + std::string(cache ? "on" : "off") + ") " + q.ShortDebugString() + "\ncard before:" + str(want[k]);
		auto const hits = after(want[k], q, cache);
		auto const got = uint64_t(cache ? YGOpen::Client::parse_query<true>(f, q) : YGOpen::Client::parse_query<false>(f, q));
		nat::expect(got == hits, [&] { return "hits " + std::to_string(got) + ", expected " + std::to_string(hits); });
		for(size_t i = 0; i < ps.size(); i++)
		{
			auto const v = vals(cf.card(ps[i]));
			nat::expect(v == want[i], [&]
			{
				std::string s = (i == k ? "the card of the query" : "another card") + std::string(":");
				for(auto& [key, x] : v) if(x != want[i][key]) s += " " + key + "=" + x + " expected " + want[i][key];
				return s;
			});
		}
	}
}
static void one(nat::Rng& g)
{
	nat::context = ctx;
	if(g() & 1) history<D>(g); else history<UTraits>(g);
}
NAT_MAIN(one)
