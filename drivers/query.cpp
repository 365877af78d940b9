// C12: parse_query on the repository's card and default traits. The frame is contract-only (which card is at a
// place); the two list properties hand what they are assigned to the specification.
#include <algorithm>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <utility>
#include <ygopen/duel/constants/attribute.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/duel/constants/link_arrow.hpp>
#include <ygopen/duel/constants/position.hpp>
#include <ygopen/duel/constants/race.hpp>
#include <ygopen/duel/constants/status.hpp>
#include <ygopen/duel/constants/type.hpp>
#include <ygopen/client/card.hpp>
#include <ygopen/client/default_card_traits.hpp>
#include <ygopen/client/parse_query.hpp>

using PPlace = YGOpen::Proto::Duel::Place;
using Counter = YGOpen::Proto::Duel::Counter;
using Query = YGOpen::Proto::Duel::Msg::Query;
extern "C"
{
void* c_card(void const* frame, PPlace const* p) noexcept;
bool c_has_card(void const* frame, PPlace const* p) noexcept;
void c_assign(void const* what) noexcept;
void c_place(void const* what, PPlace const* p) noexcept;
void c_counter(void const* what, Counter const* c) noexcept;
}
namespace
{
inline auto element(void const* l, PPlace const& p) noexcept -> void { c_place(l, &p); }
inline auto element(void const* l, Counter const& p) noexcept -> void { c_counter(l, &p); }
template<typename T>
struct List
{
	char unit;
	template<typename It>
	auto assign(It b, It e) noexcept -> void
	{
		c_assign(this);
		for(; b != e; ++b)
			element(this, *b);
	}
};
struct Traits : YGOpen::Client::DefaultCardTraits
{
	using TargetsType = List<PPlace>;
	using CountersType = List<Counter>;
};
using Card = YGOpen::Client::BasicCard<Traits>;
struct Frame
{
	using CardType = Card;
	char unit;
	auto has_card(PPlace const& p) const noexcept -> bool { return c_has_card(this, &p); }
	auto card(PPlace const& p) noexcept -> Card& { return *static_cast<Card*>(c_card(this, &p)); }
};
}
extern "C"
{
uint64_t d_query(Frame& f, Query const& q) { return static_cast<uint64_t>(YGOpen::Client::parse_query<false>(f, q)); }
uint64_t d_query_cache(Frame& f, Query const& q) { return static_cast<uint64_t>(YGOpen::Client::parse_query<true>(f, q)); }
bool d_hit(uint64_t hits, uint64_t which) { return !!(static_cast<YGOpen::Client::QueryCacheHit>(hits) & static_cast<YGOpen::Client::QueryCacheHit>(which)); }
unsigned long d_size() { return sizeof(Card); }
#define X(NAME, Name, name, value) \
	void const* d_at_##name(Card& c) { return &c.name(); } \
	unsigned long d_sz_##name() { return sizeof(Card::Name##Type); } \
	uint64_t d_hit_##name() { return static_cast<uint64_t>(YGOpen::Client::QueryCacheHit::NAME); }
#define EXPAND_ARRAY_LIKE_QUERIES
#define EXPAND_SEPARATE_LINK_DATA_QUERIES
#include <ygopen/client/queries.inl>
#undef EXPAND_SEPARATE_LINK_DATA_QUERIES
#undef EXPAND_ARRAY_LIKE_QUERIES
#undef X
}
