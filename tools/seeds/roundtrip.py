PRE = r'''
#include <google/protobuf/arena.h>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/proto/duel/msg.hpp>
#include <cstdio>
#include <cstdint>
#include <vector>
using namespace YGOpen::Proto::Duel;
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
struct Ctx final : YGOpen::Codec::IEncodeContext
{
	auto pile_size(Con, Loc) const noexcept -> size_t override { return 0; }
	auto get_match_win_reason() const noexcept -> uint32_t override { return 0; }
	auto has_xyz_mat(Place const&) const noexcept -> bool override { return false; }
	auto get_xyz_left(Place const& p) const noexcept -> Place override { return p; }
	auto match_win_reason(uint32_t) noexcept -> void override {}
	auto xyz_mat_defer(Place const&) noexcept -> void override {}
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override { return {}; }
	auto xyz_left(Place const&, Place const&) noexcept -> void override {}
};
static std::vector<uint8_t> trip(uint8_t con, uint32_t open)
{
	google::protobuf::Arena arena;
	Ctx c;
	uint32_t m = ~open;
	uint8_t b[] = {18, con, 1, uint8_t(m), uint8_t(m >> 8), uint8_t(m >> 16), uint8_t(m >> 24)};
	auto r = YGOpen::Codec::Edo9300::OCGCore::encode_one(arena, c, b);
	Answer a;
	for(auto const& p : r.msg->request().select_zone().places()) *a.mutable_select_zone()->add_places() = p;
	std::vector<uint8_t> out;
	YGOpen::Codec::Edo9300::OCGCore::decode_one_answer(r.msg->request(), a, out);
	return out;
}
using V = std::vector<uint8_t>;
'''
EN = 'src/codec/edo9300_ocgcore_encode.cpp'
SPECS = [
    dict(id='C23-a', prop='C23', edits=[(EN, 'iterate_half(1U - invert, FIELD_HALF);', 'iterate_half(1U, FIELD_HALF);')],
         demo=PRE + r'''
int main()
{
	CHECK(trip(1, 1u << 18) == (V{0, 4, 2}));
	CHECK(trip(0, 1u << 18) == (V{1, 4, 2}));
}
''', needs='a zone request to the second player that offers a zone of the first', breaks='the answer names a zone of the wrong player'),
    dict(id='C23-b', prop='C23', edits=[(EN, '''		// Field Spell Zone.
		if(!half[i])
			add_place(con, LOCATION_FIELD_ZONE, 0U);
		i++;
''', '''		// Field Spell Zone.
		if(!half[i])
			add_place(con, LOCATION_FIELD_ZONE, con);
		i++;
''')],
         demo=PRE + r'''
int main()
{
	CHECK(trip(0, 1u << 13) == (V{0, 8, 5}));
	CHECK(trip(1, 1u << 13) == (V{1, 8, 5}));
	CHECK(trip(1, 1u << 29) == (V{0, 8, 5}));
}
''', needs='a request that offers the field zone of the second player', breaks='the answer names a pendulum zone'),
]
