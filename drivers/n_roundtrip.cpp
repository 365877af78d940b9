// Zone requests of the core with random masks, encoded and answered unchanged: the bytes name the zones asked for.
#include <google/protobuf/arena.h>
#include <set>
#include <tuple>
#include <vector>
#include <ygopen/codec/edo9300_ocgcore_decode.hpp>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/proto/duel/answer.hpp>
#include <ygopen/proto/duel/msg.hpp>
#include "nat.hpp"
using namespace YGOpen::Proto::Duel;
struct Ctx final : YGOpen::Codec::IEncodeContext
{
	auto pile_size(Con, Loc) const noexcept -> size_t override { return 0; }
	auto get_match_win_reason() const noexcept -> uint32_t override { return 0; }
	auto has_xyz_mat(Place const&) const noexcept -> bool override { return false; }
	auto get_xyz_left(Place const& p) const noexcept -> Place override { return p; }
	auto match_win_reason(uint32_t) noexcept -> void override {}
	auto xyz_mat_defer(Place const&) noexcept -> void override {}
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override { return {}; }
	auto xyz_left(Place const&, Place const&) noexcept -> void override {}
};
using Zone = std::tuple<int, int, int>;
static std::string show(Zone const& z)
{
	return "(" + std::to_string(std::get<0>(z)) + "," + std::to_string(std::get<1>(z)) + "," + std::to_string(std::get<2>(z)) + ")";
}
static std::string now;
static std::string ctx() { return now; }
static Zone zone(unsigned bit, unsigned con)
{
	unsigned i = bit & 15U;
	int c = int(bit < 16 ? con : 1 - con);
	return i < 8 ? Zone{c, 4, int(i)} : Zone{c, 8, int(i - 8)};
}
static void run(nat::Rng& g)
{
	nat::context = ctx;
	uint32_t mask = g() % 4 == 0 ? uint32_t(g()) : 0xFFFFFFFFu;
	if(g() % 4 == 0) mask &= uint32_t(g());
	if(g() % 2) mask |= 0x00800080u;
	mask &= ~(1U << (g() % 32));
	unsigned con = g() % 2, count = g() % 4, type = g() % 2 ? 18 : 24;
	now = "type " + std::to_string(type) + " player " + std::to_string(con) + " mask " + std::to_string(mask);
	nat::doing = now;
	uint8_t b[7] = {uint8_t(type), uint8_t(con), uint8_t(count), uint8_t(mask), uint8_t(mask >> 8), uint8_t(mask >> 16), uint8_t(mask >> 24)};
	google::protobuf::Arena arena;
	Ctx c;
	auto r = YGOpen::Codec::Edo9300::OCGCore::encode_one(arena, c, b);
	if(r.msg == nullptr || r.msg->request().t_case() != Msg::Request::kSelectZone) nat::fail("not a request for a zone");
	auto const& offered = r.msg->request().select_zone().places();
	std::set<Zone> open;
	for(unsigned i = 0; i < 32; i++)
		if((i & 15U) != 7 && !(mask & (1U << i))) open.insert(zone(i, con));
	nat::expect(size_t(offered.size()) == open.size(), [&] { return std::to_string(offered.size()) + " zones offered, " + std::to_string(open.size()) + " are free"; });
	std::vector<int> pick;
	for(int i = 0; i < offered.size(); i++) pick.push_back(i);
	bool all = g() % 2;
	for(size_t i = pick.size(); i > 1; i--) std::swap(pick[i - 1], pick[g() % i]);
	if(!all && !pick.empty()) pick.resize(1 + g() % pick.size());
	Answer a;
	a.mutable_select_zone();
	for(int i : pick) *a.mutable_select_zone()->add_places() = offered[i];
	std::vector<uint8_t> out(g() % 9, 0xEE);
	YGOpen::Codec::Edo9300::OCGCore::decode_one_answer(r.msg->request(), a, out);
	nat::expect(out.size() == 3 * pick.size(), [&] { return std::to_string(out.size()) + " bytes for " + std::to_string(pick.size()) + " zones"; });
	std::set<Zone> seen;
	for(size_t i = 0; i < pick.size(); i++)
	{
		Zone z{out[3 * i], out[3 * i + 1], out[3 * i + 2]};
		nat::expect(open.count(z) != 0, [&] { return "answered zone " + show(z) + " was not offered by the mask"; });
		nat::expect(seen.insert(z).second, [&] { return "two offered zones are answered as " + show(z); });
	}
}
NAT_MAIN(run)
