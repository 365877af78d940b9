// runs the encoder on the cases that natenc_run.py writes to stdin, each message ending at an inaccessible page
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sys/mman.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <google/protobuf/arena.h>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <ygopen/proto/duel/msg.hpp>
using YGOpen::Proto::Duel::Place;

static uint64_t seed;
static std::string out, trace;
static unsigned ntrace;
static std::vector<Place> deferred;
static uint64_t h(uint64_t tag, uint64_t a, uint64_t b, uint64_t c, uint64_t d)
{
	uint64_t x = seed + tag * 0x9E3779B97F4A7C15ULL;
	for(uint64_t v : {a, b, c, d})
	{
		x ^= v + 0x9E3779B97F4A7C15ULL;
		x *= 0xBF58476D1CE4E5B9ULL;
		x ^= x >> 29;
	}
	return x;
}
template<typename T>
static void put(std::string& s, T v)
{
	s.append(reinterpret_cast<char*>(&v), sizeof v);
}
static void put(std::string& s, Place const& p)
{
	put(s, (uint32_t)p.con());
	put(s, (uint32_t)p.loc());
	put(s, (uint32_t)p.seq());
	put(s, (uint32_t)p.oseq());
}
static uint64_t hp(uint64_t tag, Place const& p)
{
	return h(tag, (uint32_t)p.con(), (uint32_t)p.loc(), (uint32_t)p.seq(), (uint32_t)p.oseq());
}
struct Mock final : YGOpen::Codec::IEncodeContext
{
	auto pile_size(Con con, Loc loc) const noexcept -> size_t override { return h(1, (uint32_t)con, (uint32_t)loc, 0, 0) % (seed & 15 ? 41 : 701); }
	auto get_match_win_reason() const noexcept -> uint32_t override { return (uint32_t)h(2, 0, 0, 0, 0); }
	auto has_xyz_mat(Place const& p) const noexcept -> bool override { return hp(3, p) >> 40 & 1; }
	auto get_xyz_left(Place const& p) const noexcept -> Place override
	{
		Place r;
		r.set_con((uint32_t)hp(4, p) & 3);
		r.set_loc((uint32_t)hp(5, p) & 0xFFFF);
		r.set_seq((uint32_t)hp(6, p));
		r.set_oseq((int32_t)hp(7, p));
		return r;
	}
	auto match_win_reason(uint32_t r) noexcept -> void override { ntrace++; put(trace, (uint8_t)1); put(trace, r); }
	auto xyz_mat_defer(Place const& p) noexcept -> void override { ntrace++; put(trace, (uint8_t)2); put(trace, p); }
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override { ntrace++; put(trace, (uint8_t)3); return deferred; }
	auto xyz_left(Place const& a, Place const& b) noexcept -> void override { ntrace++; put(trace, (uint8_t)4); put(trace, a); put(trace, b); }
};
template<typename T>
static bool get(T& v)
{
	return std::fread(&v, sizeof v, 1, stdin) == 1;
}
int main()
{
	size_t const big = 1 << 20, page = 4096;
	auto* mem = static_cast<uint8_t*>(mmap(nullptr, big + page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
	mprotect(mem + big, page, PROT_NONE);
	uint32_t len;
	while(get(len))
	{
		if(len == 0xFFFFFFFFU) // end of a batch
		{
			std::fwrite(out.data(), 1, out.size(), stdout);
			std::fflush(stdout);
			out.clear();
			continue;
		}
		if(len > big) return 2;
		uint8_t* b = mem + big - len;
		if(len && std::fread(b, len, 1, stdin) != 1) return 2;
		uint32_t nd;
		get(seed);
		get(nd);
		deferred.clear();
		for(uint32_t i = 0; i < nd; i++)
		{
			uint32_t f[4];
			get(f);
			Place p;
			p.set_con(f[0]); p.set_loc(f[1]); p.set_seq(f[2]); p.set_oseq((int32_t)f[3]);
			deferred.push_back(p);
		}
		trace.clear();
		ntrace = 0;
		alarm(20);
		google::protobuf::Arena arena;
		Mock ctx;
		auto const r = YGOpen::Codec::Edo9300::OCGCore::encode_one(arena, ctx, b);
		using S = YGOpen::Codec::EncodeOneResult::State;
		put(out, (uint32_t)(r.state == S::UNKNOWN ? 0 : r.state == S::OK ? 1 : r.state == S::SWALLOWED ? 2 : 3));
		put(out, (uint64_t)r.bytes_read);
		if(r.msg)
		{
			std::string s;
			r.msg->SerializePartialToString(&s);
			put(out, (uint32_t)s.size());
			out += s;
		}
		else
			put(out, 0xFFFFFFFFU);
		put(out, (uint32_t)ntrace);
		put(out, (uint32_t)trace.size());
		out += trace;
	}
	return 0;
}
