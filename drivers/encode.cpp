// C14-C21: the encoder, included as it is, with a context that hands every call to the specification
#include <cassert>
#include <cstdint>
#include <cstddef>
#include <new>
#include <utility>
#include <vector>
#include "../src/codec/edo9300_ocgcore_encode.cpp"

extern "C"
{
using PPlace = YGOpen::Proto::Duel::Place;
size_t c_pile_size(uint32_t con, uint32_t loc) noexcept;
uint32_t c_get_reason() noexcept;
void c_set_reason(uint32_t) noexcept;
bool c_has_mat(PPlace const*) noexcept;
void c_get_left(PPlace* out, PPlace const*) noexcept;
void c_defer(PPlace const*) noexcept;
void c_take(std::vector<PPlace>*) noexcept;
void c_left(PPlace const*, PPlace const*) noexcept;
}

namespace
{

struct Mock final : YGOpen::Codec::IEncodeContext
{
	auto pile_size(Con con, Loc loc) const noexcept -> size_t override
	{
		return c_pile_size(static_cast<uint32_t>(con), static_cast<uint32_t>(loc));
	}
	auto get_match_win_reason() const noexcept -> uint32_t override
	{
		return c_get_reason();
	}
	auto has_xyz_mat(Place const& p) const noexcept -> bool override
	{
		return c_has_mat(&p);
	}
	auto get_xyz_left(Place const& p) const noexcept -> Place override
	{
		Place r;
		c_get_left(&r, &p);
		return r;
	}
	auto match_win_reason(uint32_t r) noexcept -> void override
	{
		c_set_reason(r);
	}
	auto xyz_mat_defer(Place const& p) noexcept -> void override
	{
		c_defer(&p);
	}
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override
	{
		std::vector<Place> v;
		c_take(&v);
		return v;
	}
	auto xyz_left(Place const& a, Place const& b) noexcept -> void override
	{
		c_left(&a, &b);
	}
};

} // namespace

extern "C"
{

void d_encode(google::protobuf::Arena* arena, uint8_t const* data, uint32_t* state, uint64_t* bytes,
              YGOpen::Proto::Duel::Msg** msg)
{
	Mock mock;
	auto const r = YGOpen::Codec::Edo9300::OCGCore::encode_one(*arena, mock, data);
	*state = static_cast<uint32_t>(r.state);
	*bytes = r.bytes_read;
	*msg = r.msg;
}

uint32_t d_state_unknown() { return static_cast<uint32_t>(YGOpen::Codec::EncodeOneResult::State::UNKNOWN); }
uint32_t d_state_ok() { return static_cast<uint32_t>(YGOpen::Codec::EncodeOneResult::State::OK); }
uint32_t d_state_swallowed() { return static_cast<uint32_t>(YGOpen::Codec::EncodeOneResult::State::SWALLOWED); }

void d_query(YGOpen::Proto::Duel::Msg_Query_Data* q, uint8_t const* data, uint32_t* count, uint8_t const** ptr,
             uint64_t* bytes)
{
	auto const r = YGOpen::Codec::Edo9300::OCGCore::encode_one_query(data, *q);
	*count = r.overlays_count;
	*ptr = r.overlays_ptr;
	*bytes = r.bytes_read;
}

}
