#include <type_traits>
#include <ygopen/bit.hpp>
#include <cstdint>
#define W(N, T) \
	extern "C" unsigned d_popcnt##N(T x) { return YGOpen::Bit::popcnt<T>(x); } \
	extern "C" T d_choosel##N(unsigned c, T x) { return YGOpen::Bit::choosel<T>(c, x); } \
	extern "C" T d_chooser##N(unsigned c, T x) { return YGOpen::Bit::chooser<T>(c, x); }
W(8, uint8_t)
W(16, uint16_t)
W(32, uint32_t)
W(64, uint64_t)
