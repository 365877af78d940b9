// Differential run of the bit functions against a bit-by-bit reference.
#include "nat.hpp"
#include <type_traits>
#include <ygopen/bit.hpp>
template<typename T>
static void one(unsigned c, T x)
{
	constexpr unsigned N = sizeof(T) * 8;
	unsigned n = 0;
	T l = 0, r = 0;
	for(unsigned i = 0; i < N; i++)
		n += (x >> i) & 1;
	unsigned k = 0;
	for(unsigned i = 0; i < N; i++)
		if(((x >> i) & 1) && k < c) { r |= T(T(1) << i); k++; }
	k = 0;
	for(unsigned i = N; i-- > 0;)
		if(((x >> i) & 1) && k < c) { l |= T(T(1) << i); k++; }
	auto in = [&] { return "width " + std::to_string(N) + " count " + std::to_string(c) + " x " + std::to_string((unsigned long long)x); };
	nat::expect(YGOpen::Bit::popcnt<T>(x) == n, [&] { return "popcnt " + in(); });
	nat::expect(YGOpen::Bit::choosel<T>(c, x) == l, [&] { return "choosel " + in() + " gives " + std::to_string((unsigned long long)YGOpen::Bit::choosel<T>(c, x)) + " expected " + std::to_string((unsigned long long)l); });
	nat::expect(YGOpen::Bit::chooser<T>(c, x) == r, [&] { return "chooser " + in() + " gives " + std::to_string((unsigned long long)YGOpen::Bit::chooser<T>(c, x)) + " expected " + std::to_string((unsigned long long)r); });
}
static void all(nat::Rng& g)
{
	for(int i = 0; i < 64; i++)
	{
		unsigned c = g() % 4 == 0 ? (unsigned)g() : unsigned(g() % 70);
		uint64_t x = g() & (g() % 2 ? g() : ~0ULL);
		if(g() % 4 == 0) x = 1ULL << (g() % 64);
		if(g() % 8 == 0) x = ~x;
		one<uint8_t>(c, x);
		one<uint16_t>(c, x);
		one<uint32_t>(c, x);
		one<uint64_t>(c, x);
	}
}
NAT_MAIN(all)
