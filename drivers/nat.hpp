// Helpers of the native differential harnesses: argv = seed, seconds, only this case (0: all), property.
#pragma once
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <random>
#include <unistd.h>
namespace nat
{
using Rng = std::mt19937_64;
inline unsigned long cases = 0;
inline unsigned long seed = 0;
inline std::string prop;
// false while running an operation that another property is about: its trouble is not reported here
inline volatile bool own = true;
inline std::string (*context)() = nullptr;
inline std::string doing;
[[noreturn]] inline void mismatch(std::string const& s)
{
	std::printf("MISMATCH (seed %lu case %lu): %s\n", seed, cases, s.c_str());
	if(context) std::printf("%s\n", context().c_str());
	std::printf("CASES %lu\n", cases);
	std::fflush(stdout);
	std::_Exit(1);
}
template<typename F>
inline void expect(bool ok, F f)
{
	if(!ok) mismatch(std::string(f()));
}
inline void fail(std::string const& s) { mismatch(s); }
inline void crashed(int sig)
{
	if(!own)
	{
		std::printf("CASES %lu\n", cases);
		std::fflush(stdout);
		std::_Exit(0);
	}
	own = false;
	std::printf("MISMATCH (seed %lu case %lu): the code under test ended with signal %d during %s\n", seed, cases, sig, doing.c_str());
	if(context) std::printf("%s\n", context().c_str());
	std::printf("CASES %lu\n", cases);
	std::fflush(stdout);
	std::_Exit(1);
}
template<typename F>
inline int main_(int argc, char** argv, F f)
{
	seed = argc > 1 ? std::strtoul(argv[1], nullptr, 10) : 1;
	double secs = argc > 2 ? std::strtod(argv[2], nullptr) : 2;
	unsigned long only = argc > 3 ? std::strtoul(argv[3], nullptr, 10) : 0;
	prop = argc > 4 ? argv[4] : "";
	for(int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM})
		std::signal(s, crashed);
	auto t0 = std::chrono::steady_clock::now();
	for(cases = only; ; cases++)
	{
		alarm(20); // a case takes milliseconds; one that never ends is a failure
		Rng g(seed * 1000003ULL + cases);
		f(g);
		if(only || ((cases & 15) == 15 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs))
			break;
	}
	std::printf("CASES %lu\n", cases + 1);
	return 0;
}
}
#define NAT_MAIN(f) int main(int c, char** v) { std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16); return nat::main_(c, v, f); }
