// C10, C11, C30: parse_event and undo_parse_event on the repository's board. The frame, the lists of the board and
// (for undo) its values are contract-only: each operation is handed to the specification.
#include <algorithm>
#include <array>
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <utility>
#include <ygopen/client/board.hpp>
#include <ygopen/client/parse_event.hpp>
#include <ygopen/client/undo_parse_event.hpp>
#include <ygopen/duel/constants/phase.hpp>
#include <ygopen/duel/constants/controller.hpp>
#include <ygopen/proto/duel/data.hpp>
#include <ygopen/proto/duel/msg.hpp>

using PPlace = YGOpen::Proto::Duel::Place;
using PChain = YGOpen::Proto::Duel::Chain;
using Event = YGOpen::Proto::Duel::Msg::Event;
extern "C"
{
// an operation of the frame
void c_op(void const* frame, uint32_t kind, PPlace const* a, PPlace const* b, uint64_t n, bool r) noexcept;
// an operation of a list or a value of the board
void c_list(void const* what, uint32_t kind) noexcept;
void c_place(void const* what, PPlace const* p) noexcept;
void c_chain(void const* what, uint32_t kind, PChain const* c) noexcept;
void c_value(void const* what, uint32_t kind, uint32_t v) noexcept;
}
enum : uint32_t { ADD = 1, REMOVE, RESIZE, CLEAR, MOVE, SWAP, SHUFFLE, SHUFFLED, SPLICE, PSWAP, UNDO = 32 };
enum : uint32_t { ASSIGN = 1, POP, PUSH, ELEMENT, SET };
namespace
{
struct Frame
{
	char unit;
	struct C {};
	auto card_add(PPlace const& p) noexcept -> void { c_op(this, ADD, &p, nullptr, 0, false); }
	auto card_remove(PPlace const& p) noexcept -> void { c_op(this, REMOVE, &p, nullptr, 0, false); }
	auto pile_resize(PPlace const& p, size_t n) noexcept -> void { c_op(this, RESIZE, &p, nullptr, n, false); }
	auto clear() noexcept -> void { c_op(this, CLEAR, nullptr, nullptr, 0, false); }
	auto card_move(PPlace const& a, PPlace const& b) noexcept -> void { c_op(this, MOVE, &a, &b, 0, false); }
	auto card_swap(PPlace const& a, PPlace const& b) noexcept -> void { c_op(this, SWAP, &a, &b, 0, false); }
	auto pile_splice(PPlace const& a, size_t n, PPlace const& b, bool r) noexcept -> void { c_op(this, SPLICE, &a, &b, n, r); }
	auto pile_swap(PPlace const& a, PPlace const& b) noexcept -> void { c_op(this, PSWAP, &a, &b, 0, false); }
	template<typename It>
	auto shuffle(uint32_t u, It a, It b, size_t n) noexcept -> void
	{
		c_op(this, u + SHUFFLE, nullptr, nullptr, n, false);
		for(size_t i = 0; i < n; i++)
		{
			c_op(this, u + SHUFFLED, &*a, &*b, 0, false);
			++a;
			++b;
		}
	}
	template<typename It>
	auto card_shuffle(It a, It b, size_t n) noexcept -> void { shuffle(0, a, b, n); }
	auto undo_card_add(PPlace const& p) noexcept -> void { c_op(this, UNDO + ADD, &p, nullptr, 0, false); }
	auto undo_card_remove(PPlace const& p) noexcept -> void { c_op(this, UNDO + REMOVE, &p, nullptr, 0, false); }
	auto undo_pile_resize(PPlace const& p, size_t n) noexcept -> void { c_op(this, UNDO + RESIZE, &p, nullptr, n, false); }
	auto undo_clear() noexcept -> void { c_op(this, UNDO + CLEAR, nullptr, nullptr, 0, false); }
	template<typename It>
	auto undo_card_shuffle(It a, It b, size_t n) noexcept -> void { shuffle(UNDO, a, b, n); }
};
inline auto element(void const* l, PPlace const& p) noexcept -> void { c_place(l, &p); }
inline auto element(void const* l, PChain const& p) noexcept -> void { c_chain(l, ELEMENT, &p); }
template<typename T>
struct List
{
	char unit;
	template<typename It>
	auto assign(It b, It e) noexcept -> void
	{
		c_list(this, ASSIGN);
		for(; b != e; ++b)
			element(this, *b);
	}
	auto push_back(T const& v) noexcept -> void { c_chain(this, PUSH, &v); }
	auto pop_back() noexcept -> void { c_list(this, POP); }
	auto undo_push_back(T const& v) noexcept -> void { c_chain(this, UNDO + PUSH, &v); }
	auto undo_pop_back() noexcept -> void { c_list(this, UNDO + POP); }
	auto undo() noexcept -> void { c_list(this, UNDO + ASSIGN); }
};
template<typename T>
struct Value
{
	T v;
	operator T const&() const noexcept { return v; }
	template<typename U>
	auto operator=(U&& u) noexcept -> Value&
	{
		v = static_cast<T>(std::forward<U>(u));
		c_value(this, SET, static_cast<uint32_t>(v));
		return *this;
	}
	auto undo() noexcept -> void { c_value(this, UNDO + SET, 0); }
};
template<template<typename> class V>
struct Traits
{
	using BlockedZonesType = List<PPlace>;
	using ChainStackType = List<PChain>;
	using FrameType = Frame;
	using LPType = V<uint32_t>;
	using PhaseType = V<YGOpen::Duel::Phase>;
	using TurnControllerType = V<YGOpen::Duel::Controller>;
	using TurnType = V<uint32_t>;
};
template<typename T>
using Plain = T;
}
using PB = YGOpen::Client::BasicBoard<Traits<Plain>>;
using UB = YGOpen::Client::BasicBoard<Traits<Value>>;
extern "C"
{
void d_parse(PB& b, Event const& e) { YGOpen::Client::parse_event(b, e); }
void d_uparse(UB& b, Event const& e) { YGOpen::Client::parse_event(b, e); }
void d_undo(UB& b, Event const& e) { YGOpen::Client::undo_parse_event(b, e); }
unsigned long d_size() { return sizeof(PB); }
unsigned long d_usize() { return sizeof(UB); }
}
#define FIELD(n, e) \
	extern "C" void const* d_##n(PB& b) { return &b.e; } \
	extern "C" void const* d_u##n(UB& b) { return &b.e; }
FIELD(frame, frame())
FIELD(chains, chain_stack())
FIELD(turn, turn())
FIELD(controller, turn_controller())
FIELD(lp0, lp(YGOpen::Duel::CONTROLLER_0))
FIELD(lp1, lp(YGOpen::Duel::CONTROLLER_1))
FIELD(phase, phase())
FIELD(blocked, blocked_zones())
