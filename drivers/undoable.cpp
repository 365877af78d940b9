// Entry points of undoable values (the bodies are the repository's templates).
#include <cassert>
#include <cstdint>
#include <utility>
#include <vector>
#include <new>
#include <ygopen/client/undoable.hpp>
using A = YGOpen::Client::BasicUndoable<uint32_t>;
using V = std::vector<uint64_t>;
using B = YGOpen::Client::BasicUndoable<V>;
extern "C" {
void a_ctor(void* p) { new(p) A(); }
uint32_t a_get(A const& a) { uint32_t const& r = a; return r; }
void a_set(A& a, uint32_t const& v) { a = v; }
void a_setr(A& a, uint32_t& v) { a = std::move(v); }
bool a_eq(A const& a, uint32_t const& v) { return a == v; }
void a_undo(A& a) { a.undo(); }
void b_ctor(void* p) { new(p) B(); }
V const* b_get(B const& b) { V const& r = b; return &r; }
void b_set(B& b, V const& v) { b = v; }
void b_assign(B& b, V const& v) { b.assign(v.cbegin(), v.cend()); }
void b_undo(B& b) { b.undo(); }
bool b_eq(B const& b, V const& v) { return b == v; }
}
