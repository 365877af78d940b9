// Small programs over the standard library and the generated classes, to compare what the contracts say with what the
// libraries do: tools/conform.py runs each natively and through the generator, with known and with symbolic arguments.
#include <algorithm>
#include <array>
#include <cstdint>
#include <deque>
#include <forward_list>
#include <iterator>
#include <list>
#include <map>
#include <numeric>
#include <optional>
#include <set>
#include <utility>
#include <variant>
#include <vector>
#include <duel_msg.pb.h>
#include <duel_data.pb.h>
using U = uint64_t;
using u32 = uint32_t;
using V = std::vector<u32>;
using P = YGOpen::Proto::Duel::Place;
#define T(name) extern "C" U t_##name(U a, U b, U c)
static inline U mix(U h, U x) { return h * 31 + x + 1; }
static inline V mk(U n)
{
	V v;
	v.push_back(10); v.push_back(11); v.push_back(12); v.push_back(13); v.push_back(14); v.push_back(15); v.push_back(16); v.push_back(17);
	v.resize(n);
	return v;
}
static inline U h(V const& v)
{
	U r = v.size();
	for(U i = 0; i < 16; i++)
		r = mix(r, i < v.size() ? v[i] : 99);
	return r;
}
// a, b, c in 0..4
T(resize) { V v = mk(a); v.resize(b, 7); return h(v); }
T(resize0) { V v = mk(a + 4); v.resize(b); return h(v); }
T(resize_self) { V v = mk(a + 1); v.resize(a + 1 + b, v[0]); return h(v); }
T(ctor_n) { V v(a); return h(v); }
T(ctor_nv) { V v(a, b); return h(v); }
T(ctor_range) { V w = mk(4 + a); V v(w.begin() + b, w.end()); return h(v); }
T(ctor_il) { V v{u32(a), u32(b), u32(c)}; return h(v); }
T(copy_ctor) { V w = mk(a); V v(w); w.push_back(1); return mix(h(v), h(w)); }
T(move_ctor) { V w = mk(a); V v(std::move(w)); return mix(h(v), h(w)); }
T(copy_assign) { V w = mk(a), v = mk(b); v = w; w.push_back(1); return mix(h(v), h(w)); }
T(move_assign) { V w = mk(a), v = mk(b); v = std::move(w); return mix(h(v), h(w)); }
T(self_assign) { V w = mk(a); V& v = w; v = w; return h(v); }
T(il_assign) { V w = mk(a); w = {1u, u32(b), 3u}; return h(w); }
T(assign_n) { V w = mk(a); w.assign(b, u32(c)); return h(w); }
T(assign_r) { V w = mk(a), v = mk(8); w.assign(v.begin() + b, v.begin() + b + c); return h(w); }
T(swap_m) { V w = mk(a), v = mk(b); w.swap(v); return mix(h(w), h(v)); }
T(swap_s) { V w = mk(a), v = mk(b); std::swap(w, v); return mix(h(w), h(v)); }
T(exchange) { V w = mk(a); V v = std::exchange(w, {}); return mix(h(w), h(v)); }
T(exchange2) { V w = mk(a), x = mk(b); V v = std::exchange(w, x); return mix(h(w), h(v)); }
T(pop) { V w = mk(a + 1); w.pop_back(); return h(w); }
T(front_back) { V w = mk(a + 1); w.front() = 5; U r = w.back(); w.back() = 9; return mix(h(w), r); }
T(at) { V w = mk(5); w.at(a) = 77; w[b] += 3; return h(w); }
T(erase1) { V w = mk(5); auto it = w.erase(w.begin() + a); return mix(h(w), it - w.begin()); }
T(erase2) { V w = mk(8); auto it = w.erase(w.begin() + a, w.begin() + a + b); return mix(h(w), it - w.begin()); }
T(erase_end) { V w = mk(5); w.erase(w.end() - a, w.end()); return h(w); }
T(insert1) { V w = mk(4); auto it = w.insert(w.begin() + a, u32(50 + b)); return mix(h(w), it - w.begin()); }
T(insert_self) { V w = mk(5); w.insert(w.begin() + a, w[b]); return h(w); }
T(insert_n) { V w = mk(4); auto it = w.insert(w.begin() + a, b, u32(c)); return mix(h(w), it - w.begin()); }
T(insert_r) { V w = mk(4), v = mk(8); auto it = w.insert(w.begin() + a, v.begin() + b, v.begin() + b + c); return mix(h(w), it - w.begin()); }
T(insert_il) { V w = mk(4); w.insert(w.begin() + a, {1u, 2u, 3u}); return h(w); }
T(insert_end) { V w = mk(a), v = mk(b); w.insert(w.end(), v.cbegin(), v.cend()); return h(w); }
T(emplace) { V w = mk(4); w.emplace(w.begin() + a, u32(b)); return h(w); }
T(emplace_back) { V w = mk(a); auto& r = w.emplace_back(u32(b)); r += 2; return h(w); }
T(emplace_back0) { V w = mk(a); auto& r = w.emplace_back(); r += 2; return h(w); }
T(push_self) { V w = mk(a + 1); w.push_back(w[a]); w.push_back(w.front()); return h(w); }
T(reserve) { V w = mk(a); w.reserve(100); w.shrink_to_fit(); return mix(h(w), w.capacity() >= w.size()); }
T(clear) { V w = mk(a); w.clear(); return mix(h(w), w.empty()); }
T(iter) { V w = mk(5); auto i = w.begin() + a; auto j = w.cend() - 1 - b; return mix(mix(*i, *j), mix(i < j, mix(i == j, U(j - i)))); }
T(copy_alg) { V w = mk(8), v = mk(6); auto e = std::copy(v.begin() + a, v.begin() + a + 2, w.begin() + b); return mix(h(w), e - w.begin()); }
T(copy_in) { V w = mk(8); std::copy(w.begin() + 3, w.begin() + 3 + a, w.begin()); return h(w); }
T(move_alg) { V w = mk(8), v = mk(6); auto e = std::move(v.begin(), v.begin() + a, w.begin() + b); return mix(h(w), e - w.begin()); }
T(copy_bi) { V w = mk(a), v = mk(8); std::copy(v.begin() + b, v.begin() + b + c, std::back_inserter(w)); return h(w); }
T(copy_rev) { V w = mk(8), v = mk(6); std::copy(v.rbegin() + a, v.rend(), w.begin()); return h(w); }
T(copy_mkrev) { V w = mk(8), v = mk(6); auto f = v.begin() + a; auto l = f + b / 2; std::copy(std::make_reverse_iterator(l), std::make_reverse_iterator(f), w.begin()); return h(w); }
T(ctor_rev) { V v = mk(a); V w(v.rbegin(), v.rend()); return h(w); }
T(insert_rev) { V v = mk(a), w = mk(b); w.insert(w.begin() + b, v.rbegin(), v.rend()); return h(w); }
T(copy_n) { V w = mk(8), v = mk(6); std::copy_n(v.begin() + 1, a, w.begin() + b); return h(w); }
T(copy_backward) { V w = mk(8); std::copy_backward(w.begin() + a, w.begin() + 4, w.begin() + 6); return h(w); }
T(move_backward) { V w = mk(8); std::move_backward(w.begin() + a, w.begin() + 4, w.begin() + 6); return h(w); }
T(reverse_copy) { V w = mk(8), v = mk(8); auto e = std::reverse_copy(v.begin() + a, v.begin() + a + b, w.begin() + 1); return mix(h(w), e - w.begin()); }
T(reverse) { V w = mk(8); std::reverse(w.begin() + a, w.begin() + 5); return h(w); }
T(rotate) { V w = mk(8); auto e = std::rotate(w.begin() + 1, w.begin() + 1 + a, w.begin() + 6); return mix(h(w), e - w.begin()); }
T(fill) { V w = mk(8); std::fill(w.begin() + a, w.end() - b, u32(3)); return h(w); }
T(fill_n) { V w = mk(8); std::fill_n(w.begin() + a, b, u32(3)); return h(w); }
T(distance) { V w = mk(8); return std::distance(w.begin() + a, w.end() - b); }
T(next_prev) { V w = mk(8); return mix(*std::next(w.begin(), a), *std::prev(w.end(), 1 + b)); }
T(find) { V w = mk(5); auto it = std::find(w.begin(), w.end(), u32(8 + 2 * a)); return it - w.begin(); }
T(find_if) { V w = mk(5); auto it = std::find_if(w.begin(), w.end(), [&](u32 x) { return x > 8 + 2 * a; }); return it - w.begin(); }
T(find_if_not) { V w = mk(5); auto it = std::find_if_not(w.begin(), w.end(), [&](u32 x) { return x < 8 + 2 * a; }); return it - w.begin(); }
T(any_all) { V w = mk(a); auto f = [&](u32 x) { return x > 9 + b; }; return std::any_of(w.begin(), w.end(), f) * 4 + std::all_of(w.begin(), w.end(), f) * 2 + std::none_of(w.begin(), w.end(), f); }
T(count_if) { V w = mk(a + 2); return std::count_if(w.begin(), w.end(), [&](u32 x) { return x > 9 + b; }); }
T(count) { V w = mk(a + 2); w[0] = 11; return std::count(w.begin(), w.end(), u32(11)); }
T(remove) { V w = mk(6); w[a] = 12; w.erase(std::remove(w.begin(), w.end(), u32(12)), w.end()); return h(w); }
T(remove_if) { V w = mk(6); w.erase(std::remove_if(w.begin(), w.end(), [&](u32 x) { return x % 2 == a % 2; }), w.end()); return h(w); }
T(for_each) { V w = mk(a); U r = 0; std::for_each(w.begin(), w.end(), [&](u32& x) { x += b; r = mix(r, x); }); return mix(h(w), r); }
T(transform) { V w = mk(a); std::transform(w.begin(), w.end(), w.begin(), [&](u32 x) { return x * 2 + u32(b); }); return h(w); }
T(accumulate) { V w = mk(a); return std::accumulate(w.begin(), w.end(), U(b)); }
T(iota) { V w = mk(a); std::iota(w.begin(), w.end(), u32(b)); return h(w); }
T(generate) { V w = mk(a); u32 k = 3; std::generate(w.begin(), w.end(), [&] { return k += 2; }); return h(w); }
T(equal) { V w = mk(a), v = mk(b); return (w == v) * 2 + std::equal(w.begin(), w.begin() + std::min(a, b), v.begin()); }
T(iter_swap) { V w = mk(5); std::iter_swap(w.begin() + a, w.begin() + b); std::swap(w[b], w[c]); return h(w); }
T(swap_ranges) { V w = mk(5), v = mk(3); std::swap_ranges(w.begin(), w.begin() + a % 4, v.begin()); return mix(h(w), h(v)); }
T(minmax) { return mix(std::min(a, b), mix(std::max(b, c), std::clamp<U>(a, 1, 3))); }
T(max_element) { V w = mk(5); w[a] = 90; return std::max_element(w.begin(), w.end()) - w.begin(); }
T(range_for) { V w = mk(a); U r = 0; for(auto& x : w) { x ^= 1; r = mix(r, x); } return mix(r, h(w)); }
T(index_loop) { V w = mk(a), v; for(U i = 0; i < w.size(); i++) v.push_back(w[w.size() - 1 - i]); return h(v); }
T(while_loop) { V w = mk(a), v; while(!w.empty()) { v.push_back(w.back()); w.pop_back(); } return mix(h(v), h(w)); }
T(write_loop) { V w = mk(a), v(a); for(U i = 0; i < w.size(); i++) v[i] = w[w.size() - 1 - i]; return h(v); }
T(array) { std::array<u32, 5> x{}; x[a] = 4; x.at(b) += 3; U r = 0; for(auto v : x) r = mix(r, v); return mix(r, x.size()); }
T(array_fill) { std::array<u32, 5> x; x.fill(a); x[b] = 1; U r = 0; for(auto v : x) r = mix(r, v); return r; }
T(array_swap) { std::array<V, 2> x{}; x[0] = mk(a); x[1] = mk(b); std::swap(x[0], x[1]); std::array<V, 2> y; std::swap(x, y); return mix(mix(h(y[0]), h(y[1])), h(x[0])); }
T(deque) { std::deque<U> d; for(U i = 0; i < 5; i++) d.push_back(i * 3); d.pop_back(); d.emplace_back(b); U r = d.size(); r = mix(r, d.front()); r = mix(r, d.back()); r = mix(r, d[a]); d.resize(a); return mix(r, d.size()); }
T(list) { std::list<U> l; l.push_back(1); l.emplace_back(a); l.push_back(3); U r = l.size(); for(auto x : l) r = mix(r, x); auto it = l.begin(); ++it; r = mix(r, *it); r = mix(r, it == --(--l.end())); return r; }
T(flist) { std::forward_list<U> l; l.emplace_front(a); l.push_front(b); l.emplace_front(c); U r = l.front(); for(auto& x : l) r = mix(r, x); l.pop_front(); return mix(r, l.front()); }
T(flist_rm) { std::forward_list<U> l; l.emplace_front(1); l.emplace_front(2); l.emplace_front(3); auto p = l.before_begin(); for(U i = 0; i < a % 3; i++) ++p; l.erase_after(p); U r = 0; for(auto& x : l) r = mix(r, x); return r; }
T(flist_rmif) { std::forward_list<U> l; l.emplace_front(1); l.emplace_front(2); l.emplace_front(3); l.remove_if([&](U& x) { return x == a; }); U r = 0; for(auto& x : l) r = mix(r, x); return r; }
static U cells[8];
T(set) { std::set<U*> s; s.insert(cells + a); s.insert(cells + b); s.insert(cells + c); U r = s.size(); r = mix(r, s.count(cells + 1)); r = mix(r, s.find(cells + 2) != s.end()); r = mix(r, s.insert(cells).second); return r; }
T(set_erase) { std::set<U*> s; s.insert(cells + a); s.insert(cells + b); U r = s.erase(cells + c); return mix(r, s.size()); }
static P pl(U a, U b, int o) { P p; p.set_con(1); p.set_loc(a); p.set_seq(b); p.set_oseq(o); return p; }
T(optional) { std::optional<U> o; if(a > 2) o = b; U r = o.has_value(); r = mix(r, o.value_or(c)); if(o) r = mix(r, *o); o.reset(); return mix(r, o.has_value()); }
T(variant) { std::variant<U, u32, bool> v; if(a > 2) v = u32(b); else if(a > 1) v = true; U r = v.index(); r = mix(r, std::visit([](auto x) -> U { return x; }, v)); return mix(r, std::holds_alternative<u32>(v)); }
T(pair) { std::pair<U, u32> p{a, u32(b)}; auto [x, y] = p; std::swap(x, a); return mix(mix(x, y), a); }
T(sort) { V w{u32(a), u32(b), u32(c)}; std::sort(w.begin(), w.end()); return h(w); }
T(vv) { std::vector<V> x; x.push_back(mk(a)); x.emplace_back(mk(b)); x.back().push_back(5); std::swap(x[0], x[1]); V y = std::move(x[0]); return mix(mix(h(x[1]), h(y)), x.size()); }
// generated classes
static U hp(P const& p) { return mix(mix(mix(p.con(), p.loc()), p.seq()), U(int64_t(p.oseq()))); }
T(pb_scalar) { P p; U r = hp(p); p.set_seq(a); p.set_oseq(-int(b)); r = mix(r, hp(p)); P q = p; q.set_seq(c); r = mix(r, hp(p)); r = mix(r, hp(q)); p.Clear(); return mix(r, hp(p)); }
T(pb_repeated) { YGOpen::Proto::Duel::Msg_Event_Card_Remove m; *m.add_places() = pl(a, b, c); m.add_places()->CopyFrom(pl(b, c, a)); U r = m.places_size(); for(auto& p : m.places()) r = mix(r, hp(p)); m.mutable_places(0)->set_seq(9); r = mix(r, hp(m.places(0))); auto n = m; m.clear_places(); return mix(mix(r, n.places_size()), m.places_size()); }
T(pb_oneof) { YGOpen::Proto::Duel::Msg m; U r = m.t_case(); auto* e = m.mutable_event(); r = mix(r, m.t_case()); e->mutable_lp()->set_controller(1); r = mix(r, e->t_case()); e->set_next_turn(1); r = mix(r, e->t_case()); r = mix(r, m.has_request()); m.mutable_request(); r = mix(r, m.has_event()); m.clear_t(); return mix(r, m.t_case()); }
T(pb_oneof2) { YGOpen::Proto::Duel::Msg_Event_LP l; l.set_become(a); U r = mix(l.t_case(), l.become()); r = mix(r, l.pay()); l.set_pay(b); r = mix(r, l.become()); r = mix(r, l.pay()); r = mix(r, l.has_pay()); l.clear_pay(); return mix(r, l.t_case()); }
T(pb_sub) { YGOpen::Proto::Duel::Msg_Query q; U r = q.has_place(); r = mix(r, hp(q.place())); q.mutable_place()->set_seq(a); r = mix(r, q.has_place()); r = mix(r, hp(q.place())); auto w = q; q.clear_place(); r = mix(r, q.has_place()); r = mix(r, hp(w.place())); *q.mutable_place() = pl(a, b, c); return mix(r, hp(q.place())); }
T(pb_swap) { YGOpen::Proto::Duel::Msg_Event_Card_Remove m, n; *m.add_places() = pl(a, b, c); *n.add_places() = pl(1, 2, 3); *n.add_places() = pl(c, b, a); m.mutable_places()->Swap(n.mutable_places()); U r = mix(m.places_size(), n.places_size()); m.mutable_places()->SwapElements(0, 1); r = mix(r, hp(m.places(0))); m.mutable_places()->RemoveLast(); return mix(mix(r, m.places_size()), hp(m.places(0))); }
T(pb_rep_iter) { YGOpen::Proto::Duel::Msg_Event_Card_Remove m; for(U i = 0; i < a; i++) *m.add_places() = pl(i, b, c); U r = 0; for(auto it = m.places().rbegin(); it != m.places().rend(); ++it) r = mix(r, hp(*it)); auto f = std::find_if(m.places().begin(), m.places().end(), [&](P const& p) { return p.loc() == b; }); return mix(r, f - m.places().begin()); }
