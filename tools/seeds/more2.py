exec(open('/verif/tools/seeds/frame.py').read().split('SPECS = [')[0])
UN = 'include/ygopen/client/undoable.hpp'
BIT = 'include/ygopen/bit.hpp'
SPECS = [
    dict(id='C04-a', prop='C04', edits=[(FR, '''				std::swap(za.card, zb.materials[b.oseq()]);
''', '''				std::swap(za.card, zb.materials[&za == &zb ? 0 : b.oseq()]);
''')],
         demo=PRE + r'''int main() { F f; Card* c = &f.card_add(pl(0,4,1)); f.card_add(pl(0,4,1,0)); Card* m = &f.card_add(pl(0,4,1,1)); f.card_swap(pl(0,4,1), pl(0,4,1,1)); CHECK(&f.card(pl(0,4,1)) == m); CHECK(&f.card(pl(0,4,1,1)) == c); return 0; }''',
         needs='a swap of a card with one of its own materials that is not the first', breaks='the first material is swapped instead'),
    dict(id='C04-b', prop='C04', edits=[(FR, '''				std::swap(z.materials[a.oseq()], p[b.seq()]);
''', '''				std::swap(z.materials[a.oseq()], p[static_cast<uint8_t>(b.seq())]);
''')],
         demo=PRE + r'''int main() { F f; f.card_add(pl(0,4,1)); Card* m = &f.card_add(pl(0,4,1,0)); Card* l{}; for(int i = 0; i < 300; i++) l = &f.card_add(pl(0,1,i)); f.card_swap(pl(0,4,1,0), pl(0,1,299)); CHECK(&f.card(pl(0,1,299)) == m); CHECK(&f.card(pl(0,4,1,0)) == l); return 0; }''',
         needs='a swap of a material and a card beyond the 256th of a pile', breaks='another card of the pile is swapped'),
    dict(id='C29-b', prop='C29', edits=[(BIT, '''[[nodiscard]] constexpr auto choosel(unsigned count, T x) noexcept -> T
{
	static_assert(std::is_unsigned_v<T>);
	T chosen = 0U;
''', '''[[nodiscard]] constexpr auto choosel(unsigned count, T x) noexcept -> T
{
	static_assert(std::is_unsigned_v<T>);
	T chosen = count < 32U ? T{} : x;
''')],
         demo=r'''#include <ygopen/bit.hpp>
#include <cstdint>
#include <cstdio>
int main() { if(YGOpen::Bit::choosel<uint64_t>(40U, ~uint64_t{}) != ~uint64_t{} << 24U) { std::puts("choosel"); return 1; } return 0; }
''',
         needs='a 64-bit value of which more than 31 bits, but not all, are wanted', breaks='all bits are chosen'),
    dict(id='C09-b', prop='C09', edits=[(UN, '''			values_.emplace_back(std::forward<U>(v));
		current_++;
''', '''			values_.emplace_back(std::forward<U>(v));
		current_++;
		if(values_.size() > 64U)
			values_.erase(values_.cbegin());
'''), (UN, '''		if(current_ == --values_.cend())
			values_.emplace_back(std::forward''', '''		auto const last = --values_.cend();
		if(current_ == last)
			values_.emplace_back(std::forward''')],
         demo=r'''#include <cassert>
#include <utility>
#include <cstdio>
#include <ygopen/client/undoable.hpp>
int main() { YGOpen::Client::BasicUndoable<int> v{}; for(int i = 1; i <= 100; i++) v = i; for(int i = 0; i < 99; i++) { if(!(v == 100 - i)) { std::puts("another value"); return 1; } v.undo(); } return 0; }
''', needs='more than 63 assignments that are all undone', breaks='the oldest values are forgotten'),
]
