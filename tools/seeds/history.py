PRE = r'''
#include <cassert>
#include <ygopen/client/frame_limbo.hpp>
#include <cstdio>
using P = YGOpen::Proto::Duel::Place;
using namespace YGOpen::Duel;
static P pl(unsigned c, unsigned l, unsigned s, int o = -1) { P p; p.set_con(c); p.set_loc(l); p.set_seq(s); p.set_oseq(o); return p; }
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
struct Card { Card() {} Card(Card&&) {} };
using F = YGOpen::Client::LimboFrame<Card>;
'''
LI = 'include/ygopen/client/frame_limbo.hpp'
UN = 'include/ygopen/client/undoable.hpp'
SPECS = [
    dict(id='C08-a', prop='C08', edits=[(LI, "			size_t diff = p.size() - rsz_op.prev_size;\n			rsz_op.slice.resize(diff);\n", "			size_t diff = p.size() - rsz_op.prev_size;\n			if(!rsz_op.slice.empty())\n				diff = rsz_op.slice.size();\n			rsz_op.slice.resize(diff);\n"),
                                        (LI, "				p.insert(p.end(), rsz_op.slice.cbegin(), rsz_op.slice.cend());\n			}\n		}\n		else if(p.size() > count)", "				p.insert(p.end(), rsz_op.slice.crbegin(), rsz_op.slice.crend());\n			}\n		}\n		else if(p.size() > count)")],
         demo=PRE + r'''int main() { F f; f.card_add(pl(0,1,0)); f.pile_resize(pl(0,1,0), 3); Card* a = &f.card(pl(0,1,1)); Card* b = &f.card(pl(0,1,2));
	f.undo_pile_resize(pl(0,1,0), 3); f.pile_resize(pl(0,1,0), 3); CHECK(&f.card(pl(0,1,1)) == a); CHECK(&f.card(pl(0,1,2)) == b); return 0; }''',
         needs='a growing pile resize that is undone and redone', breaks='the cards created by the resize come back in reverse order'),
    dict(id='C08-b', prop='C08', edits=[(LI, "		swap_multi_pile(LOCATION_BANISHED, clear_op.banished);\n", "		if(processed_op_ == op_ || clear_op.banished[0].empty())\n			swap_multi_pile(LOCATION_BANISHED, clear_op.banished);\n")],
         demo=PRE + r'''int main() { F f; auto* a = &f.card_add(pl(0,0x20,0)); f.clear(); auto* b = &f.card_add(pl(1,1,0)); f.undo_card_add(pl(1,1,0)); f.undo_clear(); CHECK(f.pile(pl(0,0x20,0)).size() == 1); CHECK(&f.card(pl(0,0x20,0)) == a); return a == b; }''',
         needs='undoing a clear that is not the latest operation while player 0 has banished cards', breaks='banished cards do not come back when a clear is undone'),
    dict(id='C09-a', prop='C09', edits=[(UN, "		if(current_ == --values_.cend())\n			values_.emplace_back(std::forward<U>(v));\n		current_++;", "		if(current_ == --values_.cend())\n			values_.emplace_back(std::forward<U>(v));\n		else if(*current_ == v)\n			return *this;\n		current_++;")],
         demo=r'''#include <cassert>
#include <utility>
#include <cstdio>
#include <ygopen/client/undoable.hpp>
int main() { YGOpen::Client::BasicUndoable<int> v{}; v = 1; v = 1; v = 2; v.undo(); v.undo(); v = 1; v = 2; if(!(v == 2)) { std::puts("not at the last value"); return 1; } return 0; }
''', needs='two equal values in a row, replayed after undos', breaks='replaying an assignment of an unchanged value does not step forward'),
]
