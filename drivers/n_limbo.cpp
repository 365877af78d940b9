// Random histories of operations, undos and redos of the real history-keeping frame, against snapshots.
#include "nframe.hpp"
#include <ygopen/client/frame_limbo.hpp>
using namespace ref;
using namespace YGOpen::Duel;
using F = YGOpen::Client::LimboFrame<Card>;
static std::vector<std::string> hist;
static std::string ctx() { std::string s = "operations:"; for(auto& x : hist) s += "\n  " + x; return s; }
enum Kind { ADD, REMOVE, RESIZE, CLEAR, MOVE };
struct Op
{
	Kind k;
	P a, b;
	size_t n;
	Card const* c;
	Field before, after;
	std::string str() const
	{
		switch(k)
		{
		case ADD: return "card_add" + ref::str(a);
		case REMOVE: return "card_remove" + ref::str(a);
		case RESIZE: return "pile_resize" + ref::str(a) + " " + std::to_string(n);
		case CLEAR: return "clear";
		default: return "card_move" + ref::str(a) + ref::str(b);
		}
	}
};
struct Run
{
	Gen g;
	F f{};
	Field m;
	std::vector<Op> ops;
	size_t pos = 0;
	bool dead = false;
	Card const* perform(Op const& o)
	{
		switch(o.k)
		{
		case ADD: return &f.card_add(o.a);
		case REMOVE: f.card_remove(o.a); return nullptr;
		case RESIZE: f.pile_resize(o.a, o.n); return nullptr;
		case CLEAR: f.clear(); return nullptr;
		default: return &f.card_move(o.a, o.b);
		}
	}
	void begin(std::string s)
	{
		nat::own = true;
		nat::doing = s;
		hist.push_back(s);
		Card::dead.clear();
		Card::built = 0;
	}
	void same(Field const& want, bool own, char const* what)
	{
		auto got = Field::read(f);
		if(!(got == want))
		{
			if(own) nat::expect(false, [&] { return std::string(what) + ": the field differs: " + got.diff(want); });
			dead = true;
		}
		if(own)
			for(auto* c : got.all()) nat::expect(Card::live.count(c) == 1, [&] { return std::string(what) + ": a card on the field is not alive"; });
		m = want;
		nat::own = false;
	}
	void live()
	{
		Op o;
		o.before = m;
		switch(g.rnd(14))
		{
		case 0: case 1: case 2: case 3: o.k = ADD; if(!g.hole(m, o.a)) return; break;
		case 4: case 5: case 6: o.k = REMOVE; if(!g.held(m, o.a)) return; break;
		case 7: case 8: case 9: o.k = RESIZE; o.a = g.pile(); o.n = g.rnd(3) ? g.rnd(9) : g.rnd(m.pile(o.a).size() + 1);
			if(!g.big.empty() && g.rnd(2)) { o.a = g.big[g.rnd(g.big.size())]; o.a.set_seq(0); o.n = 200 + g.rnd(200); }
			break;
		case 10: if(g.rnd(3)) return; o.k = CLEAR; break;
		default:
		{
			o.k = MOVE;
			if(!g.held(m, o.a)) return;
			auto t = m;
			auto* c = t.erase(o.a);
			if(!g.hole(t, o.b)) return;
			if(!m.is_pile(o.a) && o.a.oseq() < 0 && !m.is_pile(o.b) && o.b.oseq() < 0)
			{
				if(!t.zone(o.b).mats.empty() || &t.zone(o.a) == &t.zone(o.b)) return;
				std::swap(t.zone(o.a).mats, t.zone(o.b).mats);
			}
			t.insert(o.b, c);
			// undone by the opposite move; both places must mean the same afterwards
			o.after = t;
			auto u = t;
			u.erase(o.b);
			if(!u.can_insert(o.a)) return;
		}
		}
		begin(o.str());
		if(o.k == MOVE) nat::own = false;
		auto* c = perform(o);
		o.c = c;
		if(o.k != MOVE)
		{
			nat::expect(Card::dead.empty(), [] { return "an operation that can be undone destroys a card"; });
			long built = 0;
			auto t = m;
			if(o.k == ADD) { built = 1; t.insert(o.a, c); }
			if(o.k == REMOVE) t.erase(o.a);
			if(o.k == CLEAR) t.clear();
			if(o.k == RESIZE)
			{
				auto& v = t.pile(o.a);
				auto& w = f.pile(o.a);
				nat::expect(w.size() == o.n, [] { return "pile_resize: wrong size"; });
				if(v.size() > o.n) v.resize(o.n);
				else { built = o.n - v.size(); for(size_t i = v.size(); i < o.n; i++) { nat::expect(m.all().count(w[i]) == 0, [] { return "pile_resize reuses a card on the field"; }); v.push_back(w[i]); } }
			}
			nat::expect(Card::built == built, [&] { return "built " + std::to_string(Card::built) + " cards instead of " + std::to_string(built); });
			same(t, true, "operation");
			o.after = t;
		}
		else same(o.after, false, "move");
		ops.resize(pos);
		ops.push_back(o);
		pos++;
	}
	void undo()
	{
		auto& o = ops[--pos];
		begin("undo " + o.str());
		switch(o.k)
		{
		case ADD: { auto* c = &f.undo_card_add(o.a); nat::expect(c == o.c, [] { return "undo_card_add returns another card"; }); break; }
		case REMOVE: { auto* c = &f.undo_card_remove(o.a); nat::expect(c == o.before.at(o.a), [] { return "undo_card_remove returns another card"; }); break; }
		case RESIZE: f.undo_pile_resize(o.a, o.n); break;
		case CLEAR: f.undo_clear(); break;
		default: nat::own = false; f.card_move(o.b, o.a);
		}
		finish(o, o.before, "undo");
	}
	void redo()
	{
		auto& o = ops[pos++];
		begin("redo " + o.str());
		if(o.k == MOVE) nat::own = false;
		auto* c = perform(o);
		if(o.k == ADD) nat::expect(c == o.c, [] { return "redone card_add returns another card"; });
		finish(o, o.after, "redo");
	}
	void finish(Op const& o, Field const& want, char const* what)
	{
		if(o.k != MOVE)
			nat::expect(Card::dead.empty() && Card::built == 0, [&] { return std::string(what) + " builds or destroys cards"; });
		same(want, o.k != MOVE, what);
	}
	void go()
	{
		int n = 5 + g.rnd(120);
		if(g.rnd(12) == 0) g.big.push_back(g.pile());
		else if(g.rnd(12) == 0) n = 1500; // long histories
		for(int i = 0; i < n && !dead; i++)
		{
			if(pos > 0 && g.rnd(n > 200 ? 200 : 6) == 0)
				for(int j = g.rnd(pos + 1); j > 0 && !dead; j--) undo();
			else if(pos < ops.size())
			{
				if(g.rnd(n > 200 ? 400 : 10) == 0) // a new future, not recorded as history by the frame before this point
				{
					begin("erase_history");
					f.erase_history();
					// moves are not operations of the frame's own history
					same(m, true, "erase_history");
					ops.resize(pos);
				}
				else redo();
			}
			else live();
		}
		while(pos > 0 && !dead) undo();
		while(pos < ops.size() && !dead) redo();
		nat::own = false;
	}
};
static void all(nat::Rng& g)
{
	hist.clear();
	Card::live.clear();
	Card::dead.clear();
	Run r{{g}};
	r.go();
	nat::own = false;
}
int main(int c, char** v)
{
	nat::context = ctx;
	return nat::main_(c, v, all);
}
