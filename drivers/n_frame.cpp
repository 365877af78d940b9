// Random histories of the real frame against the reference model.
#include "nframe.hpp"
#include <ygopen/client/frame.hpp>
#include <google/protobuf/repeated_field.h>
using namespace ref;
using namespace YGOpen::Duel;
using F = YGOpen::Client::BasicFrame<Card>;
static std::vector<std::string> hist;
static std::string ctx() { std::string s = "operations:"; for(auto& x : hist) s += "\n  " + x; return s; }
static bool about(char const* p) { return nat::prop.empty() || nat::prop == p; }
struct Run
{
	Gen g;
	F f{};
	Field m;
	bool dead = false;
	void begin(char const* prop, std::string s)
	{
		nat::own = about(prop) || about("C07");
		nat::doing = s;
		hist.push_back(s);
		Card::dead.clear();
		Card::built = 0;
	}
	// compare after an operation of the given property that should have built and destroyed these
	void end(char const* prop, long built, std::set<Card const*> const& gone, bool ok = true, char const* why = "")
	{
		auto got = Field::read(f);
		bool same = got == m;
		std::set<Card const*> d(Card::dead.begin(), Card::dead.end());
		bool life = Card::built == built && d == gone && d.size() == Card::dead.size();
		if(about(prop))
		{
			nat::expect(ok, [&] { return std::string(why); });
			nat::expect(same, [&] { return "the field differs: " + got.diff(m); });
		}
		if(about(prop) || about("C07"))
			nat::expect(life, [&] { return "built " + std::to_string(Card::built) + " instead of " + std::to_string(built) + ", destroyed " + std::to_string(d.size()) + " instead of " + std::to_string(gone.size()) + " (or others)"; });
		if(about("C07"))
			for(auto* c : got.all()) nat::expect(Card::live.count(c) == 1, [] { return "a card on the field is not alive (destroyed or moved in memory)"; });
		if(about("C07") && same)
			nat::expect(Card::live == m.all(), [] { return "cards alive are not those on the field"; });
		nat::own = false;
		if(!same || !life || !ok) dead = true;
	}
	void addresses()
	{
		nat::own = about("C01");
		nat::doing = "the accessors";
		std::map<void const*, std::string> seen;
		auto reg = [&](void const* p, std::string const& s)
		{
			if(about("C01")) nat::expect(seen.emplace(p, s).second, [&] { return s + " and " + seen[p] + " are the same storage"; });
		};
		F const& cf = f;
		for(auto& x : m.piles)
		{
			auto p = place(x.first.first, x.first.second, g.rnd(9), g.rnd(2) ? -1 : 3);
			auto c = Controller(x.first.first); auto l = Location(x.first.second);
			bool ok = &f.pile(c, l) == &cf.pile(c, l) && &f.pile(p) == &f.pile(c, l) && &cf.pile(p) == &f.pile(c, l);
			if(about("C01")) nat::expect(ok, [&] { return "views of pile " + str(p) + " differ"; });
			reg(&f.pile(c, l), str(p));
		}
		for(auto& x : m.zones)
		{
			auto p = place(std::get<0>(x.first), std::get<1>(x.first), std::get<2>(x.first), g.rnd(2) ? -1 : 3);
			auto c = Controller(std::get<0>(x.first)); auto l = Location(std::get<1>(x.first)); unsigned s = std::get<2>(x.first);
			bool ok = &f.zone(c, l, s) == &cf.zone(c, l, s) && &f.zone(p) == &f.zone(c, l, s) && &cf.zone(p) == &f.zone(c, l, s);
			if(about("C01")) nat::expect(ok, [&] { return "views of zone " + str(p) + " differ"; });
			reg(&f.zone(c, l, s), str(p));
		}
	}
	void look()
	{
		nat::own = about("C01");
		nat::doing = "has_card and card";
		P p;
		g.rnd(2) ? g.held(m, p) : g.hole(m, p);
		bool h = m.has(p);
		if(g.rnd(8) == 0) { if(m.is_pile(p)) p.set_seq(0xFFFFFFFFu - g.rnd(3)); else if(p.oseq() >= 0) p.set_oseq(0x7FFFFFFF - g.rnd(3)); else p.set_oseq(-5); h = m.has(p); }
		auto before = Field::read(f);
		bool r = f.has_card(p);
		if(about("C01"))
		{
			nat::expect(r == h, [&] { return "has_card" + str(p) + " is " + std::to_string(r); });
			if(h)
			{
				nat::expect(&f.card(p) == m.at(p) && &static_cast<F const&>(f).card(p) == m.at(p), [&] { return "card" + str(p) + " is not the card there"; });
			}
			nat::expect(Field::read(f) == before, [] { return "looking changes the field"; });
		}
		nat::own = false;
	}
	void add()
	{
		P p;
		if(!g.hole(m, p)) return;
		begin("C02", "card_add" + str(p));
		auto* c = &f.card_add(p);
		bool fresh = m.all().count(c) == 0;
		m.insert(p, c);
		end("C02", 1, {}, fresh, "card_add returns a card that was there before");
	}
	// some stacks get hundreds of cards
	void bulk()
	{
		int n = 1 + g.rnd(3);
		for(int i = 0; i < n; i++) g.big.push_back(g.rnd(2) ? g.pile() : [&] { P p = g.zone(); p.set_oseq(0); return p; }());
		begin("C02", "card_add of hundreds at " + str(g.big[0]) + " ...");
		Card::built = 0;
		long built = 0;
		for(auto p : g.big)
			for(int k = 200 + g.rnd(200); k > 0; k--, built++)
			{
				size_t i;
				auto at = g.high(m.stack(p, i)->size() + 1);
				if(m.is_pile(p)) p.set_seq(at); else p.set_oseq(at);
				m.insert(p, &f.card_add(p));
			}
		end("C02", built, {});
	}
	void remove()
	{
		P p;
		if(!g.held(m, p)) return;
		begin("C02", "card_remove" + str(p));
		f.card_remove(p);
		auto* c = m.erase(p);
		end("C02", 0, {c});
	}
	void move()
	{
		P a, b;
		if(!g.held(m, a)) return;
		bool za = !m.is_pile(a) && a.oseq() < 0;
		auto t = m;
		auto* c = t.erase(a);
		if(!g.hole(t, b)) return;
		bool zb = !m.is_pile(b) && b.oseq() < 0;
		if(za && zb)
		{
			if(!t.zone(b).mats.empty() || &t.zone(a) == &t.zone(b)) return;
			std::swap(t.zone(a).mats, t.zone(b).mats);
		}
		t.insert(b, c);
		begin("C03", "card_move" + str(a) + str(b));
		auto* r = &f.card_move(a, b);
		m = t;
		end("C03", 0, {}, r == c, "card_move returns another card");
	}
	void swap()
	{
		P a, b;
		if(!g.held(m, a) || !g.held(m, b)) return;
		bool za = !m.is_pile(a) && a.oseq() < 0, zb = !m.is_pile(b) && b.oseq() < 0;
		if(za && m.is_pile(b) && !m.zone(a).mats.empty()) return;
		if(zb && m.is_pile(a) && !m.zone(b).mats.empty()) return;
		begin("C04", "card_swap" + str(a) + str(b));
		f.card_swap(a, b);
		std::swap(m.at(a), m.at(b));
		if(za && zb && &m.zone(a) != &m.zone(b)) std::swap(m.zone(a).mats, m.zone(b).mats);
		end("C04", 0, {});
	}
	void shuffle()
	{
		P r = g.row();
		unsigned lim = r.loc() == 4 ? 7 : 5;
		std::vector<unsigned> occ;
		for(unsigned s = 0; s < lim; s++)
		{
			r.set_seq(s);
			if(m.zone(r).card) occ.push_back(s);
		}
		if(occ.empty()) return;
		std::shuffle(occ.begin(), occ.end(), g.g);
		occ.resize(1 + g.rnd(occ.size()));
		auto cur = occ;
		std::shuffle(cur.begin(), cur.end(), g.g);
		unsigned empties = g.rnd(3);
		google::protobuf::RepeatedPtrField<P> a, b;
		std::vector<bool> has;
		std::string s = "card_shuffle";
		for(size_t i = 0; i < occ.size(); i++)
		{
			r.set_seq(occ[i]);
			*a.Add() = r;
			s += " " + str(r);
			has.push_back(!(empties == 1 && g.rnd(3) == 0) && !(empties == 2));
			if(empties == 2) has[i] = g.rnd(2);
			P c = r;
			c.set_seq(cur[i]);
			if(has[i]) *b.Add() = c; else b.Add();
			s += has[i] ? "->" + str(c) : "->?";
		}
		begin("C05", s);
		f.card_shuffle(a.cbegin(), b.cbegin(), a.size());
		// listed zones permuted, targets as told, the rest unchanged
		auto got = Field::read(f);
		bool ok = true;
		auto t = m;
		std::vector<std::pair<Card const*, Pile>> x, y;
		for(size_t i = 0; i < occ.size(); i++)
		{
			P p = r, c = r;
			p.set_seq(occ[i]);
			c.set_seq(cur[i]);
			if(has[i] && (got.zone(c).card != m.zone(p).card || got.zone(c).mats != m.zone(p).mats)) ok = false;
			x.emplace_back(m.zone(p).card, m.zone(p).mats);
			y.emplace_back(got.zone(p).card, got.zone(p).mats);
			t.zone(p) = got.zone(p);
		}
		std::sort(x.begin(), x.end());
		std::sort(y.begin(), y.end());
		if(x != y) ok = false;
		m = t;
		end("C05", 0, {}, ok, "zones are not where the shuffle says");
	}
	void resize()
	{
		P p = g.pile();
		auto& v = m.pile(p);
		size_t n = g.rnd(2) ? g.rnd(12) : !g.big.empty() && g.rnd(2) ? 200 + g.rnd(300) : (v.empty() ? 0 : g.rnd(v.size() + 1));
		begin("C06", "pile_resize" + str(p) + " " + std::to_string(n));
		f.pile_resize(p, n);
		auto& w = f.pile(p);
		std::set<Card const*> gone;
		long built = 0;
		bool ok = w.size() == n;
		if(n < v.size()) { gone.insert(v.begin() + n, v.end()); v.resize(n); }
		else if(ok)
		{
			built = n - v.size();
			auto old = m.all();
			for(size_t i = v.size(); i < n; i++)
			{
				ok = ok && old.insert(w[i]).second;
				v.push_back(w[i]);
			}
		}
		end("C06", built, gone, ok, "wrong size or new cards");
	}
	void splice()
	{
		P a = g.pile(), b = g.rnd(3) ? g.pile() : a;
		auto& v = m.pile(a);
		size_t n = g.rnd(v.size() + 1), i = g.rnd(v.size() - n + 1);
		bool rev = g.rnd(2);
		Pile q(v.begin() + i, v.begin() + i + n);
		v.erase(v.begin() + i, v.begin() + i + n);
		if(rev) std::reverse(q.begin(), q.end());
		auto& w = m.pile(b);
		size_t j = g.rnd(w.size() + 1);
		w.insert(w.begin() + j, q.begin(), q.end());
		a.set_seq(i);
		b.set_seq(j);
		begin("C06", "pile_splice" + str(a) + str(b) + " " + std::to_string(n) + (rev ? " reversed" : ""));
		f.pile_splice(a, n, b, rev);
		end("C06", 0, {});
	}
	void pswap()
	{
		P a = g.pile(), b = g.rnd(8) ? g.pile() : a;
		begin("C06", "pile_swap" + str(a) + str(b));
		f.pile_swap(a, b);
		if(&m.pile(a) != &m.pile(b)) std::swap(m.pile(a), m.pile(b));
		end("C06", 0, {});
	}
	void clear()
	{
		begin("C07", "clear");
		f.clear();
		auto gone = m.all();
		m.clear();
		end("C07", 0, gone);
	}
	void go()
	{
		addresses();
		if(g.rnd(8) == 0) bulk();
		int n = 5 + g.rnd(120), fill = g.rnd(80);
		for(int i = 0; i < n && !dead; i++)
		{
			if(i < fill && g.rnd(4)) { add(); continue; }
			switch(g.rnd(12))
			{
			case 0: case 1: add(); break;
			case 2: remove(); break;
			case 3: case 4: move(); break;
			case 5: swap(); break;
			case 6: case 7: shuffle(); break;
			case 8: resize(); break;
			case 9: splice(); break;
			case 10: pswap(); break;
			default: if(g.rnd(6) == 0) clear(); else look(); break;
			}
			if(!dead) look();
		}
		nat::own = false;
	}
};
static void all(nat::Rng& g)
{
	hist.clear();
	Card::live.clear();
	Card::dead.clear();
	bool dead;
	{
		Run r{{g}};
		r.go();
		dead = r.dead;
		nat::own = about("C07");
		nat::doing = "the destructor of the frame";
		Card::dead.clear();
	}
	if(about("C07") && !dead) nat::expect(Card::live.empty(), [] { return "cards outlive the frame"; });
	nat::own = false;
}
int main(int c, char** v)
{
	nat::context = ctx;
	return nat::main_(c, v, all);
}
