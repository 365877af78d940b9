// Random events: any events, and events that fit the field they are applied to.
#pragma once
#include "nframe.hpp"
#include <ygopen/proto/duel/msg.hpp>
using YGOpen::Proto::Duel::Chain;
using YGOpen::Proto::Duel::Place;
using Event = YGOpen::Proto::Duel::Msg::Event;
inline std::string S(Place const& p) { return ref::str(p); }
struct Make
{
	nat::Rng& g;
	unsigned rnd(unsigned n) { return unsigned(g() % n); }
	int n() { return int(rnd(3) ? rnd(5) : rnd(40)); }
	Place place() { return ref::place(rnd(2), 1u << rnd(11), rnd(60), rnd(3) ? -1 : int(rnd(5))); }
	void place(Place* p) { *p = place(); }
	uint32_t u32() { return rnd(3) ? rnd(9000) : uint32_t(g()); }
	void chain(Chain* c)
	{
		place(c->mutable_place());
		place(c->mutable_card_place());
		c->mutable_effect()->set_code(u32());
	}
	void places(Event::ZoneBlock* m) { for(int i = n(); i--;) place(m->add_zones()); }
	template<typename T> void places(T* m) { for(int i = n(); i--;) place(m->add_places()); }
	template<typename T> void resizes(T* m) { for(int i = n(); i--;) { auto* o = m->add_ops(); place(o->mutable_place()); o->set_count(u32()); } }
	template<typename T> void pairs(T* m) { for(int i = n(); i--;) { auto* o = m->add_ops(); place(o->mutable_place_a()); place(o->mutable_place_b()); } }
	void lp(Event& e)
	{
		auto* l = e.mutable_lp();
		l->set_controller(int(rnd(2)));
		switch(rnd(5)) { case 0: l->set_become(u32()); break; case 1: l->set_damage(u32()); break; case 2: l->set_pay(u32()); break; case 3: l->set_recover(u32()); break; default: break; }
	}
	void event(Event& e)
	{
		switch(rnd(14))
		{
		case 0:
		{
			auto* x = e.mutable_board()->mutable_exchange();
			if(rnd(4)) places(x->mutable_remove());
			if(rnd(4)) places(x->mutable_add());
			if(rnd(4)) resizes(x->mutable_resize());
			break;
		}
		case 1:
		{
			auto* x = e.mutable_board()->mutable_state();
			x->set_turn_counter(rnd(3) ? int(rnd(9)) - 4 : int(u32()));
			x->add_lps(u32());
			x->add_lps(u32());
			for(int i = n(); i--;) chain(x->add_chains());
			if(rnd(4)) places(x->mutable_add());
			if(rnd(4)) resizes(x->mutable_resize());
			break;
		}
		case 2: places(e.mutable_card()->mutable_add()); break;
		case 3: pairs(e.mutable_card()->mutable_exchange()); break;
		case 4: for(int i = n(); i--;) { auto* o = e.mutable_card()->mutable_move()->add_ops(); place(o->mutable_old_place()); place(o->mutable_new_place()); } break;
		case 5: places(e.mutable_card()->mutable_remove()); break;
		case 6: { auto* s = e.mutable_card()->mutable_shuffle(); for(int i = 1 + int(rnd(6)); i--;) { place(s->add_previous_places()); place(s->add_current_places()); } break; }
		case 7: if(rnd(2)) chain(e.mutable_chain_stack()->mutable_push()); else e.mutable_chain_stack()->set_pop(rnd(2)); break;
		case 8: e.set_next_turn(int(rnd(2))); break;
		case 9: lp(e); break;
		case 10: e.set_next_phase(1u << rnd(10)); break;
		case 11:
			switch(rnd(3))
			{
			case 0: pairs(e.mutable_pile()->mutable_exchange()); break;
			case 1: resizes(e.mutable_pile()->mutable_resize()); break;
			default: for(int i = n(); i--;) { auto* o = e.mutable_pile()->mutable_splice()->add_ops(); place(o->mutable_from()); place(o->mutable_to()); o->set_count(u32()); o->set_reverse(rnd(2)); }
			}
			break;
		case 12: places(e.mutable_zone_block()); break;
		default:
			switch(rnd(7))
			{
			case 0: e.mutable_finish()->set_winner(1); break;
			case 1: e.mutable_meta()->mutable_confirm(); break;
			case 2: e.mutable_result()->mutable_coin(); break;
			case 3: e.mutable_card()->set_reason(4); break;
			case 4: e.mutable_board(); break;
			case 5: e.mutable_pile(); break;
			default: break;
			}
		}
	}
};
// events that fit the field, on the frame that keeps history
struct Fit
{
	Make m;
	ref::Gen g;
	ref::Field t;
	uintptr_t fake = 16;
	ref::Card const* fresh() { fake += 16; return reinterpret_cast<ref::Card const*>(fake); }
	template<typename T> void adds(T* l) { for(int i = m.n(); i--;) { ref::P p; if(!g.hole(t, p)) continue; t.insert(p, fresh()); *l->add_places() = p; } }
	template<typename T> void removes(T* l) { for(int i = m.n(); i--;) { ref::P p; if(!g.held(t, p)) continue; t.erase(p); *l->add_places() = p; } }
	template<typename T> void resizes(T* l)
	{
		for(int i = m.n() % 6; i--;)
		{
			auto p = g.pile();
			auto* o = l->add_ops();
			unsigned n = g.rnd(9);
			*o->mutable_place() = p;
			o->set_count(n);
			auto& v = t.pile(p);
			while(v.size() > n) v.pop_back();
			while(v.size() < n) v.push_back(fresh());
		}
	}
	bool move(ref::P& a, ref::P& b)
	{
		if(!g.held(t, a)) return false;
		auto u = t;
		auto* c = u.erase(a);
		if(!g.hole(u, b)) return false;
		if(!t.is_pile(a) && a.oseq() < 0 && !t.is_pile(b) && b.oseq() < 0)
		{
			if(!u.zone(b).mats.empty() || &u.zone(a) == &u.zone(b)) return false;
			std::swap(u.zone(a).mats, u.zone(b).mats);
		}
		u.insert(b, c);
		auto w = u;
		w.erase(b);
		if(!w.can_insert(a)) return false;
		t = u;
		return true;
	}
	bool plain(ref::P const& p) { return t.is_pile(p) || (p.oseq() < 0 && t.zone(p).mats.empty()); }
	bool event(Event& e)
	{
		switch(m.rnd(13))
		{
		case 0: case 1: adds(e.mutable_card()->mutable_add()); return true;
		case 2: removes(e.mutable_card()->mutable_remove()); return true;
		case 3: for(int i = m.n(); i--;) { ref::P a, b; if(!move(a, b)) continue; auto* o = e.mutable_card()->mutable_move()->add_ops(); *o->mutable_old_place() = a; *o->mutable_new_place() = b; } return true;
		case 4: for(int i = m.n(); i--;) { ref::P a, b; if(!g.held(t, a) || !g.held(t, b) || S(a) == S(b) || !plain(a) || !plain(b)) continue; std::swap(t.at(a), t.at(b)); auto* o = e.mutable_card()->mutable_exchange()->add_ops(); *o->mutable_place_a() = a; *o->mutable_place_b() = b; } return true;
		case 5:
			for(int i = m.n(); i--;)
			{
				auto a = g.pile(), b = g.pile();
				auto& v = t.pile(a);
				unsigned s = g.rnd(unsigned(v.size()) + 1), n = g.rnd(unsigned(v.size()) - s + 1);
				ref::Pile c(v.begin() + s, v.begin() + s + n);
				v.erase(v.begin() + s, v.begin() + s + n);
				auto& w = t.pile(b);
				unsigned d = g.rnd(unsigned(w.size()) + 1);
				bool r = g.rnd(2);
				if(r) std::reverse(c.begin(), c.end());
				w.insert(w.begin() + d, c.begin(), c.end());
				a.set_seq(s);
				b.set_seq(d);
				auto* o = e.mutable_pile()->mutable_splice()->add_ops();
				*o->mutable_from() = a;
				*o->mutable_to() = b;
				o->set_count(n);
				o->set_reverse(r);
			}
			return true;
		case 6: for(int i = m.n(); i--;) { auto a = g.pile(), b = g.pile(); if(S(a) == S(b)) continue; std::swap(t.pile(a), t.pile(b)); auto* o = e.mutable_pile()->mutable_exchange()->add_ops(); *o->mutable_place_a() = a; *o->mutable_place_b() = b; } return true;
		case 7:
		{
			auto* x = e.mutable_board()->mutable_exchange();
			resizes(x->mutable_resize());
			removes(x->mutable_remove());
			adds(x->mutable_add());
			return true;
		}
		case 8:
		{
			if(m.rnd(3)) return false;
			auto* x = e.mutable_board()->mutable_state();
			x->set_turn_counter(int(m.rnd(9)) - 4);
			x->add_lps(m.u32());
			x->add_lps(m.u32());
			for(int i = m.n(); i--;) m.chain(x->add_chains());
			t.clear();
			adds(x->mutable_add());
			resizes(x->mutable_resize());
			return true;
		}
		case 9: resizes(e.mutable_pile()->mutable_resize()); return true;
		case 10: m.lp(e); return true;
		case 11: if(m.rnd(2)) e.set_next_turn(int(m.rnd(2))); else e.set_next_phase(1u << m.rnd(10)); return true;
		default: m.places(e.mutable_zone_block()); return true;
		}
	}
};
