PRE = r'''
#include <algorithm>
#include <cstdio>
#include <functional>
#include <utility>
#include <variant>
#include <random>
#include <string_view>
#include <vector>
#include <ygopen/server/room.hpp>
using Ev = YGOpen::Server::RoomEvent;
using Sig = YGOpen::Server::RoomSignal;
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
struct Client
{
	std::vector<Ev> got;
	auto send(Ev const& e) noexcept -> void { got.push_back(e); }
	auto fill_user(YGOpen::Proto::User& u) const noexcept -> void { u.set_name("x"); }
};
struct Validator
{
	mutable bool ok = true;
	auto check(std::string_view, YGOpen::Proto::Deck const&, YGOpen::Proto::DeckError&) const noexcept -> bool { return ok; }
};
struct Factory { auto make_duel() const noexcept -> void {} };
struct RNG
{
	using result_type = uint32_t;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return 0xFFFFFFFFu; }
	std::vector<uint32_t> v;
	size_t i = 0;
	auto operator()() noexcept -> result_type { return i < v.size() ? v[i++] : (uint32_t)(i++); }
};
struct Traits
{
	using ClientType = Client;
	using DeckValidatorType = Validator;
	using CoreDuelFactoryType = Factory;
	using RNGType = RNG;
};
using R = YGOpen::Server::BasicRoom<Traits>;
static YGOpen::Proto::Room::Options opt(unsigned a, unsigned b)
{
	YGOpen::Proto::Room::Options o;
	o.add_max_duelists(a);
	o.add_max_duelists(b);
	return o;
}
[[maybe_unused]] static Sig deck() { Sig s; s.mutable_configuring()->mutable_update_deck(); return s; }
[[maybe_unused]] static Sig ready(bool b) { Sig s; s.mutable_configuring()->set_ready_status(b); return s; }
[[maybe_unused]] static Sig start() { Sig s; s.mutable_configuring()->set_start_dueling(true); return s; }
static Validator dv;
static Factory df;
'''
H = 'include/ygopen/server/room.hpp'
SPECS = [
    dict(id='C25-a', prop='C25', edits=[(H, '''					if(++search.pos == max_duelists[search.team])
						break;
				}
				search.team++;
				search.pos = 0;
			}
			if(first_empty_pos[0]''', '''					if(++search.pos == max_duelists[0])
						break;
				}
				search.team++;
				search.pos = 0;
			}
			if(first_empty_pos[0]''')],
         demo=PRE + r'''
int main()
{
	Client h, a, b, c;
	R r(dv, df, RNG{}, h, opt(1, 3));
	r.enter(a); r.enter(b); r.enter(c);
	for(auto* x : {&a, &b, &c})
	{
		CHECK(x->got.size() >= 2 && x->got[1].has_configuring());
		CHECK(x->got[1].configuring().duelist_enters().team() == 1);
	}
}
''', needs='a room whose second team is larger than the first, entered by more clients than the first team has places', breaks='later clients become spectators although the second team has free seats'),
    dict(id='C25-b', prop='C25', edits=[(H, 'v = std::clamp<uint32_t>(v, 1, std::tuple_size_v<Team>);', 'v = std::clamp<int32_t>(v, 1, std::tuple_size_v<Team>);')],
         demo=PRE + r'''
int main()
{
	Client h;
	R r(dv, df, RNG{}, h, opt(0xFFFFFFFFu, 0x80000000u));
	auto const& m = h.got[0].configuring().entering_state().options().max_duelists();
	CHECK(m.size() == 2 && m[0] == 3 && m[1] == 3);
}
''', needs='options that ask for 2^31 or more duelists', breaks='such a team gets one place, not the largest supported size'),
    dict(id='C26-a', prop='C26', edits=[(H, '''				search.slot->deck = {};
				search.slot->deck_valid = false;''', '''				search.slot->deck = {};
				search.slot->deck_valid = search.slot->ready;''')],
         demo=PRE + r'''
int main()
{
	Client h, a;
	R r(dv, df, RNG{}, h, opt(1, 1));
	r.enter(a);
	for(auto* x : {&h, &a}) { r.visit(*x, deck()); r.visit(*x, ready(true)); }
	dv.ok = false;
	r.visit(a, deck());
	auto n = a.got.size();
	r.visit(h, start());
	CHECK(a.got.size() == n);
}
''', needs='a duelist who is ready submits a deck that is rejected, then the host starts', breaks='the room starts though the last deck of a duelist was rejected'),
    dict(id='C26-b', prop='C26', edits=[(H, '''					bool has_atleast_one_duelist = false;
''', ''''''), (H, '''				for(auto const& t : teams_)
				{
					for(auto& s : t)
					{
						if(s.client != nullptr)
						{
							has_at''', '''				bool has_atleast_one_duelist = false;
				for(auto const& t : teams_)
				{
					for(auto& s : t)
					{
						if(s.client != nullptr)
						{
							has_at''')],
         demo=PRE + r'''
int main()
{
	Client h;
	R r(dv, df, RNG{}, h, opt(1, 1));
	r.visit(h, deck()); r.visit(h, ready(true));
	auto n = h.got.size();
	r.visit(h, start());
	CHECK(h.got.size() == n);
}
''', needs='the host is alone in the room, ready, and starts', breaks='the room starts while one team is empty'),
    dict(id='C27-a', prop='C27', edits=[(H, 'auto const winner = uint32_t{r.team0() < r.team1()};', 'auto const winner = uint32_t{d->results(0).team0() < r.team1()};')],
         demo=PRE + r'''
int main()
{
	Client h, a;
	auto o = opt(1, 1);
	o.set_ftdm(YGOpen::Proto::Room::FTDM_DICE);
	R r(dv, df, RNG{{1, 1, 4, 2}}, h, o);
	r.enter(a);
	for(auto* x : {&h, &a}) { r.visit(*x, deck()); r.visit(*x, ready(true)); }
	h.got.clear();
	r.visit(h, start());
	CHECK(h.got.size() == 3);
	auto const& q = h.got[1].deciding_first_turn().result();
	auto const& l = q.dice().results(q.dice().results_size() - 1);
	CHECK(q.team_going_first() == (l.team0() > l.team1() ? 0 : 1));
}
''', needs='the dice tie at least once and are re-rolled', breaks='the winner is taken from two different rolls'),
    dict(id='C27-b', prop='C27', edits=[(H, '''			if(options_.ftdm() != FTDM::FTDM_HOST_CHOOSES || &peer != host_)
				break;''', '''			if(options_.ftdm() == FTDM::FTDM_RPS || &peer != host_)
				break;''')],
         demo=PRE + r'''
int main()
{
	Client h, a;
	auto o = opt(1, 1);
	o.set_ftdm(YGOpen::Proto::Room::FTDM_COIN);
	R r(dv, df, RNG{{1}}, h, o);
	r.enter(a);
	for(auto* x : {&h, &a}) { r.visit(*x, deck()); r.visit(*x, ready(true)); }
	r.visit(h, start());
	h.got.clear();
	Sig s;
	s.mutable_deciding_first_turn()->set_team_going_first(0);
	r.visit(h, s);
	CHECK(h.got.empty());
}
''', needs='a coin or dice room in which the host sends a choice after the result', breaks='the host overrules the coin'),
    dict(id='C28-a', prop='C28', edits=[(H, 'duelist.set_is_ready(s.ready);', 'duelist.set_is_ready(s.ready && s.deck_valid);')],
         demo=PRE + r'''
int main()
{
	Client h, a;
	R r(dv, df, RNG{}, h, opt(1, 1));
	r.visit(h, deck()); r.visit(h, ready(true));
	dv.ok = false;
	r.visit(h, deck());
	r.enter(a);
	CHECK(a.got[0].configuring().entering_state().duelists(0).is_ready());
}
''', needs='a ready duelist submits a deck that is rejected, then somebody enters', breaks='the snapshot shows another readiness than was announced to everybody else'),
    dict(id='C28-b', prop='C28', edits=[(H, '''			spectators_.insert(&peer);
			e2->set_spectator_count(spectators_.size());''', '''			e2->set_spectator_count(es->spectator_count() + 1);
			if(es->duelists_size() < 6)
				spectators_.insert(&peer);''')],
         demo=PRE + r'''
int main()
{
	Client c[9];
	R r(dv, df, RNG{}, c[0], opt(3, 3));
	for(int i = 1; i < 9; i++) r.enter(c[i]);
	CHECK(c[8].got[0].configuring().entering_state().spectator_count() == 2);
	CHECK(c[8].got.size() == 2 && c[8].got[1].spectator_count() == 3);
}
''', needs='spectators in a room with two full teams of three', breaks='spectators of the largest room are told nothing and not counted'),
]
