// Random histories of a room (options, entering clients, signals of any client) against a reference model that
// is written from the statements of the properties; the traces of events of all clients are compared.
#include <functional>
#include <memory>
#include <map>
#include <random>
#include <string_view>
#include <algorithm>
#include <functional>
#include <utility>
#include <variant>
#include <vector>
#include <cassert>
#include <ygopen/server/room.hpp>
#include "nat.hpp"
using Ev = YGOpen::Server::RoomEvent;
using Sig = YGOpen::Server::RoomSignal;
using Opt = YGOpen::Proto::Room::Options;
namespace PR = YGOpen::Proto::Room;
static std::vector<std::string> hist;
static std::string ctx() { std::string s = "history:"; for(auto& x : hist) s += "\n  " + x; return s; }
struct Client
{
	YGOpen::Proto::User user;
	std::vector<Ev> got;
	unsigned id = 0;
	bool in = false;
	auto send(Ev const& e) noexcept -> void { got.push_back(e); }
	auto fill_user(YGOpen::Proto::User& u) const noexcept -> void { u = user; }
};
struct Validator
{
	mutable bool verdict = true;
	mutable unsigned asked = 0;
	mutable std::string banlist, deck;
	YGOpen::Proto::DeckError error;
	auto check(std::string_view b, YGOpen::Proto::Deck const& d, YGOpen::Proto::DeckError& de) const noexcept -> bool
	{
		asked++;
		banlist = std::string(b);
		deck = d.SerializeAsString();
		de = error; // also when it accepts: the answer must not carry an error then
		return verdict;
	}
};
struct Factory { auto make_duel() const noexcept -> void {} };
struct RNG
{
	using result_type = uint32_t;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return 0xFFFFFFFFu; }
	uint64_t s = 1;
	unsigned run = 0; // how many of the first values are equal
	uint32_t same = 0;
	auto operator()() noexcept -> result_type
	{
		if(run != 0) { run--; return same; }
		s = s * 6364136223846793005ULL + 1442695040888963407ULL;
		return uint32_t(s >> 33) * 2u + uint32_t(s >> 63);
	}
};
struct Traits
{
	using ClientType = Client;
	using DeckValidatorType = Validator;
	using CoreDuelFactoryType = Factory;
	using RNGType = RNG;
};
using R = YGOpen::Server::BasicRoom<Traits>;
struct Seat { Client* c = nullptr; bool valid = false, ready = false; };
static std::string show(google::protobuf::MessageLite const& m) { return m.SerializeAsString(); }
static std::string hex(std::string const& s)
{
	std::string o;
	for(unsigned char c : s) { char b[4]; std::snprintf(b, sizeof b, "%02x", c); o += b; }
	return o;
}
struct Stop {};
struct Model
{
	std::vector<std::unique_ptr<Client>> all;
	Opt options;
	unsigned cap[2] = {1, 1};
	Seat seat[2][PR::MAX_DUELISTS_PER_TEAM];
	std::vector<Client*> spect;
	Client* host = nullptr;
	bool deciding = false;
	std::vector<Client*> here() const
	{
		std::vector<Client*> v;
		for(auto& t : seat) for(auto& s : t) if(s.c) v.push_back(s.c);
		v.insert(v.end(), spect.begin(), spect.end());
		return v;
	}
	Seat* find(Client* c, unsigned& t, unsigned& p)
	{
		for(t = 0; t < 2; t++)
			for(p = 0; p < cap[t]; p++)
				if(seat[t][p].c == c) return &seat[t][p];
		return nullptr;
	}
};
// a trouble of another property ends the case quietly
template<typename F>
static void want(bool ok, char const* owner, F f)
{
	if(ok) return;
	if(nat::prop.empty() || nat::prop == owner) nat::fail(f());
	throw Stop{};
}
static void same(Ev const& got, Ev const& exp, char const* owner, char const* what)
{
	want(show(got) == show(exp), owner, [&] { return std::string(what) + ": sent " + hex(show(got)) + ", expected " + hex(show(exp)); });
}
// everybody in `who` got exactly one event, nobody else got any; it is returned
static Ev const* broadcast(Model& m, std::vector<Client*> const& who, char const* owner, char const* what)
{
	Ev const* first = nullptr;
	for(auto& c : m.all)
	{
		size_t n = 0;
		for(auto* x : who) n += x == c.get();
		want(c->got.size() == n, owner, [&] { return std::string(what) + ": client " + std::to_string(c->id) + " received " + std::to_string(c->got.size()) + " events, expected " + std::to_string(n); });
		if(n == 0) continue;
		if(first) same(c->got[0], *first, owner, what);
		else first = &c->got[0];
	}
	return first;
}
static void none(Model& m, char const* owner, char const* what) { (void)broadcast(m, {}, owner, what); }
static void clear(Model& m) { for(auto& c : m.all) c->got.clear(); }
static void fill(PR::Duelist* d, Model& m, unsigned t, unsigned p)
{
	d->set_team(t);
	d->set_pos(p);
	*d->mutable_user() = m.seat[t][p].c->user;
	d->set_is_host(m.seat[t][p].c == m.host);
	d->set_is_ready(m.seat[t][p].ready);
}
static void entered(Model& m, Client& c)
{
	// the newcomer: the snapshot, then the event of the change
	want(c.got.size() == 2, "C28", [&] { return "the newcomer received " + std::to_string(c.got.size()) + " events"; });
	Ev snap;
	auto* es = snap.mutable_configuring()->mutable_entering_state();
	*es->mutable_options() = m.options;
	for(unsigned t = 0; t < 2; t++)
		for(unsigned p = 0; p < PR::MAX_DUELISTS_PER_TEAM; p++)
			if(m.seat[t][p].c) fill(es->add_duelists(), m, t, p);
	es->set_spectator_count(m.spect.size());
	auto const& gs = c.got[0];
	auto const& go = gs.configuring().entering_state().options().max_duelists();
	want(go.size() == 2 && go[0] == m.cap[0] && go[1] == m.cap[1], "C25", [&] { return "the options in force do not have the team sizes " + std::to_string(m.cap[0]) + "," + std::to_string(m.cap[1]); });
	same(gs, snap, "C28", "snapshot");
	c.got.erase(c.got.begin());
	// where the newcomer must be
	unsigned n[2] = {0, 0};
	int e[2] = {-1, -1};
	for(unsigned t = 0; t < 2; t++)
		for(unsigned p = 0; p < m.cap[t]; p++)
			if(m.seat[t][p].c) n[t]++; else if(e[t] < 0) e[t] = int(p);
	int team = e[0] < 0 && e[1] < 0 ? -1 : e[0] < 0 ? 1 : e[1] < 0 ? 0 : n[0] <= n[1] ? 0 : 1;
	Ev exp;
	if(team >= 0)
	{
		m.seat[team][e[team]] = Seat{&c, false, false};
		fill(exp.mutable_configuring()->mutable_duelist_enters(), m, unsigned(team), unsigned(e[team]));
	}
	else
	{
		m.spect.push_back(&c);
		exp.set_spectator_count(m.spect.size());
	}
	auto const& ge = c.got[0];
	want((team >= 0) == (ge.t_case() == Ev::kConfiguring), "C25", [&] { return team >= 0 ? std::string("a free seat was not given") : std::string("a seat was announced though both teams are full"); });
	if(team >= 0)
	{
		auto const& d = ge.configuring().duelist_enters();
		want(d.team() == unsigned(team) && d.pos() == unsigned(e[team]), "C25", [&] { return "seat " + std::to_string(d.team()) + "," + std::to_string(d.pos()) + " given, expected " + std::to_string(team) + "," + std::to_string(e[team]); });
	}
	c.in = true;
	(void)broadcast(m, m.here(), "C28", "announcement of the newcomer");
	same(ge, exp, "C28", "announcement of the newcomer");
	clear(m);
}
static void one(nat::Rng& g)
{
	hist.clear();
	Model m;
	auto rnd = [&](unsigned n) { return unsigned(g() % n); };
	auto mk = [&]() -> Client&
	{
		m.all.push_back(std::make_unique<Client>());
		m.all.back()->id = unsigned(m.all.size() - 1);
		m.all.back()->user.set_name("c" + std::to_string(m.all.size() - 1));
		return *m.all.back();
	};
	Validator dv;
	Factory df;
	RNG rng;
	rng.s = g() | 1;
	if(rnd(3) == 0) { rng.run = rnd(9); rng.same = rnd(3) ? uint32_t(g()) : 0xFFFFFFFFu - rnd(6); }
	Opt o;
	static uint32_t const sizes[] = {0, 1, 1, 2, 2, 3, 3, 3, 4, 0x80000000u, 0xFFFFFFFFu, 258};
	unsigned const nv = rnd(8) ? 2 : rnd(5);
	std::string d = "room max_duelists";
	for(unsigned i = 0; i < nv; i++) { o.add_max_duelists(sizes[rnd(12)]); d += " " + std::to_string(o.max_duelists(int(i))); }
	m.options = o;
	for(unsigned i = 0; i < 2; i++)
	{
		uint32_t v = i < nv ? o.max_duelists(int(i)) : 1;
		m.cap[i] = v < 1 ? 1 : v > PR::MAX_DUELISTS_PER_TEAM ? PR::MAX_DUELISTS_PER_TEAM : v;
	}
	o.set_ftdm(static_cast<PR::FirstTurnDecideMethod>(rnd(4)));
	if(rnd(2)) o.set_banlist_id("list" + std::to_string(rnd(5)));
	if(rnd(3) == 0) o.mutable_deck_limits();
	m.options = o;
	m.options.clear_max_duelists();
	m.options.add_max_duelists(m.cap[0]);
	m.options.add_max_duelists(m.cap[1]);
	d += " ftdm " + std::to_string(int(o.ftdm()));
	hist.push_back(d);
	nat::doing = d;
	nat::own = nat::prop.empty() || nat::prop == "C25" || nat::prop == "C28";
	m.host = &mk();
	R r(dv, df, rng, *m.host, o);
	entered(m, *m.host);
	bool eager = rnd(2); // a room that is heading for a duel
	unsigned steps = 2 + rnd(40);
	for(unsigned step = 0; step < steps; step++)
	{
		unsigned k = rnd(10);
		if(m.deciding) k = 7 + rnd(3);
		std::string s;
		if(k < 3)
		{
			if(m.all.size() > 14) continue;
			auto& c = mk();
			hist.push_back("enter " + std::to_string(c.id));
			nat::doing = hist.back();
			nat::own = nat::prop.empty() || nat::prop == "C25" || nat::prop == "C28";
			r.enter(c);
			entered(m, c);
			continue;
		}
		if(rnd(12) == 0 && m.all.size() < 14) mk(); // somebody who never entered
		auto& c = *m.all[rnd(unsigned(m.all.size()))];
		unsigned t = 0, p = 0;
		auto* seat = m.find(&c, t, p);
		Sig sig;
		if(m.deciding ? k == 7 : k < 5)
		{
			auto* dk = sig.mutable_configuring()->mutable_update_deck();
			for(unsigned i = rnd(4); i--;) dk->mutable_data()->add_main_cards(rnd(1000));
			for(unsigned i = rnd(2); i--;) dk->mutable_data()->add_extra_cards(rnd(1000));
			dv.verdict = rnd(eager ? 8 : 2) != 0;
			dv.error.Clear();
			if(rnd(2)) dv.error.mutable_invalid_card()->add_cards(rnd(100));
			if(rnd(2)) dv.error.mutable_out_of_limit()->set_got(rnd(100));
			dv.asked = 0;
			s = "deck of client " + std::to_string(c.id) + (dv.verdict ? ", acceptable" : ", unacceptable");
		}
		else if(m.deciding ? k == 8 && rnd(2) : k < 8)
		{
			bool b = rnd(eager ? 8 : 2) != 0;
			sig.mutable_configuring()->set_ready_status(b);
			s = "ready " + std::to_string(b) + " of client " + std::to_string(c.id);
		}
		else if(m.deciding ? rnd(4) != 0 : rnd(8) == 0)
		{
			unsigned v = rnd(4) ? rnd(2) : rnd(2) ? 2 + rnd(3) : 0xFFFFFFFFu - rnd(2);
			sig.mutable_deciding_first_turn()->set_team_going_first(v);
			s = "choice " + std::to_string(v) + " of client " + std::to_string(c.id);
		}
		else if(rnd(6) == 0)
		{
			unsigned q = rnd(3);
			if(q == 0) sig.mutable_configuring();
			if(q == 1) sig.mutable_deciding_first_turn();
			s = "empty signal of client " + std::to_string(c.id);
		}
		else
		{
			sig.mutable_configuring()->set_start_dueling(true);
			s = "start of client " + std::to_string(c.id);
		}
		bool const cfg = sig.t_case() == Sig::kConfiguring;
		auto const cc = sig.configuring().t_case();
		char const* own = cfg || !m.deciding ? "C26" : "C27";
		hist.push_back(s);
		nat::doing = s;
		nat::own = nat::prop.empty() || nat::prop == own || (cfg && nat::prop == "C28" && cc == Sig::Configuring::kReadyStatus) || (cfg && nat::prop == "C27" && cc == Sig::Configuring::kStartDueling);
		r.visit(c, sig);
		if(cfg == m.deciding || sig.t_case() == Sig::T_NOT_SET || (cfg && cc == Sig::Configuring::T_NOT_SET) || (!cfg && sig.deciding_first_turn().t_case() == Sig::DecidingFirstTurn::T_NOT_SET))
		{
			none(m, own, "a signal that does not belong here");
			continue;
		}
		if(cfg && cc == Sig::Configuring::kUpdateDeck)
		{
			if(!seat) { none(m, "C26", "a deck of somebody without a seat"); continue; }
			want(dv.asked > 0, "C26", [] { return std::string("the deck was not checked"); });
			want(dv.deck == show(sig.configuring().update_deck()), "C26", [] { return std::string("another deck was checked"); });
			want(dv.banlist == m.options.banlist_id(), "C26", [] { return std::string("the deck was checked against another banlist"); });
			auto* e = broadcast(m, {&c}, "C26", "answer about a deck");
			Ev x;
			auto* ds = x.mutable_configuring()->mutable_deck_status();
			if(!dv.verdict) *ds->mutable_deck_error() = dv.error;
			same(*e, x, "C26", "answer about a deck");
			seat->valid = dv.verdict;
		}
		else if(cfg && cc == Sig::Configuring::kReadyStatus)
		{
			bool const b = sig.configuring().ready_status();
			bool const change = seat && seat->ready != b && (!b || seat->valid);
			size_t n = 0;
			for(auto& y : m.all) n += y->got.size();
			want((n != 0) == change, "C26", [&] { return change ? std::string("a change of readiness had no effect") : std::string("readiness changed"); });
			if(!change) continue;
			seat->ready = b;
			Ev x;
			fill(x.mutable_configuring()->mutable_update_duelist(), m, t, p);
			auto* e = broadcast(m, m.here(), "C28", "announcement of readiness");
			same(*e, x, "C28", "announcement of readiness");
		}
		else if(cfg)
		{
			bool can = &c == m.host;
			for(auto& tm : m.seat)
			{
				unsigned n = 0;
				for(auto& z : tm) if(z.c) { n++; can = can && z.valid && z.ready; }
				can = can && n != 0;
			}
			size_t n = 0;
			for(auto& y : m.all) n += y->got.size();
			want((n != 0) == can, "C26", [&] { return can ? std::string("the room did not start") : std::string("the room started"); });
			if(!can) continue;
			m.deciding = true;
			// entering, then the decision
			for(auto* y : m.here())
			{
				Ev x;
				x.mutable_deciding_first_turn()->mutable_entering_state();
				want(!y->got.empty(), "C27", [&] { return "client " + std::to_string(y->id) + " was not told of the decision"; });
				same(y->got[0], x, "C27", "entering the decision");
				y->got.erase(y->got.begin());
			}
			Client* asked = nullptr;
			bool const chance = m.options.ftdm() == PR::FTDM_DICE || m.options.ftdm() == PR::FTDM_COIN;
			if(m.options.ftdm() == PR::FTDM_HOST_CHOOSES) asked = m.host;
			if(chance)
			{
				Ev const* first = nullptr;
				Ev keep;
				for(auto* y : m.here())
				{
					want(!y->got.empty(), "C27", [&] { return "client " + std::to_string(y->id) + " was not told the result"; });
					if(first) same(y->got[0], *first, "C27", "result");
					else { keep = y->got[0]; first = &keep; }
					y->got.erase(y->got.begin());
				}
				auto const& res = first->deciding_first_turn().result();
				want(first->deciding_first_turn().t_case() == Ev::DecidingFirstTurn::kResult && res.team_going_first() < 2, "C27", [] { return std::string("the announcement is no result"); });
				unsigned win = 9;
				if(m.options.ftdm() == PR::FTDM_COIN)
				{
					want(res.t_case() == Ev::DecidingFirstTurn::Result::kCoinResult, "C27", [] { return std::string("no coin in the result"); });
					win = res.coin_result() == Ev::DecidingFirstTurn::Result::COIN_RESULT_HEADS ? 0 : 1;
				}
				else
				{
					want(res.dice().results_size() > 0, "C27", [] { return std::string("no dice in the result"); });
					for(int i = 0; i < res.dice().results_size(); i++)
					{
						auto const& q = res.dice().results(i);
						want(q.team0() >= 1 && q.team0() <= 6 && q.team1() >= 1 && q.team1() <= 6, "C27", [] { return std::string("a die outside of 1 to 6"); });
						want((i + 1 == res.dice().results_size()) == (q.team0() != q.team1()), "C27", [] { return std::string("ties and re-rolls do not match"); });
						win = q.team0() > q.team1() ? 0 : 1;
					}
				}
				want(res.team_going_first() == win, "C27", [&] { return "team " + std::to_string(res.team_going_first()) + " announced, the result implies " + std::to_string(win); });
				for(auto& z : m.seat[win]) if(z.c && !asked) asked = z.c;
			}
			std::vector<Client*> who;
			if(asked) who.push_back(asked);
			auto* e = broadcast(m, who, "C27", "request to decide");
			Ev x;
			x.mutable_deciding_first_turn()->set_decide_first_turn(true);
			if(asked) same(*e, x, "C27", "request to decide");
		}
		else
		{
			auto v = sig.deciding_first_turn().team_going_first();
			bool const ok = m.options.ftdm() == PR::FTDM_HOST_CHOOSES && &c == m.host && v < 2;
			auto* e = broadcast(m, ok ? m.here() : std::vector<Client*>{}, "C27", "choice of the first team");
			Ev x;
			x.mutable_deciding_first_turn()->mutable_result()->set_team_going_first(v);
			if(ok) same(*e, x, "C27", "choice of the first team");
		}
		clear(m);
	}
	nat::own = false;
}
static void run(nat::Rng& g)
{
	nat::context = ctx;
	try { one(g); } catch(Stop const&) {}
}
NAT_MAIN(run)
