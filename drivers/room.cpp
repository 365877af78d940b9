// Entry points of the server room (the bodies are the repository's templates). The access specifiers of the
// repository's header are opened so that the driver can say where the fields are; nothing else is changed.
#include <algorithm>
#include <array>
#include <cassert>
#include <cstdint>
#include <functional>
#include <google/protobuf/arena.h>
#include <room.pb.h>
#include <set>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <ygopen/detail/config.hpp>
#include <ygopen/proto/deck.hpp>
#include <ygopen/proto/room.hpp>
#include <ygopen/proto/user.hpp>
#define private public
#include <ygopen/server/room.hpp>
#undef private
using Ev = YGOpen::Server::RoomEvent;
struct Client
{
	void send(Ev const& e) noexcept;
	void fill_user(YGOpen::Proto::User& u) const noexcept;
};
struct Validator
{
	bool check(std::string_view banlist, YGOpen::Proto::Deck const& d, YGOpen::Proto::DeckError& de) const noexcept;
};
struct Factory
{
	void make_duel() const noexcept;
};
struct RNG
{
	using result_type = uint32_t;
	static constexpr result_type min() { return 0; }
	static constexpr result_type max() { return 0xFFFFFFFFu; }
	result_type operator()() noexcept;
	unsigned long state;
};
struct Traits
{
	using ClientType = Client;
	using DeckValidatorType = Validator;
	using CoreDuelFactoryType = Factory;
	using RNGType = RNG;
};
using R = YGOpen::Server::BasicRoom<Traits>;
using Sig = YGOpen::Server::RoomSignal;
extern "C" {
void d_ctor(void* p, Validator const& v, Factory const& f, RNG& r, Client& h, YGOpen::Proto::Room::Options const& o)
{
	new(p) R(v, f, r, h, o);
}
unsigned long d_size() { return sizeof(R); }
unsigned long d_slot_size() { return sizeof(R::DuelistSlot); }
unsigned long d_deck_size() { return sizeof(YGOpen::Proto::Deck); }
unsigned long d_opts_size() { return sizeof(YGOpen::Proto::Room::Options); }
void d_enter(R& r, Client& c) { r.enter(c); }
void d_signal(R& r, Client& c, Sig const& s) { r.visit(c, s); }
void* d_teams(R& r) { return &r.teams_; }
R::DuelistSlot* d_slot(R& r, unsigned long t, unsigned long p) { return &r.teams_[t][p]; }
void* d_slot_client(R::DuelistSlot& s) { return &s.client; }
void* d_slot_deck(R::DuelistSlot& s) { return &s.deck; }
bool d_slot_valid(R::DuelistSlot& s) { return s.deck_valid; }
bool d_slot_ready(R::DuelistSlot& s) { return s.ready; }
void d_slot_set(R::DuelistSlot& s, bool v, bool r) { s.deck_valid = v; s.ready = r; }
void* d_options(R& r) { return &r.options_; }
void* d_host(R& r) { return &r.host_; }
void* d_spectators(R& r) { return &r.spectators_; }
void* d_arena(R& r) { return &r.arena_; }
void* d_validator(R& r) { return &r.deck_validator_; }
unsigned long d_state(R& r) { return r.states_.index(); }
void d_set_conf(R& r) { r.states_.emplace<R::Configuring>(); }
void d_set_dft(R& r) { r.states_.emplace<R::DecidingFirstTurn>(); }
void* d_states(R& r) { return &r.states_; }
Client* d_decider(R& r) { return std::get<R::DecidingFirstTurn>(r.states_).first_turn_decider; }
}
