PRE = r'''
#include <google/protobuf/arena.h>
#include <ygopen/codec/edo9300_ocgcore_encode.hpp>
#include <ygopen/proto/duel/msg.hpp>
#include <ygopen/duel/constants/location.hpp>
#include <cstdio>
#include <cstdint>
#include <vector>
using namespace YGOpen::Proto::Duel;
using State = YGOpen::Codec::EncodeOneResult::State;
#define CHECK(x) do { if(!(x)) { std::printf("failed: %s\n", #x); return 1; } } while(0)
struct Ctx final : YGOpen::Codec::IEncodeContext
{
	size_t deck = 0, grave = 0, hand = 0;
	bool mats = false;
	int lefts = 0;
	uint32_t reason = 0;
	std::vector<Place> deferred;
	Place left;
	auto pile_size(Con, Loc l) const noexcept -> size_t override { return (int)l == 1 ? deck : (int)l == 0x10 ? grave : hand; }
	auto get_match_win_reason() const noexcept -> uint32_t override { return reason; }
	auto has_xyz_mat(Place const&) const noexcept -> bool override { return mats; }
	auto get_xyz_left(Place const&) const noexcept -> Place override { return left; }
	auto match_win_reason(uint32_t r) noexcept -> void override { reason = r; }
	auto xyz_mat_defer(Place const& p) noexcept -> void override { deferred.push_back(p); }
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override { auto v = deferred; deferred.clear(); return v; }
	auto xyz_left(Place const&, Place const&) noexcept -> void override { lefts++; }
};
struct B
{
	std::vector<uint8_t> v;
	B& u(uint64_t x, int n) { while(n--) { v.push_back(uint8_t(x)); x >>= 8; } return *this; }
	B& place(int c, int l, uint32_t s, uint32_t p) { return u(c, 1).u(l, 1).u(s, 4).u(p, 4); }
};
static google::protobuf::Arena arena;
static auto enc(Ctx& c, B const& b) { return YGOpen::Codec::Edo9300::OCGCore::encode_one(arena, c, b.v.data()); }
'''
EN = 'src/codec/edo9300_ocgcore_encode.cpp'
SPECS = [
    dict(id='C14-a', prop='C14', edits=[(EN, '''		place->set_loc(LOCATION_EXTRA_DECK);
		auto const count = read<CCount>(data, ".size()");
		for(CCount i = 0; i < count; i++)
			skip<CCode>(data, "card code ", static_cast<int>(i));''', '''		place->set_loc(LOCATION_EXTRA_DECK);
		uint8_t const count = read<CCount>(data, ".size()");
		skip(data, count * sizeof(CCode), "card codes");''')],
         demo=PRE + r'''int main() { B b; b.u(39, 1).u(1, 1).u(260, 4); for(int i = 0; i < 260; i++) b.u(i, 4); Ctx c; CHECK(enc(c, b).bytes_read == b.v.size()); return 0; }''',
         needs='a shuffled extra deck of more than 255 cards', breaks='the message is not skipped as a whole: the next message starts inside of it'),
    dict(id='C14-b', prop='C14', edits=[(EN, '''			skip(data, eqr.bytes_read);
			read_size += eqr.bytes_read;''', '''			skip(data, eqr.bytes_read);
			read_size += eqr.bytes_read +
			             (eqr.overlays_count > 0U ? sizeof(CQSize) : 0U);''')],
         demo=PRE + r'''int main() { B b; B q; q.u(12, 2).u(0x10000, 4).u(1, 4).u(77, 4); q.u(4, 2).u(0x80000000u, 4); B e; e.u(0, 2);
	b.u(6, 1).u(0, 1).u(4, 1).u(q.v.size() + 2, 4); for(auto x : q.v) b.u(x, 1); b.u(0, 2); Ctx c; CHECK(enc(c, b).bytes_read == b.v.size()); return 0; }''',
         needs='a zone query with overlay codes followed by an empty last slot', breaks='the last slots of a field query are left in the buffer'),
    dict(id='C15-a', prop='C15', edits=[(EN, '''			// Corrupted move (core bug). Only handled because of older replays.
			// NOTE: fix
			// https://github.com/edo9300/ygopro-core/commit/36f2139582b
			result.state = EncodeOneResult::State::SWALLOWED;''', '''			// Corrupted move (core bug). Only handled because of older replays.
			// NOTE: fix
			// https://github.com/edo9300/ygopro-core/commit/36f2139582b
			create_event()->mutable_card()->set_reason(reason);
			result.state = EncodeOneResult::State::SWALLOWED;''')],
         demo=PRE + r'''int main() { B b; b.u(50, 1).u(1, 4).place(0, 0, 0, 0).place(1, 0, 0, 0).u(0, 4); Ctx c; auto r = enc(c, b); CHECK(r.state == State::SWALLOWED); CHECK(r.msg == nullptr); return 0; }''',
         needs='a corrupted move from nowhere to nowhere', breaks='a swallowed message comes with a non-null message'),
    dict(id='C15-b', prop='C15', edits=[(EN, '''		context.match_win_reason(read<uint32_t>(data, "match win reason"));
		result.state = EncodeOneResult::State::SWALLOWED;''', '''		auto const reason = read<uint32_t>(data, "match win reason");
		if(reason != 0U)
		{
			context.match_win_reason(reason);
			set_state_swallowed();
		}''')],
         demo=PRE + r'''int main() { B b; b.u(170, 1).u(0, 4); Ctx c; c.reason = 9; auto r = enc(c, b); CHECK(r.state == State::SWALLOWED); CHECK(c.reason == 0); return 0; }''',
         needs='a match kill message with reason 0', breaks='the message is reported as unknown and the context keeps the previous reason'),
    dict(id='C16-a', prop='C16', edits=[(EN, "		auto add_pile = [&](int con, Location loc, uint16_t count)", "		auto add_pile = [&](int con, Location loc, uint8_t count)")],
         demo=PRE + r'''int main() { B b; b.u(4, 1).u(0, 1).u(8000, 4).u(8000, 4).u(300, 2).u(15, 2).u(40, 2).u(0, 2); Ctx c; auto r = enc(c, b); CHECK(r.msg->event().board().state().resize().ops(0).count() == 300); return 0; }''',
         needs='a starting pile of 256 cards or more', breaks='the size of the pile at the start of the duel is truncated'),
    dict(id='C16-b', prop='C16', edits=[(EN, '''			loc = LOCATION_PENDULUM_ZONE;
			seq--;
		}
		seq -= FIELD_ZONE_SEQUENCE;''', '''			loc = LOCATION_PENDULUM_ZONE;
			seq &= 1U; // Left or right.
			return {loc, seq};
		}
		seq -= FIELD_ZONE_SEQUENCE;''')],
         demo=PRE + r'''int main() { B b; b.u(54, 1).u(1, 4).u(0, 1).u(8, 1).u(8, 4).u(1, 4); Ctx c; auto r = enc(c, b); CHECK(r.msg->event().meta().update().places(0).seq() == 2); return 0; }''',
         needs='a spell zone sequence above 7, as a future core could write', breaks='an out of range pendulum sequence aliases a real zone'),
    dict(id='C17-a', prop='C17', edits=[(EN, '(read<uint8_t>(data, "spe_count") & 0x7FU) > 0U', '(read<uint8_t>(data, "spe_count") & 0xFU) > 0U')],
         demo=PRE + r'''int main() { B b; b.u(16, 1).u(0, 1).u(16, 1).u(0, 1).u(0, 8).u(0, 4); Ctx c; auto r = enc(c, b); CHECK(r.msg->request().select_to_chain().triggering()); return 0; }''',
         needs='16 (32, ...) triggered effects at once', breaks='the player is not told that the chain is for triggered effects'),
    dict(id='C17-b', prop='C17', edits=[(EN, '			select_number->add_numbers(read<uint64_t>(data));', '			select_number->add_numbers(static_cast<uint32_t>(read<uint64_t>(data)));')],
         demo=PRE + r'''int main() { B b; b.u(143, 1).u(0, 1).u(1, 1).u(0x100000005ull, 8); Ctx c; auto r = enc(c, b); CHECK(r.msg->request().select_number().numbers(0) == 0x100000005ull); return 0; }''',
         needs='a number that does not fit 32 bits', breaks='the numbers to choose from are not those of the core'),
    dict(id='C18-a', prop='C18', edits=[(EN, "		for(uint32_t read_size = 0U; read_size < total_size; i++)", "		for(uint32_t read_size = 0U; read_size < total_size;)"),
                                         (EN, "				read_size += sizeof(CQSize);\n				continue;", "				read_size += sizeof(CQSize);\n				if(location == LOCATION_MONSTER_ZONE ||\n				   location == LOCATION_SPELL_ZONE)\n					i++;\n				continue;"),
                                         (EN, "			skip(data, eqr.bytes_read);\n			read_size += eqr.bytes_read;", "			skip(data, eqr.bytes_read);\n			read_size += eqr.bytes_read;\n			i++;")],
         demo=PRE + r'''int main() { B b; b.u(6, 1).u(0, 1).u(2, 1).u(8, 4).u(0, 2).u(4, 2).u(0x80000000u, 4); Ctx c; auto r = enc(c, b); CHECK(r.msg->queries(0).place().seq() == 1); return 0; }''',
         needs='a pile query with an empty slot before a card', breaks='the query is assigned to the previous card of the pile'),
    dict(id='C18-b', prop='C18', edits=[(EN, '''			auto* counters = q.mutable_counters();
			auto const count = read<CCount>(data, "counter count");''', '''			auto* counters = q.mutable_counters();
			counters->clear_values();
			auto const count = read<CCount>(data, "counter count");
			if(count == 0U)
				q.clear_counters();''')],
         demo=PRE + r'''int main() { B b; b.u(8, 2).u(0x20000, 4).u(0, 4).u(4, 2).u(0x80000000u, 4); Msg::Query::Data q; YGOpen::Codec::Edo9300::OCGCore::encode_one_query(b.v.data(), q); CHECK(q.has_counters()); return 0; }''',
         needs='a card that has just lost its last counter', breaks='the client is not told that the card has no counters any more'),
    dict(id='C19-a', prop='C19', edits=[(EN, "			if(!is_pile(prev) && is_pile(curr) && context.has_xyz_mat(prev))", "			if(!is_pile(prev) && is_pile(curr) && context.has_xyz_mat(curr))")],
         demo=PRE + r'''struct C2 final : YGOpen::Codec::IEncodeContext
{
	int n = 0;
	auto pile_size(Con, Loc) const noexcept -> size_t override { return 0; }
	auto get_match_win_reason() const noexcept -> uint32_t override { return 0; }
	auto has_xyz_mat(Place const& p) const noexcept -> bool override { return p.loc() == 4; }
	auto get_xyz_left(Place const& p) const noexcept -> Place override { return p; }
	auto match_win_reason(uint32_t) noexcept -> void override {}
	auto xyz_mat_defer(Place const&) noexcept -> void override {}
	auto take_deferred_xyz_mat() noexcept -> std::vector<Place> override { return {}; }
	auto xyz_left(Place const&, Place const&) noexcept -> void override { n++; }
};
int main() { B b; b.u(50, 1).u(1, 4).place(0, 4, 2, 0).place(0, 0x10, 0, 0).u(0, 4); C2 c; YGOpen::Codec::Edo9300::OCGCore::encode_one(arena, c, b.v.data()); CHECK(c.n == 1); return 0; }''',
         needs='a card with materials leaves the field for a pile', breaks='the context is not told where the materials of the card are'),
    dict(id='C19-b', prop='C19', edits=[(EN, '''				auto const oseq = i++;
				// Skip no-ops.
				if(def.con() == curr.con() && def.loc() == curr.loc() &&
				   def.seq() == curr.seq() && def.oseq() == oseq)
					continue;''', '''				// Skip no-ops.
				if(def.con() == curr.con() && def.loc() == curr.loc() &&
				   def.seq() == curr.seq() && def.oseq() == i)
					continue;
				auto const oseq = i++;''')],
         demo=PRE + r'''int main() { B b; b.u(50, 1).u(1, 4).place(0, 0x40, 0, 0).place(0, 4, 2, 0).u(0, 4); Ctx c; Place p; p.set_loc(4); p.set_seq(2); p.set_oseq(0); c.deferred.push_back(p); p.set_oseq(-1); p.set_seq(3); c.deferred.push_back(p);
	auto r = enc(c, b); auto& m = r.msg->event().card().move(); CHECK(m.ops_size() == 2); CHECK(m.ops(0).new_place().oseq() == 1); return 0; }''',
         needs='a deferred material that is already in place, followed by one that is not', breaks='later materials are attached over the first one'),
    dict(id='C20-a', prop='C20', edits=[(EN, "			if(!!(data[i / 8U] & (1U << (i % 8U))))", "			if(i / 8U < buffer_size && (data[i / 8U] & (1U << (i & 7U))) != 0U &&\n			   splice_size < 255U)")],
         demo=PRE + r'''int main() { B b; b.u(35, 1).u(0, 1).u(0, 4).u(40, 4); for(int i = 0; i < 40; i++) b.u(255, 1); Ctx c; c.grave = 300; c.deck = 3; auto r = enc(c, b); auto& s = r.msg->event().pile().splice(); CHECK(s.ops_size() == 3); CHECK(s.ops(2).count() == 300); return 0; }''',
         needs='more than 255 extra deck cards in a row in the graveyard', breaks='a card that belongs to the extra deck stays in the main deck'),
    dict(id='C20-b', prop='C20', edits=[(EN, "				// Reset state.\n				sent_to_extra += splice_size;", "				// Reset state.\n				sent_to_extra = splice_size;")],
         demo=PRE + r'''int main() { B b; b.u(35, 1).u(0, 1).u(0, 4).u(1, 4).u(0x15, 1); Ctx c; c.grave = 6; auto r = enc(c, b); auto& s = r.msg->event().pile().splice(); CHECK(s.ops_size() == 4); CHECK(s.ops(3).from().seq() == 2); CHECK(s.ops(3).to().seq() == 2); return 0; }''',
         needs='three separate runs of extra deck cards in the graveyard', breaks='the third run takes the wrong cards from the deck'),
    dict(id='C21-a', prop='C21', edits=[(EN, "	iterate_half(1U - invert, FIELD_HALF);", "	iterate_half(1U, FIELD_HALF);")],
         demo=PRE + r'''int main() { B b; b.u(18, 1).u(1, 1).u(1, 1).u(~0x10000u, 4); Ctx c; auto r = enc(c, b); auto& z = r.msg->request().select_zone(); CHECK(z.places_size() == 1); CHECK(z.places(0).con() == 0); return 0; }''',
         needs='a zone selection by the second player that offers a zone of the first', breaks='zones of the opponent are offered as zones of the selecting player'),
    dict(id='C21-b', prop='C21', edits=[(EN, '''		i++; // NOTE: Unused bit.
''', '''		if(half[i])
			i++; // NOTE: Unused bit.
''')],
         demo=PRE + r'''int main() { B b; b.u(18, 1).u(0, 1).u(1, 1).u(~0x180u, 4); Ctx c; auto r = enc(c, b); auto& z = r.msg->request().select_zone(); CHECK(z.places_size() == 1); CHECK(z.places(0).loc() == 8); CHECK(z.places(0).seq() == 0); return 0; }''',
         needs='a mask whose unused bit is clear', breaks='spell, field and pendulum zones are taken from the bit before theirs'),
]
SPECS = [s for s in SPECS if s['demo']]
