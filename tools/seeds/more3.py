ns = {}
exec(open('/verif/tools/seeds/room.py').read().split('SPECS = [')[0], ns)
RPRE = ns['PRE']
exec(open('/verif/tools/seeds/encode.py').read().split('SPECS = [')[0], ns)
EPRE = ns['PRE']
exec(open('/verif/tools/seeds/history.py').read().split('SPECS = [')[0], ns)
HPRE = ns['PRE']
LI = 'include/ygopen/client/frame_limbo.hpp'
RO = 'include/ygopen/server/room.hpp'
EN = 'src/codec/edo9300_ocgcore_encode.cpp'
SPECS = [
    dict(id='C08-c', prop='C08', edits=[(LI, '''	using OperationCountType = std::deque<Ops>::size_type;
''', '''	using OperationCountType = uint8_t;
''')],
         demo=HPRE + r'''int main() { F f; for(int i = 0; i < 257; i++) f.card_add(pl(0,2,i)); Card* last = &f.card(pl(0,2,256)); Card* u = &f.undo_card_add(pl(0,2,256)); CHECK(u == last); CHECK(&f.card_add(pl(0,2,256)) == last); return 0; }''',
         needs='a history of more than 256 operations', breaks='an operation undone and redone is another one of the history'),
    dict(id='C26-c', prop='C26', edits=[(RO, '''							if(!s.deck_valid || !s.ready)
								return false;
''', '''							if(!s.deck_valid || !s.ready)
							{
								if(&s < t.data() + options_.max_duelists(0))
									return false;
							}
''')],
         demo=RPRE + r'''
int main()
{
	Client h, a, b;
	R r(dv, df, RNG{{}}, h, opt(1, 2));
	r.enter(a);
	r.enter(b);
	for(auto* x : {&h, &a}) { r.visit(*x, deck()); r.visit(*x, ready(true)); }
	h.got.clear();
	r.visit(h, start());
	CHECK(h.got.empty());
	return 0;
}
''', needs='a second team larger than the first with somebody not ready in its last seat', breaks='the room starts though a duelist is not ready'),
    dict(id='C27-c', prop='C27', edits=[(RO, '''			for(auto const& s : teams_[team])
				if(s.client != nullptr)
					return *s.client;
			YGOPEN_UNREACHABLE();
''', '''			ClientType* leader = teams_[team][0].client;
			for(auto const& s : teams_[team])
				if(s.client != nullptr && s.deck.data().main_cards_size() > teams_[team][0].deck.data().main_cards_size())
					leader = s.client;
			return *leader;
''')],
         demo=RPRE + r'''
int main()
{
	Client h, a, b;
	auto o = opt(2, 1);
	o.set_ftdm(YGOpen::Proto::Room::FTDM_COIN);
	R r(dv, df, RNG{{0}}, h, o);
	r.enter(a);
	r.enter(b);
	auto d = deck();
	for(auto* x : {&h, &a, &b}) { r.visit(*x, d); r.visit(*x, ready(true)); }
	Sig big;
	big.mutable_configuring()->mutable_update_deck()->mutable_data()->add_main_cards(1);
	r.visit(a, big);
	r.visit(b, big);
	h.got.clear();
	r.visit(h, start());
	int n = 0;
	for(auto& e : h.got) n += e.has_deciding_first_turn() && e.deciding_first_turn().decide_first_turn();
	CHECK(n == 1);
	return 0;
}
''', needs='a team of several duelists with decks of different sizes that wins the coin', breaks='another duelist than the first of the team is asked'),
    dict(id='C16-c', prop='C16', edits=[(EN, '''						add_one(f_loc, f_seq, static_cast<COSeq>(oseq));
''', '''						add_one(loc, seq, static_cast<COSeq>(oseq));
''')],
         demo=EPRE + r'''
int main()
{
	Ctx c;
	B b;
	b.u(162, 1).u(0, 4);
	for(int p = 0; p < 2; p++)
	{
		b.u(8000, 4);
		for(int i = 0; i < 7; i++) b.u(0, 1);
		for(int i = 0; i < 8; i++) { if(i != 5 || p) { b.u(0, 1); continue; } b.u(1, 1).u(1, 1).u(1, 4); }
		for(int i = 0; i < 6; i++) b.u(0, 4);
	}
	b.u(0, 4);
	auto r = enc(c, b);
	auto& a = r.msg->event().board().state().add();
	CHECK(a.places_size() == 2);
	CHECK(a.places(0).loc() == 0x100 && a.places(1).loc() == 0x100);
	CHECK(a.places(0).seq() == a.places(1).seq());
	return 0;
}
''', needs='a reloaded field with a field spell that has materials', breaks='the materials are added to a spell zone that does not exist'),
    dict(id='C16-d', prop='C16', edits=[(EN, '''		if(attack_target->loc() == 0U)
			attack->clear_attack_target();
''', '''		if(attack_target->loc() == 0U && attack_target->con() == 0U)
			attack->clear_attack_target();
''')],
         demo=EPRE + r'''
int main()
{
	Ctx c;
	B b;
	b.u(110, 1).place(0, 4, 1, 1).place(1, 0, 0, 0);
	auto r = enc(c, b);
	CHECK(r.msg->event().meta().has_attack());
	CHECK(!r.msg->event().meta().attack().has_attack_target());
	return 0;
}
''', needs='a direct attack whose empty target names the second player', breaks='a direct attack has a target'),
]
