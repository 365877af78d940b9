"""The core's message format and its translation, written as a specification (C14-C21).

Each message is a function of a reader R that gives the bytes of the message one after the other
and says what the encoder has to produce.  The reader is symbolic for the proofs (values are
selects from an arbitrary buffer) and concrete for the native comparison (it makes up a random
well-formed message while the specification reads it)."""
import z3
from irv.val import *

NONE = -1 & 0xffffffff
MAIN, HAND, MZONE, SZONE, GRAVE, BANISHED, EXTRA, OVERLAY, FIELD, PENDULUM = 1, 2, 4, 8, 0x10, 0x20, 0x40, 0x80, 0x100, 0x200
PILES = MAIN | HAND | GRAVE | BANISHED | EXTRA

UNKNOWN, OK, SWALLOWED = 'UNKNOWN', 'OK', 'SWALLOWED'


def band(a, m, w=32):
    return a & m if isc(a) else simp(bv(a, w) & bv(m, w))


def lshr(a, n, w=32):
    return a >> n if isc(a) else simp(z3.LShR(bv(a, w), bv(n, w)))


def nz(a, w):
    return b_not(eq(a, 0, w))


def bit(a, i, w=32):
    return nz(band(a, 1 << i, w), w)


def umul(a, n):
    return mul(a, n, 64)


class Spec:
    """expected results; S: schema"""

    def __init__(self, S, R, ctx):
        self.S = S; self.R = R; self.ctx = ctx

    def M(self, cls, **kw):
        return self.S.make(cls, **kw)

    def event(self, **kw):
        return OK, self.M('Msg', event=self.M('Msg_Event', **kw))

    def meta(self, **kw):
        return self.event(meta=self.M('Msg_Event_Meta', **kw))

    def request(self, con, **kw):
        return OK, self.M('Msg', request=self.M('Msg_Request', replier=con, **kw))

    def place(self, con, loc, seq, oseq=NONE):
        return self.M('Place', con=con, loc=loc, seq=seq, oseq=oseq)

    # ---------------------------------------------------------- parts of messages
    def con(self, R):
        return zext(R.con(), 8, 32)

    def fix(self, loc, seq, w):
        """spell zone sequences above 4: field zone (5), pendulum zones (6, 7)"""
        over = b_and(nz(band(loc, SZONE), 32), ult(4, seq, w))
        five = eq(seq, 5, w)
        l = ite(over, ite(five, FIELD, PENDULUM, 32), loc, 32)
        s = ite(over, ite(five, 0, sub(seq, 6, w), w), seq, w)
        return l, zext(s, w, 32)

    def info(self, R, loc=1, seq=4, pos=4):
        """location of a card: controller, location (with the overlay flag), sequence, position or overlay sequence"""
        c = self.con(R)
        l0 = zext(R.loc(loc, pos == 4), 8 * loc, 32)
        l = band(l0, ~OVERLAY & 0xffffffff)
        s = R.seq(seq)
        l, s = self.fix(l, s, 8 * seq)
        o = NONE
        if pos:
            p = R.rd(pos)
            o = ite(nz(band(l0, OVERLAY), 32), zext(p, 8 * pos, 32), NONE, 32)
        return self.place(c, l, s, o)

    def effect(self, R):
        e = R.rd(8)
        return self.M('Effect', code=trunc(lshr(e, 20, 64), 64, 32), index=trunc(band(e, 0xfffff, 64), 64, 32))

    def cards(self, R, n, loc=1, seq=4, pos=0):
        """n x (code, place)"""
        def one(r):
            r.skip(4)
            return self.info(r, loc, seq, pos)
        return R.list(n, 4 + 1 + loc + seq + pos, self.elt('Place'), one)

    def elt(self, cls):
        return Elt('msg', 64, self.S.cls(cls) if cls != 'Place' else 'YGOpen::Proto::Duel::Place', 8)

    def places(self, R, n):
        return R.list(n, 10, self.elt('Place'), lambda r: self.info(r))

    def zones(self, mask, low):
        """one place for each clear bit that stands for a zone"""
        out = s_empty(self.elt('Place'))
        for half, con in ((0, low), (16, sub(1, low, 32))):
            for i in range(16):
                if i == 7:
                    continue
                if i < 7:
                    p = self.place(con, MZONE, i)
                elif i < 13:
                    p = self.place(con, SZONE, i - 8)
                elif i == 13:
                    p = self.place(con, FIELD, 0)
                else:
                    p = self.place(con, PENDULUM, i - 14)
                out = s_cat(out, s_ite(bit(mask, half + i), s_empty(out.elt), SList(out.elt, [p])))
        return out

    def resize(self, con, *piles):
        return self.M('Msg_Event_Pile_Resize', ops=[
            self.M('Msg_Event_Pile_Resize__Operation', place=self.place(con, loc, 0), count=n) for loc, n in piles])


def u(x, n):
    """widen an n-byte value to 32 bits"""
    return zext(x, 8 * n, 32)


def boolean(x):
    return nz(x, 8)


# ------------------------------------------------------------------ messages
MESSAGES = {}      # value -> (name, property of its content, function)


def msg(values, prop):
    def d(f):
        for v in values if isinstance(values, (list, tuple)) else [values]:
            MESSAGES[v] = (f.__name__.strip('_'), prop, f)
        return f
    return d


@msg([30, 42, 31], 'C16')
def confirm(s, R, v):
    R.skip(1)
    return s.meta(confirm=s.M('Msg_Event_Meta_Confirm', places=s.cards(R, R.count(4))))


@msg([32, 33, 39], 'C16')
def shuffle_pile(s, R, v):
    p = s.M('Place', con=s.con(R), loc={32: MAIN, 33: HAND, 39: EXTRA}[v])
    if v != 32:
        R.skip(umul(R.count(4), 4))
    return s.meta(shuffle_pile=s.M('Msg_Event_Meta_ShufflePile', places=[p]))


@msg(36, 'C16')
def shuffle_set_card(s, R, v):
    R.skip(1)
    n = R.count(1)
    a = s.places(R, n)
    b = s.places(R, n)
    return s.event(card=s.M('Msg_Event_Card', shuffle=s.M('Msg_Event_Card_Shuffle', previous_places=a, current_places=b)))


@msg(40, 'C16')
def new_turn(s, R, v):
    return s.event(next_turn=s.con(R))


@msg(41, 'C16')
def new_phase(s, R, v):
    return s.event(next_phase=u(R.rd(2), 2))


@msg(53, 'C16')
def pos_change(s, R, v):
    R.skip(4)
    p = s.info(R, 1, 1, 0)
    R.skip(2)
    return s.meta(update=s.M('Msg_Event_Meta_Update', places=[p]))


@msg(54, 'C16')
def set_(s, R, v):
    R.skip(4)
    p = s.info(R, 1, 4, 0)
    R.skip(4)
    return s.meta(update=s.M('Msg_Event_Meta_Update', places=[p]))


@msg(55, 'C16')
def swap(s, R, v):
    R.skip(4)
    a = s.info(R)
    R.skip(4)
    b = s.info(R)
    op = s.M('Msg_Event_Card_Exchange__Operation', place_a=a, place_b=b)
    return s.event(card=s.M('Msg_Event_Card', exchange=s.M('Msg_Event_Card_Exchange', ops=[op])))


@msg(56, 'C21')
def field_disabled(s, R, v):
    return s.event(zone_block=s.M('Msg_Event_ZoneBlock', zones=s.zones(R.rd(4), 0)))


@msg([60, 62, 64], 'C16')
def summoning(s, R, v):
    R.skip(4)
    p = s.info(R)
    return s.meta(update=s.M('Msg_Event_Meta_Update', places=[p], reason={60: 0x10, 62: 0x800, 64: 0x2000}[v]))


def chain(s, R):
    R.skip(4)
    a = s.info(R)
    b = s.info(R, 1, 4, 0)
    return s.M('Chain', card_place=a, place=b, effect=s.effect(R))


@msg(70, 'C16')
def chaining(s, R, v):
    c = chain(s, R)
    R.skip(4)
    return s.event(chain_stack=s.M('Msg_Event_ChainStack', push=c))


@msg([71, 72, 75, 76], 'C16')
def chain_status(s, R, v):
    R.skip(1)
    n = {71: 'CHAIN_STATUS_CHAINED', 72: 'CHAIN_STATUS_SOLVING', 75: 'CHAIN_STATUS_ACT_NEGATED', 76: 'CHAIN_STATUS_EFF_NEGATED'}[v]
    return s.meta(chain_status=s.S.values[n])


@msg(73, 'C16')
def chain_solved(s, R, v):
    R.skip(1)
    return s.event(chain_stack=s.M('Msg_Event_ChainStack', pop=1))


@msg([91, 92, 94, 100], 'C16')
def life_points(s, R, v):
    c = s.con(R)
    return s.event(lp=s.M('Msg_Event_LP', controller=c, **{{91: 'damage', 92: 'recover', 94: 'become', 100: 'pay'}[v]: R.rd(4)}))


@msg([81, 80, 83], 'C16')
def selected(s, R, v):
    if v == 81:
        R.skip(1)
    return s.meta(selection=s.M('Msg_Event_Meta_Selection', selected_places=s.places(R, R.count(4))))


@msg([96, 97], 'C16')
def target(s, R, v):
    a = s.info(R)
    b = s.info(R)
    return s.meta(selection=s.M('Msg_Event_Meta_Selection', selector=a, selected_places=[b]))


@msg([101, 102], 'C16')
def counter(s, R, v):
    R.skip(2)
    p = s.info(R, 1, 1, 0)
    R.skip(2)
    return s.meta(update=s.M('Msg_Event_Meta_Update', places=[p]))


@msg(110, 'C16')
def attack(s, R, v):
    a = s.info(R)
    b = s.info(R)
    m = s.M('Msg_Event_Meta_Attack', attacker=a)
    m = m.setk('attack_target', (nz(s.S.get(b, 'loc'), 32), b))
    return s.meta(attack=m)


@msg([130, 131], 'C16')
def toss(s, R, v):
    c = s.con(R)
    n = R.count(1)
    if v == 130:
        vs = R.list(n, 1, Elt('i', 8, None, 1), lambda r: ite(boolean(r.rd(1)), 1, 0, 8))
        return s.event(result=s.M('Msg_Event_Result', coin=s.M('Msg_Event_Result_Coin', actor=c, values=vs)))
    vs = R.list(n, 1, Elt('i', 32, None, 4), lambda r: u(r.rd(1), 1))
    return s.event(result=s.M('Msg_Event_Result', dice=s.M('Msg_Event_Result_Dice', actor=c, values=vs)))


@msg(133, 'C16')
def hand_res(s, R, v):
    b = R.rd(1)
    vs = [u(band(b, 3, 8), 1), u(band(lshr(b, 2, 8), 3, 8), 1)]
    return s.event(result=s.M('Msg_Event_Result', rps=s.M('Msg_Event_Result_RPS', values=vs)))


@msg(4, 'C16')
def start(s, R, v):
    R.skip(1)
    lps = [R.rd(4), R.rd(4)]
    ops = []
    for c in (0, 1):
        for l in (MAIN, EXTRA):
            ops.append(s.M('Msg_Event_Pile_Resize__Operation', place=s.place(c, l, 0), count=u(R.rd(2), 2)))
    st = s.M('Msg_Event_Board_State', lps=lps, turn_counter=0, resize=s.M('Msg_Event_Pile_Resize', ops=ops))
    return s.event(board=s.M('Msg_Event_Board', state=st))


@msg(161, 'C16')
def tag_swap(s, R, v):
    c = s.con(R)
    m, e = R.rd(4), R.count(4)
    R.skip(4)
    h = R.count(4)
    R.skip(4)
    R.skip(umul(add(e, h), 8))
    ex = s.M('Msg_Event_Board_Exchange', con=c, resize=s.resize(c, (MAIN, m), (EXTRA, trunc(e, 64, 32)), (HAND, trunc(h, 64, 32))))
    return s.event(board=s.M('Msg_Event_Board', exchange=ex))


def reload_zone(s, R, con, loc, seq):
    """one zone of a reloaded field: nothing, or a card and its materials: (bytes, places)"""
    e = s.elt('Place')
    has = boolean(R.peek(0, 1, 'flag'))
    n = R.peek_count(2, has)
    l, q = s.fix(loc, seq, 32)
    mats = R.repeat(n, e, lambda j: s.place(con, l, q, trunc(j, 64, 32)))
    some = s_cat(SList(e, [s.place(con, l, q)]), mats)
    return has, ite(has, 6, 1, 64), some


def reload_zones():
    for con in (0, 1):
        for loc, k in ((MZONE, 7), (SZONE, 8)):
            for seq in range(k):
                yield con, loc, seq


@msg(162, 'C16')
def reload_field(s, R, v):
    flags = R.rd(4)
    shape = s.M('FieldShape', three_columns=bit(flags, 22), has_pzones=bit(flags, 11), has_separate_pzones=bit(flags, 12), has_emzones=bit(flags, 13))
    lps = []; ops = []
    e = s.elt('Place')
    places = s_empty(e)
    for con in (0, 1):
        lps.append(R.rd(4))
        for loc, k in ((MZONE, 7), (SZONE, 8)):
            for seq in range(k):
                R.zone_start(con, loc, seq)
                has, n, some = reload_zone(s, R, con, loc, seq)
                R.skip(n)
                places = s_cat(places, R.zone_end(s_ite(has, some, s_empty(e))))
        for l in (MAIN, HAND, GRAVE, BANISHED, EXTRA):
            ops.append(s.M('Msg_Event_Pile_Resize__Operation', place=s.place(con, l, 0), count=R.rd(4)))
        R.skip(4)
    chains = R.list(R.count(4), 4 + 10 + 6 + 8, s.elt('Chain'), lambda r: chain(s, r))
    st = s.M('Msg_Event_Board_State', shape=shape, turn_counter=-1 & 0xffffffff, lps=lps, chains=chains,
             add=s.M('Msg_Event_Card_Add', places=places), resize=s.M('Msg_Event_Pile_Resize', ops=ops))
    return s.event(board=s.M('Msg_Event_Board', state=st))


@msg(165, 'C16')
def player_hint(s, R, v):
    c = s.con(R)
    t = R.choice(1, [1, 2])
    e = s.effect(R)
    a = s.M('Msg_Event_Meta_Description', con=c, add=e)
    b = s.M('Msg_Event_Meta_Description', con=c, remove=e)
    return s.meta(description=ite(eq(t, 1, 8), a, b))


# ------------------------------------------------------------------ requests
@msg(141, 'C17')
def announce_attribute(s, R, v):
    c = s.con(R)
    n = u(R.rd(1), 1)
    return s.request(c, select_attribute=s.M('Msg_Request_SelectAttribute', count=n, attribute=R.rd(4)))


def selectable(s, R, n):
    def one(r):
        code = r.rd(4)
        return s.M('Msg_Request_SelectCard__SelectableCard', code=code, place=s.info(r))
    return R.list(n, 14, s.elt('Msg_Request_SelectCard__SelectableCard'), one)


@msg(15, 'C17')
def select_card(s, R, v):
    c = s.con(R)
    cancel = boolean(R.rd(1))
    mi, ma = R.rd(4), R.rd(4)
    n = R.count(4, 1)
    loc = R.peek(5, 1, 'loc')
    P = R.fork()
    cards = selectable(s, P, n)
    codes = R.list(n, 14, Elt('i', 32, None, 4), lambda r: r.rd(4))
    a = s.M('Msg_Request_SelectCard', unique_range=s.M('Msg_Request_SelectCard_UniqueRange', can_cancel=cancel, min=mi, max=ma, cards=cards))
    b = s.M('Msg_Request_SelectCard', limbo=s.M('Msg_Request_SelectCard_Limbo', can_cancel=cancel, min=mi, max=ma, card_codes=codes))
    return s.request(c, select_card=ite(nz(loc, 8), a, b))


@msg(26, 'C17')
def select_unselect_card(s, R, v):
    c = s.con(R)
    fin, acc = boolean(R.rd(1)), boolean(R.rd(1))
    mi, ma = R.rd(4), R.rd(4)
    a = selectable(s, R, R.count(4))
    b = selectable(s, R, R.count(4))
    return s.request(c, select_card=s.M('Msg_Request_SelectCard', recursive=s.M(
        'Msg_Request_SelectCard_Recursive', can_finish=fin, accept=acc, min=mi, max=ma, selectable_cards=a, deselectable_cards=b)))


@msg(20, 'C17')
def select_tribute(s, R, v):
    c = s.con(R)
    cancel = boolean(R.rd(1))
    mi, ma = R.rd(4), R.rd(4)

    def one(r):
        code = r.rd(4)
        p = s.info(r, 1, 4, 0)
        return s.M('Msg_Request_SelectCard_UniqueTributes__TributeCard', code=code, place=p, count_as=u(r.rd(1), 1))
    cards = R.list(R.count(4), 11, s.elt('Msg_Request_SelectCard_UniqueTributes__TributeCard'), one)
    return s.request(c, select_card=s.M('Msg_Request_SelectCard', unique_tributes=s.M(
        'Msg_Request_SelectCard_UniqueTributes', can_cancel=cancel, tribute_min=mi, tribute_max=ma, cards=cards)))


@msg(14, 'C17')
def select_option(s, R, v):
    c = s.con(R)
    es = R.list(R.count(1), 8, s.elt('Effect'), lambda r: s.effect(r))
    return s.request(c, select_effect=s.M('Msg_Request_SelectEffect', count=1, effects=es))


def activable(s, R, n, pos=0):
    def one(r):
        r.skip(4)
        p = s.info(r, 1, 4, pos)
        e = s.effect(r)
        r.skip(1)
        return s.M('Msg_Request__ActCard', place=p, effect=e)
    return R.list(n, 4 + 6 + pos + 8 + 1, s.elt('Msg_Request__ActCard'), one)


@msg(10, 'C17')
def select_battle_command(s, R, v):
    c = s.con(R)
    acts = activable(s, R, R.count(4))

    def one(r):
        r.skip(4)
        p = s.info(r, 1, 1, 0)
        return s.M('Msg_Request_SelectIdle__AtkCard', place=p, can_attack_directly=boolean(r.rd(1)))
    atks = R.list(R.count(4), 8, s.elt('Msg_Request_SelectIdle__AtkCard'), one)
    m2, ep = boolean(R.rd(1)), boolean(R.rd(1))
    ph = add(ite(m2, 0x100, 0, 32), ite(ep, 0x200, 0, 32), 32)
    return s.request(c, select_idle=s.M('Msg_Request_SelectIdle', is_battle_cmd=1, activable_cards=acts, can_attack_cards=atks,
                                        available_phase=ph, can_shuffle=0))


@msg(11, 'C17')
def select_idle_command(s, R, v):
    c = s.con(R)
    kw = {}
    for f, sq in (('summonable_cards', 4), ('spsummonable_cards', 4), ('repositionable_cards', 1), ('msetable_cards', 4), ('ssetable_cards', 4)):
        kw[f] = s.cards(R, R.count(4), 1, sq, 0)
    kw['activable_cards'] = activable(s, R, R.count(4))
    bp, ep = boolean(R.rd(1)), boolean(R.rd(1))
    ph = add(ite(bp, 0x80, 0, 32), ite(ep, 0x200, 0, 32), 32)
    return s.request(c, select_idle=s.M('Msg_Request_SelectIdle', is_battle_cmd=0, available_phase=ph, can_shuffle=boolean(R.rd(1)), **kw))


@msg(143, 'C17')
def announce_number(s, R, v):
    c = s.con(R)
    ns = R.list(R.count(1), 8, Elt('i', 64, None, 8), lambda r: r.rd(8))
    return s.request(c, select_number=s.M('Msg_Request_SelectNumber', count=1, numbers=ns))


@msg(19, 'C17')
def select_position(s, R, v):
    c = s.con(R)
    code = R.rd(4)
    return s.request(c, select_position=s.M('Msg_Request_SelectPosition', count=1, code=code, position=u(R.rd(1), 1)))


@msg(140, 'C17')
def announce_race(s, R, v):
    c = s.con(R)
    n = u(R.rd(1), 1)
    return s.request(c, select_race=s.M('Msg_Request_SelectRace', count=n, race=R.rd(8)))


@msg(132, 'C17')
def rock_paper_scissors(s, R, v):
    return s.request(s.con(R), select_rock_paper_scissors=1)


@msg(16, 'C17')
def select_chain(s, R, v):
    c = s.con(R)
    trig = nz(band(R.rd(1), 0x7f, 8), 8)
    forced = boolean(R.rd(1))
    R.skip(8)
    return s.request(c, select_to_chain=s.M('Msg_Request_SelectToChain', triggering=trig, forced=forced,
                                            activable_cards=activable(s, R, R.count(4), 4)))


@msg(12, 'C17')
def select_effect_yes_no(s, R, v):
    c = s.con(R)
    code = R.rd(4)
    p = s.info(R)
    return s.request(c, select_yes_no=s.M('Msg_Request_SelectYesNo', code=code, place=p, effect=s.effect(R)))


@msg(13, 'C17')
def select_yes_no(s, R, v):
    c = s.con(R)
    return s.request(c, select_yes_no=s.M('Msg_Request_SelectYesNo', effect=s.effect(R)))


@msg([18, 24], 'C21')
def select_place(s, R, v):
    c = u(R.choice(1, [0, 1]), 1)
    n = u(R.rd(1), 1)
    return s.request(c, select_zone=s.M('Msg_Request_SelectZone', blocking=1 if v == 24 else 0, count=n, places=s.zones(R.rd(4), c)))


@msg([21, 25], 'C17')
def sort(s, R, v):
    c = s.con(R)
    return s.request(c, sort=s.M('Msg_Request_Sort', places=s.cards(R, R.count(4), 4, 4, 0)))


# ------------------------------------------------------------------ messages that involve the context
@msg(5, 'C16')
def win(s, R, v):
    w = R.rd(1)
    r = u(R.rd(1), 1)
    m = s.ctx.get_reason()
    a = s.M('Msg_Event_Finish', win_reason=r, match_win_reason=m, winner=u(w, 1))
    b = s.M('Msg_Event_Finish', win_reason=r, match_win_reason=m, draw=1)
    return s.event(finish=ite(eq(w, 2, 8), b, a))


@msg(38, 'C20')
def deck_top(s, R, v):
    c = s.con(R)
    n = trunc(s.ctx.pile_size(c, MAIN), 64, 32)
    p = s.place(c, MAIN, sub(sub(n, 1, 32), R.rd(4), 32))
    R.skip(8)
    return s.meta(update=s.M('Msg_Event_Meta_Update', places=[p]))


@msg(90, 'C20')
def draw(s, R, v):
    c = s.con(R)
    n = R.count(4)
    R.skip(umul(n, 8))
    n = trunc(n, 64, 32)
    deck, hand = trunc(s.ctx.pile_size(c, MAIN), 64, 32), trunc(s.ctx.pile_size(c, HAND), 64, 32)
    op = splice(s, c, MAIN, sub(deck, n, 32), n, HAND, hand, 1)
    return s.event(pile=s.M('Msg_Event_Pile', reason=0x2000000, splice=s.M('Msg_Event_Pile_Splice', ops=[op])))


def splice(s, c, a, i, n, b, j, rev=0):
    return s.M('Msg_Event_Pile_Splice__Operation', **{'from': s.place(c, a, i), 'count': n, 'to': s.place(c, b, j), 'reverse': rev})


@msg(37, 'C20')
def reverse_deck(s, R, v):
    ops = [splice(s, c, MAIN, 0, trunc(s.ctx.pile_size(c, MAIN), 64, 32), MAIN, 0, 1) for c in (0, 1)]
    return s.event(pile=s.M('Msg_Event_Pile', reason=0x40, splice=s.M('Msg_Event_Pile_Splice', ops=ops)))


@msg(50, 'C19')
def move(s, R, v):
    R.skip(4)
    a = s.info(R)
    b = s.info(R)
    reason = zext(R.rd(4), 32, 64)
    return 'MOVE', (a, b, reason)


@msg(35, 'C20')
def swap_grave_deck(s, R, v):
    c = s.con(R)
    pos = R.rd(4)
    n = R.count(4)
    bits = R.off
    gy = s.ctx.pile_size(c, GRAVE)
    deck = s.ctx.pile_size(c, MAIN)
    R.mask(n, gy, deck)
    R.skip(n)
    return 'SWAPGD', (c, pos, gy, deck, bits)


@msg(170, 'C15')
def match_kill(s, R, v):
    s.ctx.set_reason(R.rd(4))
    return SWALLOWED, None


@msg(2, 'C15')
def hint(s, R, v):
    R.skip(10)
    return SWALLOWED, None


@msg(160, 'C15')
def card_hint(s, R, v):
    R.skip(10 + 1 + 8)
    return SWALLOWED, None


@msg([1, 61, 63, 65, 74, 112, 113, 114], 'C15')
def nothing(s, R, v):
    return SWALLOWED, None


@msg(111, 'C15')
def battle(s, R, v):
    R.skip(2 * (10 + 9))
    return SWALLOWED, None


@msg(93, 'C15')
def equip(s, R, v):
    R.skip(20)
    return SWALLOWED, None


@msg(120, 'C15')
def missed_effect(s, R, v):
    R.skip(14)
    return SWALLOWED, None


@msg(163, 'C15')
def ai_name(s, R, v):
    R.skip(add(R.count(2), 1))
    return SWALLOWED, None


@msg(6, 'C18')
def update_data(s, R, v):
    c = s.con(R)
    l = zext(R.loc(1, False), 8, 32)
    return 'QUERIES', (c, l)


@msg(7, 'C18')
def update_card(s, R, v):
    p = s.info(R, 1, 1, 0)
    return 'QUERY', p


UNHANDLED = [22, 23, 142, 144]     # requests the encoder does not translate yet


# ------------------------------------------------------------------ query blobs
QUERIES = {    # flag -> (bytes, how to apply)
}


def q(flag, n):
    def d(f):
        QUERIES[flag] = (f.__name__, n, f)
        return f
    return d


def _scalar(flag, field, n, wid):
    def f(s, R, m):
        x = R.rd(n)
        if wid == 1:
            x = boolean(x)
        elif 8 * n != wid:
            x = zext(x, 8 * n, wid)
        return s.S.set(m, field, put(s, m, field, x))
    QUERIES[flag] = (field, n, f)


def put(s, m, field, x):
    """the property's message with its value set"""
    fd = s.S.fld(m.t, field)
    return s.S.set(s.S.rawget(m, field)[1], 'value', x)


for _f, _n, _b, _w in ((0x1, 'code', 4, 32), (0x2, 'position', 4, 32), (0x4, 'alias', 4, 32), (0x8, 'type', 4, 32), (0x10, 'level', 4, 32),
                       (0x20, 'xyz_rank', 4, 32), (0x40, 'attribute', 4, 32), (0x80, 'race', 8, 64), (0x100, 'atk', 4, 32), (0x200, 'def', 4, 32),
                       (0x400, 'base_atk', 4, 32), (0x800, 'base_def', 4, 32), (0x40000, 'owner', 1, 32), (0x80000, 'status', 4, 32),
                       (0x100000, 'is_public', 1, 1), (0x200000, 'pend_l_scale', 4, 32), (0x400000, 'pend_r_scale', 4, 32),
                       (0x1000000, 'is_hidden', 1, 1), (0x2000000, 'cover', 4, 32)):
    _scalar(_f, _n, _b, _w)


@q(0x4000, 10)
def equipped_to(s, R, m):
    return s.S.set(m, 'equipped_to', s.S.set(s.S.rawget(m, 'equipped_to')[1], 'value', s.info(R)))


@q(0x800000, 8)
def link(s, R, m):
    m = s.S.set(m, 'link_rate', put(s, m, 'link_rate', R.rd(4)))
    return s.S.set(m, 'link_arrow', put(s, m, 'link_arrow', R.rd(4)))


@q(0x8000, None)
def targets(s, R, m):
    old = s.S.rawget(m, 'targets')[1]
    return s.S.set(m, 'targets', s.S.set(old, 'values', s_cat(s.S.get(old, 'values'), s.places(R, R.count(4)))))


@q(0x20000, None)
def counters(s, R, m):
    def one(r):
        c = r.rd(4)
        return s.M('Counter', type=band(c, 0xffff), count=lshr(c, 16))
    old = s.S.rawget(m, 'counters')[1]
    return s.S.set(m, 'counters', s.S.set(old, 'values', s_cat(s.S.get(old, 'values'), R.list(R.count(4), 4, s.elt('Counter'), one))))


QEND, QOVERLAY = 0x80000000, 0x10000
