"""C24: the encoding context (server/basic_encode_context.hpp)."""
import re
import z3
from .base import *
from irv.val import *
from irv.maps import Maps
from .specs import *
from .frame import FrameModel, PILE_KEYS, ZONE_KEYS, PILES, ZONES, Slot, NAMES
from .encode import PLACE

MSG = 'YGOpen::Proto::Duel::Msg'
LESS = 'YGOpen::Proto::Duel::PlaceLess'
I32 = Elt('i', 32, None, 4)
PELT = Elt('msg', 64, PLACE, 40)


class Model(FrameModel):
    def __init__(self, ctx):
        self.maps = Maps(ctx.schema(), (LESS,))
        self.maps.types = {}

        def parsed(kind):
            def f(E, st, a, ins):
                if kind == 'event':
                    where, v = self.board, E.getv(st, a[1])
                    E.oblige(st, ptr_eq(a[0], where), 'the event is applied to the board of the context', 'post')
                    st.ghost['event'] = s_append(st.ghost['event'], v)
                    st.ghost['event after'] = s_append(st.ghost['event after'], trunc(st.ghost['query'].len, 64, 32))
                    return None
                E.oblige(st, ptr_eq(a[0], self.frame), 'the query is applied to the frame of the board', 'post')
                st.ghost['query'] = s_append(st.ghost['query'], E.getv(st, a[1]))
                return 0
            return f
        super().__init__(ctx, 'context.cpp', [(r'YGOpen::Client::parse_event<', parsed('event')), (r'YGOpen::Client::parse_query<', parsed('query'))])
        E = self.engine()
        self.board = self.one(E, 'd_board', [self.f])
        self.frame = self.one(E, 'd_frame', [self.f])

    def contracts(self, extra=None):
        return stl.Chain(self.maps, super().contracts(extra))

    def ghost0(self, st):
        super().ghost0(st)
        S = self.S
        st.ghost['event'] = s_empty(Elt('msg', 64, MSG + '_Event', 64))
        st.ghost['event after'] = s_empty(I32)
        st.ghost['query'] = s_empty(Elt('msg', 64, MSG + '_Query', 64))

    def symbolic(self, E):
        st, F = super().symbolic(E)
        # the rest of the context is arbitrary too
        o = st.mem[self.f.obj]
        mapo = [c[1].obj for off, c in o.cells.items() if c[0] == 48 and isinstance(c[1], Ptr) and c[1].obj in self.maps.types]
        self.parts = []
        for n, m in enumerate(mapo):
            E.setv_raw(st, Ptr(m, 0), 8, self.maps.arbitrary(*self.maps.types[m], name='map%d' % n))
            self.parts.append('map')
        for off, c in sorted(o.cells.items()):
            if isc(c[1]) and isinstance(c[1], int) and c[0] in (1, 2, 4, 8):
                E.store(st, Ptr(self.f.obj, off), ('i', 8 * c[0]), z3.BitVec('field%d' % off, 8 * c[0]))
                self.parts.append('number')
            elif isinstance(c[1], Ptr) and c[1].obj not in mapo:
                v = st.mem[c[1].obj].cells.get(0)
                if v is not None and isinstance(v[1], Seq) and v[1].elt.kind == 'msg' and v[1].elt.name == PLACE:
                    E.setv(st, Ptr(c[1].obj, 0), self.places(st, 'places%d' % off))
                    self.parts.append('places')
        return st, F

    def places(self, st, name):
        S = self.S
        n = z3.BitVec('len ' + name, 64)
        st.assume(z3.ULT(n, bv(1 << 31, 64)))
        return SBase(PELT, name, n, lambda i: S.symbolic(PLACE, name, (i,)))


class C24(Check):
    prop = 'C24'
    trusted = ['contracts of std::map (irv/maps.py), std::vector and protobuf messages',
               'parse_event and parse_query are taken by contract: they change the board or frame they are given as C10 and C12 say, and nothing else']
    assumptions = ['a place asked about is a place of the field']
    explain = ('from an arbitrary state of the context each of its operations runs over its real IR, between runs of all the questions it answers; '
               'what is proved is how each operation changes each answer: an origin recorded for one place changes the answer for that place only, deferring appends to the list, taking gives and empties it, '
               'and parsing hands the event and then each query once to the board. Pile sizes and materials are proved to be those of the board, for each pile and zone.')

    def native_build(self):
        return self.ctx.work.exe(['n_context.cpp'], 'n_context')

    def units(self):
        self.S = self.ctx.schema()
        self.M = Model(self.ctx)
        us = [('places in the order of the map', self.order), ('nothing recorded yet', self.initial), ('parsing', self.parsing)]
        us += [('piles', self.piles), ('materials', self.materials)]
        us += [(n, lambda r, n=n: self.op(r, n)) for n in ('match_win_reason', 'xyz_mat_defer', 'take_deferred_xyz_mat', 'xyz_left', 'parse')]
        return us

    # ------------------------------------------------------------ asking
    def place(self, E, st, name, v=None):
        v = v if v is not None else self.S.symbolic(PLACE, name)
        o = Ptr(E.new_obj(st, 40, name))
        E.setv_raw(st, o, 40, v)
        return o, v

    def pkey(self, v):
        return [self.S.get(v, k) for k in ('con', 'loc', 'seq', 'oseq')]

    def same(self, a, b):
        c = True
        for x, y in zip(self.pkey(a), self.pkey(b)):
            c = b_and(c, eq(x, y, 32))
        return c

    def ask_left(self, E, st, p):
        """(state, answer) for each way of asking for the origin of p"""
        out = []
        for s, _ in [(st, None)]:
            o = Ptr(E.new_obj(s, 40, 'answer'))
            for t, _ in E.call(s, 'c_get_left', [o, self.M.f, p]):
                out.append((t, E.getv(t, o)))
        return out

    def ask_win(self, E, st):
        return E.call(st, 'c_get_win', [self.M.f])

    def take(self, E, st):
        out = []
        o = Ptr(E.new_obj(st, 24, 'taken'))
        for t, _ in E.call(st, 'c_take', [o, self.M.f]):
            out.append((t, E.getv(t, stl.vec_ptr(E, t, o))))
        return out

    # ------------------------------------------------------------ units
    def order(self, r):
        E = self.M.engine()
        st, F = self.M.symbolic(E)
        a, av = self.place(E, st, 'a')
        b, bv_ = self.place(E, st, 'b')
        res = E.call(st, 'd_less', [a, b])
        for s, x in res:
            for t, y in E.call(s, 'd_less', [b, a]):
                E.oblige(t, b_or(b_and(b_not(tobit(x)), b_not(tobit(y))) if False else b_not(b_or(tobit(x), tobit(y))), b_not(self.same(av, bv_))), 'equal places are not ordered', 'post')
                E.oblige(t, b_or(b_or(tobit(x), tobit(y)), self.same(av, bv_)), 'different places are ordered', 'post')
                E.oblige(t, b_not(b_and(tobit(x), tobit(y))), 'not both ways', 'post')
        r.need_cover(bool(res), 'an execution')
        r.take(E)

    def initial(self, r):
        E = self.M.engine()
        st = self.M.base.copy()
        self.M.ghost0(st)
        n = 0
        p, pv = self.place(E, st, 'p')
        for s, v in self.ask_left(E, st, p):
            prove_msg(E, self.S, s, v, pv, 'the origin of a place nothing was recorded for is the place')
            for t, w in self.ask_win(E, s):
                E.oblige(t, eq(w, 0, 32), 'no match win reason yet', 'post')
                for u, l in self.take(E, t):
                    E.oblige(u, eq(l.len, 0, 64), 'nothing is deferred', 'post')
                    n += 1
        r.need_cover(n > 0, 'an execution')
        r.take(E)

    def piles(self, r):
        E = self.M.engine()
        for c, l in PILE_KEYS:
            st, F = self.M.symbolic(E)
            for s, n in E.call(st, 'c_pile_size', [self.M.f, c, l]):
                E.oblige(s, eq(n, F.piles[c, l].len, 64), 'size of the %s of player %d' % (NAMES[l], c), 'post')
        r.need_cover(True, 'piles')
        r.take(E)

    def materials(self, r):
        E = self.M.engine()
        for c, l, q in ZONE_KEYS:
            st, F = self.M.symbolic(E)
            v = self.S.make(PLACE, con=c, loc=l, seq=q, oseq=z3.BitVec('oseq', 32))
            p, _ = self.place(E, st, 'p', v)
            for s, n in E.call(st, 'c_has', [self.M.f, p]):
                E.oblige(s, eq_bool(n, b_not(eq(F.mats[c, l, q].len, 0, 64))), 'materials of %s' % Slot('zone', c, l, q), 'post')
        r.need_cover(True, 'zones')
        r.take(E)

    def msg(self):
        return self.S.symbolic(MSG, 'msg')

    def parsing(self, r):
        S = self.S
        E = self.M.engine()
        st, F = self.M.symbolic(E)
        m = self.msg()
        p = Ptr(E.new_obj(st, None, 'msg'))
        E.setv_raw(st, p, 64, m)
        res = E.call(st, 'c_parse', [self.M.f, p])
        r.need_cover(bool(res), 'an execution')
        is_event = S.has(m, 'event')
        for s, _ in res:
            for c, n in ((is_event, 1), (b_not(is_event), 0)):
                t = s.copy()
                t.assume(tob(c))
                if not E.feasible(t):
                    continue
                ev = t.ghost['event']
                prove_seq(E, S, t, ev, SList(ev.elt, [S.get(m, 'event')] if n else []), 'the event' if n else 'a message without an event')
                prove_seq(E, S, t, t.ghost['event after'], SList(I32, [0] if n else []), 'the event comes before the queries')
                prove_seq(E, S, t, t.ghost['query'], S.rawget(m, 'queries'), 'each query once, in order')
        r.take(E)

    def op(self, r, name):
        """how an operation changes each answer"""
        S = self.S
        M = self.M
        E = M.engine()
        st, F = M.symbolic(E)
        r.need_cover({'map', 'number', 'places'} <= set(M.parts), 'the context keeps a map, a number and a list')
        p, pv = self.place(E, st, 'p')
        q, qv = self.place(E, st, 'q')
        k, kv = self.place(E, st, 'k')
        W = z3.BitVec('reason', 32)
        mp = Ptr(E.new_obj(st, None, 'msg'))
        E.setv_raw(st, mp, 64, self.msg())
        calls = {'match_win_reason': ('c_win', [M.f, W]), 'xyz_mat_defer': ('c_defer', [M.f, p]), 'xyz_left': ('c_left', [M.f, p, q]), 'parse': ('c_parse', [M.f, mp])}

        def run(s):
            if name == 'take_deferred_xyz_mat':
                return self.take(E, s)
            return E.call(s, *calls[name])
        n = 0
        # the origin of a place
        for s, before in self.ask_left(E, st.copy(), k):
            for t, _ in run(s):
                for u, after in self.ask_left(E, t, k):
                    n += 1
                    if name == 'xyz_left':
                        c = self.same(kv, pv)
                        for x, want, what in ((c, qv, 'the origin recorded for a place is what it was given'), (b_not(c), before, 'the origins of other places stay')):
                            w = u.copy()
                            w.assume(tob(x))
                            if E.feasible(w):
                                prove_msg(E, S, w, after, want, what)
                    else:
                        prove_msg(E, S, u, after, before, 'the origins stay')
        # the reason
        for s, before in self.ask_win(E, st.copy()):
            for t, _ in run(s):
                for u, after in self.ask_win(E, t):
                    n += 1
                    E.oblige(u, eq(after, W if name == 'match_win_reason' else before, 32), 'the match win reason', 'post')
        # the list
        for s, before in self.take(E, st.copy()):
            pass
            for t, got in run(st.copy()):
                if name == 'take_deferred_xyz_mat':
                    prove_seq(E, S, t, got, before, 'taking gives the same list')
                for u, after in self.take(E, t):
                    n += 1
                    want = s_append(before, pv) if name == 'xyz_mat_defer' else s_empty(before.elt) if name == 'take_deferred_xyz_mat' else before
                    prove_seq(E, S, u, after, want, 'the deferred places')
        r.need_cover(n > 0, 'an execution')
        # the board
        for t, _ in run(st.copy()):
            G = M.read(E, t)
            for d, what in (('piles', 'pile'), ('mats', 'materials')):
                for key, v in getattr(F, d).items():
                    prove_seq(E, S, t, getattr(G, d)[key], v, 'the board is not touched')
            for key, v in F.cards.items():
                E.oblige(t, val_eq(S, G.cards[key], v), 'the board is not touched', 'post')
        r.take(E)


def tobit(x):
    return x if isc(x) or z3.is_bool(x) else from_bv(x)


def from_bv(x):
    return x != 0


def eq_bool(a, b):
    a = tobit(a)
    return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))


CHECKS = {'C24': C24}
