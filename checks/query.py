"""C12: a query updates the card it names (client/parse_query.hpp)."""
import z3
from .base import *
from irv.val import *
from .specs import *
from .encode import PLACE
from .encspec import bit
from .board import Log

QRY = 'YGOpen::Proto::Duel::Msg_Query'
DATA = QRY + '_Data'
COUNTER = 'YGOpen::Proto::Duel::Counter'
SCALARS = ('code', 'position', 'alias', 'type', 'level', 'xyz_rank', 'attribute', 'race', 'atk', 'def', 'base_atk', 'base_def', 'equipped_to', 'owner', 'status',
           'is_public', 'pend_l_scale', 'pend_r_scale', 'is_hidden', 'cover', 'link_rate', 'link_arrow')
LISTS = {'targets': PLACE, 'counters': COUNTER}
ASSIGN = 1
I32 = Elt('i', 32, None, 4)
PSIZE = 40


class C12(Check):
    prop = 'C12'
    trusted = ['protobuf accessor contracts (irv/pb.py)',
               'the frame is taken by contract: card(place) is the card at that place (C01), has_card holds for the place of the query',
               'the lists of the card are taken by contract: assign(first, last) replaces the whole list by the elements of the range (std::vector)']
    assumptions = ['there is a card at the place of the query']
    explain = ('parse_query runs over its real IR on the real BasicCard with the default traits, for a query with an arbitrary place, an arbitrary subset of the properties and arbitrary values, on a card with arbitrary properties; '
               'each property of the card is proved to be the carried value or unchanged, each list to be replaced as a whole exactly when carried, the card to be the one at the place of the query, '
               'and the hits to be exactly the carried scalar properties that were already equal (caching on) or none (off).')

    def native_build(self):
        return self.ctx.work.exe(['n_query.cpp'], 'n_query')

    def setup(self):
        self.S = self.ctx.schema()
        self.mod = self.ctx.mod('query.cpp')
        E = self.engine()
        st = eng.State()
        o = Ptr(E.new_obj(st, None, 'card'))
        self.off, self.sz, self.hit = {}, {}, {}
        for f in SCALARS + tuple(LISTS):
            r = E.call(st, 'd_at_' + f, [o])
            self.off[f] = r[0][1].off
            self.sz[f] = E.call(st, 'd_sz_' + f, [])[0][1]
            self.hit[f] = E.call(st, 'd_hit_' + f, [])[0][1]

    def units(self):
        self.setup()
        return [('the properties are apart', self.apart), ('caching off', lambda r: self.query(r, False)), ('caching on', lambda r: self.query(r, True))]

    def apart(self, r):
        """no two properties share their place in the card, or their hit"""
        E = self.engine()
        st = eng.State()
        fs = list(self.off)
        for i, a in enumerate(fs):
            E.oblige(st, self.hit[a] != 0, 'hit of %s' % a, 'post')
            for b in fs[:i]:
                E.oblige(st, self.off[a] + self.sz[a] <= self.off[b] or self.off[b] + self.sz[b] <= self.off[a], '%s and %s are different parts of the card' % (a, b), 'post')
                E.oblige(st, (self.hit[a] & self.hit[b]) == 0, '%s and %s have different hits' % (a, b), 'post')
        r.need_cover(len(fs) == 24, 'properties')
        r.take(E)

    def engine(self):
        S = self.S

        def c_card(E, st, a, ins):
            E.oblige(st, val_eq(S, E.getv(st, a[1]), self.place), 'the card is the one at the place of the query', 'post')
            return self.card

        def c_has_card(E, st, a, ins):
            return 1

        def which(E, st, p):
            for f in LISTS:
                if E.valid(st, ptr_eq(p, E.padd(st, self.card, self.off[f]))):
                    return f
            raise ToolLimit('an assignment to something else than a list of the card')

        def c_assign(E, st, a, ins):
            f = which(E, st, a[0])
            st.ghost['assign ' + f] = s_append(st.ghost['assign ' + f], ASSIGN)
            st.ghost[f] = s_empty(st.ghost[f].elt)

        def c_elt(E, st, a, ins):
            f = which(E, st, a[0])
            st.ghost[f] = s_append(st.ghost[f], E.getv(st, a[1]))
        named = stl.Named([(r'^c_card$', c_card), (r'^c_has_card$', c_has_card), (r'^c_assign$', c_assign), (r'^c_place$', c_elt), (r'^c_counter$', c_elt)])
        return self.ctx.engine(self.mod, stl.Chain(named, pbm.PbContracts(S), stl.StlContracts(S)))

    def query(self, r, cache):
        S = self.S
        E = self.engine()
        st = eng.State()
        q = S.symbolic(QRY, 'query')
        self.place = S.get(q, 'place')
        data = S.get(q, 'data')
        self.card = Ptr(E.new_obj(st, None, 'card'))
        frame = Ptr(E.new_obj(st, None, 'frame'))
        qp = Ptr(E.new_obj(st, None, 'query'))
        E.setv_raw(st, qp, 64, q)
        old = {}
        for f in SCALARS:
            p = E.padd(st, self.card, self.off[f])
            if f == 'equipped_to':
                old[f] = S.symbolic(PLACE, 'card.equipped_to')
                E.setv_raw(st, p, self.sz[f], old[f])
            else:
                w = 8 * self.sz[f]
                old[f] = z3.BitVec('card.' + f, w)
                if f.startswith('is_'):
                    st.assume(z3.ULT(old[f], 2))
                E.store(st, p, ('i', w), old[f])
        for f, c in LISTS.items():
            st.ghost['assign ' + f] = s_empty(I32)
            old[f] = st.ghost[f] = S.rawget(S.symbolic(DATA + '_Q' + f.capitalize(), 'card'), 'values')
        res = E.call(st, 'd_query_cache' if cache else 'd_query', [frame, qp])
        r.need_cover(bool(res), 'an execution')
        for s, hits in res:
            want = 0
            for f in SCALARS:
                p = E.padd(s, self.card, self.off[f])
                has = S.has(data, f)
                new = S.get(S.get(data, f), 'value')
                if f == 'equipped_to':
                    got = E.getv(s, p)
                    t = s.copy(); t.assume(tob(has))
                    prove_msg(E, S, t, got, new, 'equipped_to is what the query carries')
                    t = s.copy(); t.assume(tob(b_not(has)))
                    prove_msg(E, S, t, got, old[f], 'equipped_to is unchanged')
                    same = True
                    for k in ('con', 'loc', 'seq', 'oseq'):
                        same = b_and(same, eq(S.get(old[f], k), S.get(new, k), 32))
                else:
                    w = 8 * self.sz[f]
                    got = E.load(s, p, ('i', w))
                    v = self.conv(S, f, new, w)
                    E.oblige(s, eq(got, ite(has, v, old[f], w), w), '%s is what the query carries, or else unchanged' % f, 'post')
                    same = eq(old[f], v, w)
                if cache:
                    want = add(want, ite(b_and(has, same), self.hit[f], 0, 64), 64)
            E.oblige(s, eq(hits, want, 64), 'the hits', 'post')
            for f in LISTS:
                has = S.has(data, f)
                new = S.rawget(S.get(data, f), 'values')
                for h, w, n in ((has, new, 'replaced by the one of the query'), (b_not(has), old[f], 'unchanged')):
                    t = s.copy()
                    t.assume(tob(h))
                    if E.feasible(t):
                        prove_seq(E, S, t, s.ghost[f], w, '%s: %s' % (f, n))
        r.take(E)

    def conv(self, S, f, v, w):
        if isinstance(v, bool) or (not isc(v) and z3.is_bool(v)):
            return ite(v, 1, 0, w)
        n = v.size() if not isc(v) else w
        if n == w:
            return v
        if n < w:
            raise ToolLimit('%s: %d to %d bits' % (f, n, w))
        return trunc(v, n, w)


CHECKS = {'C12': C12}
