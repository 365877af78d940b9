"""C13: order, equality and kinds of places."""
import z3
from .base import *
from irv.val import *

PLACE = 'YGOpen::Proto::Duel::Place'
PILES = {'main deck': 0x1, 'hand': 0x2, 'graveyard': 0x10, 'banished': 0x20, 'extra deck': 0x40}
ZONES = {'monster zone': 0x4, 'spell zone': 0x8, 'field zone': 0x100, 'pendulum zone': 0x200, 'skill zone': 0x400}
ZONELIM = {0x4: 7, 0x8: 5, 0x100: 1, 0x200: 2, 0x400: 1}
FIELDS = ('con', 'loc', 'seq', 'oseq')


class C13(Check):
    prop = 'C13'
    quick_native_s = 2
    trusted = ['contracts of the generated protobuf accessors (irv/pb.py), taken from the .proto files']
    assumptions = ['a Place has the four fields con, loc, seq and oseq of duel_data.proto; its accessors return the stored values']
    explain = ('PlaceLess and operator== executed over their real IR on three fully symbolic places: irreflexive, asymmetric, transitive, '
               'incomparable exactly when all four fields are equal, and equality agrees. The kind functions on every defined location.')

    def native_build(self):
        return self.ctx.work.exe(['n_place.cpp'], 'n_place', pbs=('duel_data',))

    def units(self):
        self.schema = self.ctx.schema()
        self.mod = self.ctx.mod('place.cpp')
        return [('order and equality', self.order), ('kinds', self.kinds)]

    def engine(self):
        return self.ctx.engine(self.mod, stl.Chain(pbm.PbContracts(self.schema), stl.StlContracts(self.schema)))

    def order(self, r):
        S = self.schema
        E = self.engine()
        st = eng.State()
        names = 'abc'
        vals = [S.symbolic(PLACE, n) for n in names]
        ps = []
        for n, v in zip(names, vals):
            o = E.new_obj(st, 40, n)
            E.setv_raw(st, Ptr(o), 40, v)
            ps.append(Ptr(o))

        def run(fn, i, j):
            rets = E.call(st.copy(), fn, [ps[i], ps[j]])
            r.need_cover(len(rets) > 0, fn)
            t = None
            for s, v in rets:
                for q, x in zip(ps, vals):
                    E.oblige(s, 1 if E.getv(s, q) is x else 0, fn + ' changes no place', 'frame')
                c = z3.And(*s.pc) if s.pc else z3.BoolVal(True)
                t = tob(v) if t is None else z3.If(c, tob(v), t)
            return t
        L = {(i, j): run('d_less', i, j) for i in range(3) for j in range(3)}
        fe = lambda i, j: z3.And(*[bv(S.get(vals[i], f), 32) == bv(S.get(vals[j], f), 32) for f in FIELDS])
        o = lambda c, n: E.oblige(st, simpb(c), n, 'post')
        o(z3.Not(L[0, 0]), 'irreflexive')
        o(z3.Not(z3.And(L[0, 1], L[1, 0])), 'asymmetric')
        o(z3.Implies(z3.And(L[0, 1], L[1, 2]), L[0, 2]), 'transitive')
        o(z3.And(z3.Not(L[0, 1]), z3.Not(L[1, 0])) == fe(0, 1), 'equivalent exactly when con, loc, seq and oseq are equal')
        o(run('d_eq', 0, 1) == fe(0, 1), 'equality exactly when con, loc, seq and oseq are equal')
        o(run('d_eq', 0, 0), 'equality is reflexive')
        r.take(E, lambda m: {n: {f: str(m.eval(bv(S.get(v, f), 32), True)) for f in FIELDS} for n, v in zip(names, vals)})

    def kinds(self, r):
        S = self.schema
        E = self.engine()
        for v in ['LOCATION_' + x for x in ('UNSPECIFIED', 'MAIN_DECK')]:
            pass
        for name, loc in [('unspecified', 0)] + list(PILES.items()) + list(ZONES.items()):
            st = eng.State()
            o = E.new_obj(st, 40, 'p')
            sym = S.symbolic(PLACE, 'p').setk('loc', loc)
            E.setv_raw(st, Ptr(o), 40, sym)
            want = {'empty': loc == 0, 'pile': loc in PILES.values(), 'zone': loc in ZONES.values()}
            for k, w in want.items():
                for fn, a in (('d_' + k, loc), ('d_p' + k, Ptr(o))):
                    for s, x in E.call(st.copy(), fn, [a]):
                        E.oblige(s, eq(x, 1 if w else 0, 1), 'is_%s(%s) is %s' % (k, name, w), 'post')
        st = eng.State()
        o = E.new_obj(st, 40, 'p')
        p = S.symbolic(PLACE, 'p')
        E.setv_raw(st, Ptr(o), 40, p)
        for fn, f in (('d_con', 'con'), ('d_loc', 'loc')):
            for s, x in E.call(st.copy(), fn, [Ptr(o)]):
                E.oblige(s, eq(x, S.get(p, f), 32), 'get_%s returns the field' % f, 'post')
        r.take(E)


CHECKS = {'C13': C13}
