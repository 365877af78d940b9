"""C01 to C07: the duel field (client/frame.hpp)."""
import z3
from .base import *
from irv.val import *
from .specs import *
from .place import PLACE, PILES, ZONES, ZONELIM

PILE_KEYS = [(c, l) for c in (0, 1) for l in PILES.values()]
ZONE_KEYS = [(c, l, s) for c in (0, 1) for l in ZONES.values() for s in range(ZONELIM[l])]
NAMES = {v: k for d in (PILES, ZONES) for k, v in d.items()}
MAXLEN = 1 << 31


def nz(t):
    """any non-null address"""
    return z3.If(t == 0, bv(1, 64), t)


class Slot:
    """shape of a place: ('pile', con, loc) or ('zone', con, loc, seq) or ('mat', con, loc, seq)"""

    def __init__(self, kind, con, loc, seq=None):
        self.kind = kind; self.con = con; self.loc = loc; self.zseq = seq

    def __str__(self):
        return '%s of player %d%s%s' % (NAMES[self.loc], self.con, '' if self.zseq is None else ' #%d' % self.zseq, ' material' if self.kind == 'mat' else '')

    @property
    def key(self):
        return (self.con, self.loc) if self.kind == 'pile' else (self.con, self.loc, self.zseq)


SLOTS = [Slot('pile', c, l) for c, l in PILE_KEYS] + [Slot(k, c, l, s) for c, l, s in ZONE_KEYS for k in ('zone', 'mat')]


class Field:
    """abstract field: sequences of cards and zone cards"""

    def __init__(self, piles, cards, mats):
        self.piles = piles; self.cards = cards; self.mats = mats

    def copy(self):
        return Field(dict(self.piles), dict(self.cards), dict(self.mats))

    # --- the executable specification -------------------------------------------------
    def has(self, s, i):
        """does the place (slot s, index i) hold a card?"""
        if s.kind == 'pile':
            return ult(i, self.piles[s.key].len)
        if s.kind == 'zone':
            return b_not(eq(self.cards[s.key], 0))
        return ult(i, self.mats[s.key].len)

    def at(self, s, i):
        if s.kind == 'pile':
            return self.piles[s.key].at(i)
        if s.kind == 'zone':
            return self.cards[s.key]
        return self.mats[s.key].at(i)

    def can_insert(self, s, i):
        if s.kind == 'pile':
            return ule(i, self.piles[s.key].len)
        if s.kind == 'zone':
            return eq(self.cards[s.key], 0)
        return ule(i, self.mats[s.key].len)

    def insert(self, s, i, c):
        if s.kind == 'pile':
            q = self.piles[s.key]
            self.piles[s.key] = s_insert(q, i, SList(q.elt, [c]))
        elif s.kind == 'zone':
            self.cards[s.key] = c
        else:
            q = self.mats[s.key]
            self.mats[s.key] = s_insert(q, i, SList(q.elt, [c]))

    def erase(self, s, i):
        c = self.at(s, i)
        if s.kind == 'pile':
            self.piles[s.key] = s_erase(self.piles[s.key], i, 1)
        elif s.kind == 'zone':
            self.cards[s.key] = 0
        else:
            self.mats[s.key] = s_erase(self.mats[s.key], i, 1)
        return c

    def put(self, s, i, c):
        if s.kind == 'pile':
            self.piles[s.key] = s_update(self.piles[s.key], i, c)
        elif s.kind == 'zone':
            self.cards[s.key] = c
        else:
            self.mats[s.key] = s_update(self.mats[s.key], i, c)


def card_contracts():
    """construct_card / destruct_card under contract (their bodies are verified in C07)"""
    def construct(eng, st, a, ins):
        c = nz(eng.fresh('newcard', 64))
        st.ghost['new'] = s_append(st.ghost['new'], c)
        return c

    def destruct(eng, st, a, ins):
        st.ghost['del'] = s_append(st.ghost['del'], a[1])
        return None
    return [(r'::construct_card\(\)$', construct), (r'::destruct_card\(Card&\)$', destruct)]


class FrameModel:
    """the layout of a frame class, found by running its own accessors, and symbolic frames of it"""
    pre = 'd_'

    def __init__(self, ctx, src='frame.cpp', extra=()):
        self.ctx = ctx
        self.S = ctx.schema()
        self.mod = ctx.mod(src)
        self.extra = list(extra)
        E = self.engine()
        st = eng.State()
        f = E.new_obj(st, None, 'frame')
        self.ghost0(st)
        r = E.call(st, 'd_ctor', [Ptr(f)])
        if len(r) != 1:
            raise ToolLimit('constructor')
        self.f = Ptr(f)
        self.base = r[0][0]
        self.oid = E.oid
        self.pile = {}
        self.zcard = {}
        self.zmats = {}
        for c, l in PILE_KEYS:
            self.pile[c, l] = self.one(E, 'd_pile', [self.f, c, l])
        for k in ZONE_KEYS:
            z = self.one(E, 'd_zone', [self.f, *k])
            self.zcard[k] = self.one(E, 'd_zcard', [z])
            self.zmats[k] = self.one(E, 'd_zmats', [z])
        self.distinct = len({(p.obj, p.off) for d in (self.pile, self.zcard, self.zmats) for p in d.values()}) == len(self.pile) + 2 * len(self.zcard)
        self.gobj, self.gstate = E.gobj, E.gstate

    def ghost0(self, st):
        st.ghost['new'] = s_empty(PTRELT)
        st.ghost['del'] = s_empty(PTRELT)

    def one(self, E, fn, a):
        r = E.call(self.base, fn, a)
        if len(r) != 1 or not isinstance(r[0][1], Ptr):
            raise ToolLimit('%s gives %r' % (fn, [x[1] for x in r]))
        return r[0][1]

    def contracts(self, extra=None):
        return stl.Chain(stl.Named((self.extra if extra is None else extra) + card_contracts()), pbm.PbContracts(self.S), stl.StlContracts(self.S))

    def engine(self, extra=None):
        E = self.ctx.engine(self.mod, self.contracts(extra))
        if hasattr(self, 'oid'):
            E.oid = self.oid + 1000
            E.gobj = dict(self.gobj); E.gstate = dict(self.gstate)
        return E

    def symbolic(self, E):
        """(state, Field): an arbitrary frame"""
        st = self.base.copy()
        if not self.distinct:
            E.oblige(st, 0, 'different places have different storage', 'post')
            raise eng.Infeasible()
        self.ghost0(st)
        F = Field({}, {}, {})
        own = set()

        def seq(name):
            ln = z3.BitVec('len_' + name, 64)
            st.assume(z3.ULT(ln, bv(MAXLEN, 64)))
            fn = z3.Function('at_' + name, z3.BitVecSort(64), z3.BitVecSort(64))
            return SBase(PTRELT, name, ln, lambda i: nz(fn(bv(i, 64))))

        def fill(p, name):
            v = stl.vec_ptr(E, st, p)
            own.add(v.obj)
            s = seq(name)
            E.setv(st, v, s)
            return s
        for k, p in self.pile.items():
            F.piles[k] = fill(p, 'pile_%d_%x' % k)
        for k, p in self.zmats.items():
            F.mats[k] = fill(p, 'mats_%d_%x_%d' % k)
        for k, p in self.zcard.items():
            c = z3.BitVec('card_%d_%x_%d' % k, 64)
            E.setv_raw(st, p, 8, c)
            F.cards[k] = c
        # everything else the frame keeps (scratch buffers) is arbitrary
        for o, ob in list(st.mem.items()):
            if o in own:
                continue
            c = ob.cells.get(0)
            if c is not None and isinstance(c[1], Seq) and c[1].elt.kind in ('p', 'i') and len(ob.cells) == 1:
                E.setv(st, Ptr(o, 0), self.scratch(E, st, c[1], o))
        return st, F

    def scratch(self, E, st, s, o):
        ln = z3.BitVec('len_scratch%d' % o, 64)
        st.assume(z3.ULT(ln, bv(MAXLEN, 64)))
        fn = z3.Function('at_scratch%d' % o, z3.BitVecSort(64), z3.BitVecSort(s.elt.w))
        return SBase(s.elt, 'scratch', ln, lambda i: fn(bv(i, 64)))

    def place(self, E, st, s, name):
        """a place of shape s: (pointer, index as 64 bit value)"""
        p = MsgVal(PLACE).set(con=s.con, loc=s.loc)
        if s.kind == 'pile':
            q = z3.BitVec(name + '_seq', 32)
            o = z3.BitVec(name + '_oseq', 32)
            st.assume(o < 0)
            i = zext(q, 32, 64)
        else:
            q = s.zseq
            o = z3.BitVec(name + '_oseq', 32)
            if s.kind == 'zone':
                st.assume(o < 0)
                i = 0
            else:
                st.assume(o >= 0)
                i = sext(o, 32, 64)
        p = p.set(seq=q, oseq=o)
        ob = E.new_obj(st, 40, name)
        E.setv_raw(st, Ptr(ob), 40, p)
        return Ptr(ob), i

    def read(self, E, st):
        F = Field({}, {}, {})
        for k, p in self.pile.items():
            F.piles[k] = stl.vec_seq(E, st, p)
        for k, p in self.zmats.items():
            F.mats[k] = stl.vec_seq(E, st, p)
        for k, p in self.zcard.items():
            F.cards[k] = E.load(st, p, ('ptr',))
        return F

    def prove_field(self, E, st, want, what, kind='post'):
        got = self.read(E, st)
        n = 0
        for k in self.pile:
            if got.piles[k] is want.piles[k]:
                n += 1
                continue
            prove_seq(E, self.S, st, got.piles[k], want.piles[k], '%s: %s' % (what, Slot('pile', *k)), kind)
        for k in self.zmats:
            if got.mats[k] is want.mats[k]:
                n += 1
            else:
                prove_seq(E, self.S, st, got.mats[k], want.mats[k], '%s: materials of %s' % (what, Slot('zone', *k)), kind)
            if got.cards[k] is want.cards[k]:
                n += 1
            else:
                E.oblige(st, val_eq(self.S, got.cards[k], want.cards[k]), '%s: card of %s' % (what, Slot('zone', *k)), kind)
        if n:
            E.oblige(st, 1, '%s: %d other slots are unchanged' % (what, n), 'frame')

    def prove_log(self, E, st, new, dele, what):
        """exactly these cards are created / destroyed"""
        E.oblige(st, eq(st.ghost['new'].len, new), what + ': number of cards built', 'post')
        prove_seq(E, self.S, st, st.ghost['del'], dele, what + ': cards destroyed', 'post')


def wit(m):
    """readable witness"""
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            out[d.name()] = str(m[d])
    return out


class FrameCheck(Check):
    trusted = ['std::vector, std::array, std::swap and iterator contracts (irv/stl.py)', 'contracts of the generated protobuf accessors (irv/pb.py)']
    assumptions = ['pile and material stack sizes are below 2^31', 'places are valid: controller 0 or 1, a defined location, sequence within the row, overlay index negative except for materials',
                   'cards stored in piles and material stacks are non-null (the frame never stores a null card there)',
                   'memory allocation succeeds']

    def native_build(self):
        return self.ctx.work.exe(['n_frame.cpp'], 'n_frame', pbs=('duel_data',))

    def native_args(self, seconds, seed):
        return [seed, seconds, 0, self.prop]

    def units(self):
        self.M = FrameModel(self.ctx)
        return self.mk_units()

    def guard(self, r, E, st):
        r.need_cover(E.feasible(st), 'precondition satisfiable')


class C01(FrameCheck):
    prop = 'C01'
    explain = ('The accessors are run for all 10 piles and 32 zones; pointers returned are compared for aliasing, by controller and location, by place, const and mutable. '
               'has_card and card run on an arbitrary frame for every shape of place with symbolic indices.')

    def mk_units(self):
        us = [('addresses', self.addresses)]
        for n in range(0, len(SLOTS), 10):
            us.append(('has_card and card %d' % n, lambda r, n=n: [self.lookup(r, s) for s in SLOTS[n:n + 10]]))
        return us

    def addresses(self, r):
        M = self.M
        E = M.engine()
        st = M.base
        seen = {}

        def reg(p, what, size):
            for q, (w, sz) in seen.items():
                E.oblige(st, 1 if p.obj != q[0] or p.off + size <= q[1] or q[1] + sz <= p.off else 0, '%s and %s do not overlap' % (what, w), 'post')
            seen[p.obj, p.off] = (what, size)
        for s in SLOTS:
            if s.kind == 'mat':
                continue
            nm = 'pile' if s.kind == 'pile' else 'zone'
            ob = E.new_obj(st, 40, 'p')
            for o in (0xFFFFFFFF, 0):
                E.setv_raw(st, Ptr(ob), 40, MsgVal(PLACE).set(con=s.con, loc=s.loc, seq=s.zseq or 0, oseq=o))
                a = list(s.key)
                ps = [self.M.one(E, 'd_' + nm, [M.f] + a), self.M.one(E, 'd_%s_c' % nm, [M.f] + a), self.M.one(E, 'd_%s_p' % nm, [M.f, Ptr(ob)]), self.M.one(E, 'd_%s_pc' % nm, [M.f, Ptr(ob)])]
                for p in ps[1:]:
                    E.oblige(st, ptr_eq(ps[0], p), 'mutable, const and by-place views of %s agree' % s, 'post')
            E.oblige(st, 1 if ps[0].obj == M.f.obj else 0, '%s is part of the frame' % s, 'post')
            reg(ps[0], str(s), 24 if nm == 'pile' else 32)
        for l, n in ZONELIM.items():
            for s, v in E.call(st, 'd_lim', [l]):
                E.oblige(s, eq(v, n), 'zone_seq_lim(%s) is %d' % (NAMES[l], n), 'post')
        r.need_cover(True, 'accessors return')
        r.take(E)

    def lookup(self, r, s):
        M = self.M
        E = M.engine()
        st, F = M.symbolic(E)
        p, i = M.place(E, st, s, 'p')
        self.guard(r, E, st)
        rets = E.call(st.copy(), 'd_has', [M.f, p])
        r.need_cover(len(rets) > 0, 'has_card returns')
        for s2, v in rets:
            E.oblige(s2, eq(v, F.has(s, i), 1), 'has_card tells whether %s is occupied' % s, 'post')
            M.prove_field(E, s2, F, 'has_card(%s)' % s, 'frame')
        if not isc(F.has(s, i)):
            st.assume(F.has(s, i))
        self.guard(r, E, st)
        for fn in ('d_card', 'd_card_c'):
            rets = E.call(st.copy(), fn, [M.f, p])
            r.need_cover(len(rets) > 0, 'card returns')
            for s2, v in rets:
                E.oblige(s2, val_eq(None, v, F.at(s, i)), 'card(%s) is the card stored there' % s, 'post')
                M.prove_field(E, s2, F, 'card(%s)' % s, 'frame')
        r.take(E, wit)


class C02(FrameCheck):
    prop = 'C02'
    explain = 'card_add and card_remove on an arbitrary frame, for each of the 74 shapes of place (10 piles, 32 zones, 32 material stacks) with symbolic index, against insert/erase of the abstract field; all other slots unchanged.'

    def mk_units(self):
        return [('add and remove %d' % n, lambda r, n=n: [self.op(r, s) for s in SLOTS[n:n + 10]]) for n in range(0, len(SLOTS), 10)]

    def op(self, r, s):
        M = self.M
        E = M.engine()
        st0, F0 = M.symbolic(E)
        p, i = M.place(E, st0, s, 'p')
        st, F = st0.copy(), F0.copy()
        st.assume(F.can_insert(s, i))
        self.guard(r, E, st)
        rets = E.call(st, 'd_add', [M.f, p])
        r.need_cover(len(rets) > 0, 'card_add returns')
        for s2, v in rets:
            W = F.copy()
            W.insert(s, i, v)
            M.prove_field(E, s2, W, 'card_add at %s' % s)
            M.prove_log(E, s2, 1, s_empty(PTRELT), 'card_add at %s' % s)
            E.oblige(s2, val_eq(None, s2.ghost['new'].at(0), v), 'card_add returns the card it built', 'post')
        st, F = st0.copy(), F0.copy()
        st.assume(F.has(s, i))
        self.guard(r, E, st)
        rets = E.call(st, 'd_remove', [M.f, p])
        r.need_cover(len(rets) > 0, 'card_remove returns')
        for s2, v in rets:
            W = F.copy()
            c = W.erase(s, i)
            M.prove_field(E, s2, W, 'card_remove at %s' % s)
            M.prove_log(E, s2, 0, SList(PTRELT, [c]), 'card_remove at %s' % s)
        r.take(E, wit)


class PairCheck(FrameCheck):
    def mk_units(self):
        # by first place; the pairs of each are run in one unit
        return [('%s: first place %s' % (self.opname, s), lambda r, s=s: self.first(r, s)) for s in SLOTS]

    def first(self, r, a):
        M = self.M
        E = M.engine()
        st0, F0 = M.symbolic(E)
        pa, ia = M.place(E, st0, a, 'a')
        cov = False
        for b in SLOTS:
            st = st0.copy()
            pb, ib = M.place(E, st, b, 'b')
            cov = self.pair(r, E, st, F0, a, pa, ia, b, pb, ib) or cov
            r.take(E, wit)
        r.need_cover(cov, '%s from %s' % (self.opname, a))


class C03(PairCheck):
    prop = 'C03'
    opname = 'card_move'
    explain = 'card_move on an arbitrary frame for all 74 x 74 shapes of place pairs with symbolic indices: the result is the erase of the first followed by the insert of the same card at the second (and, between two zones, of the materials).'

    def pair(self, r, E, st, F, a, pa, ia, b, pb, ib):
        M = self.M
        what = 'card_move from %s to %s' % (a, b)
        st.assume(F.has(a, ia))
        W = F.copy()
        c = W.erase(a, ia)
        if a.kind == 'zone' and b.kind == 'zone':
            m = W.mats[a.key]
            if a.key == b.key:
                return False
            st.assume(eq(W.mats[b.key].len, 0))
            W.mats[a.key], W.mats[b.key] = W.mats[b.key], m
        st.assume(W.can_insert(b, ib))
        W.insert(b, ib, c)
        if not E.feasible(st):
            return False
        rets = E.call(st, 'd_move', [M.f, pa, pb])
        for s2, v in rets:
            M.prove_field(E, s2, W, what)
            E.oblige(s2, val_eq(None, v, c), what + ': returns the card moved', 'post')
            M.prove_log(E, s2, 0, s_empty(PTRELT), what)
        return len(rets) > 0


class C04(PairCheck):
    prop = 'C04'
    opname = 'card_swap'
    explain = 'card_swap on an arbitrary frame for all 74 x 74 shapes of place pairs with symbolic indices: the two cards (and the material stacks, between two zones) are exchanged, and nothing else changes.'

    def pair(self, r, E, st, F, a, pa, ia, b, pb, ib):
        M = self.M
        what = 'card_swap of %s and %s' % (a, b)
        st.assume(F.has(a, ia))
        st.assume(F.has(b, ib))
        # documented: no swap of a card with materials with one outside of the zones
        for x, y in ((a, b), (b, a)):
            if x.kind == 'zone' and y.kind == 'pile':
                st.assume(eq(F.mats[x.key].len, 0))
        if not E.feasible(st):
            return False
        W = F.copy()
        x, y = F.at(a, ia), F.at(b, ib)
        W.put(a, ia, y)
        W.put(b, ib, x)
        if a.kind == 'zone' and b.kind == 'zone':
            W.mats[a.key], W.mats[b.key] = F.mats[b.key], F.mats[a.key]
        rets = E.call(st, 'd_swap', [M.f, pa, pb])
        for s2, v in rets:
            M.prove_field(E, s2, W, what)
            M.prove_log(E, s2, 0, s_empty(PTRELT), what)
        return len(rets) > 0


class C06(FrameCheck):
    prop = 'C06'
    explain = 'pile_resize for all piles with symbolic size and count (loops by inductive summary), pile_splice for all 10 x 10 pairs of piles with symbolic start, count, destination index and direction, pile_swap for all pairs.'

    def mk_units(self):
        ps = [s for s in SLOTS if s.kind == 'pile']
        us = [('resize of %s' % s, lambda r, s=s: self.resize(r, s)) for s in ps]
        us += [('splice from %s' % s, lambda r, s=s: [self.splice(r, s, t) for t in ps]) for s in ps]
        us += [('swap of %s' % s, lambda r, s=s: [self.swap(r, s, t) for t in ps]) for s in ps]
        return us

    def resize(self, r, s):
        M = self.M
        E = M.engine()
        st, F = M.symbolic(E)
        p, i = M.place(E, st, s, 'p')
        n = z3.BitVec('count', 64)
        st.assume(z3.ULT(n, bv(MAXLEN, 64)))
        old = F.piles[s.key]
        what = 'pile_resize of %s' % s
        for case, c in (('grow', z3.UGE(n, old.len)), ('shrink', z3.ULT(n, old.len))):
            st2 = st.copy()
            st2.assume(c)
            self.guard(r, E, st2)
            rets = E.call(st2, 'd_resize', [M.f, p, n])
            r.need_cover(len(rets) > 0, what + ' returns')
            for s2, v in rets:
                W = F.copy()
                w = what + ' (' + case + ')'
                if case == 'grow':
                    E.oblige(s2, eq(s2.ghost['new'].len, sub(n, old.len)), w + ': builds the missing cards', 'post')
                    W.piles[s.key] = s_cat(old, s2.ghost['new'])
                    prove_seq(E, M.S, s2, s2.ghost['del'], s_empty(PTRELT), w + ': destroys nothing', 'post')
                else:
                    W.piles[s.key] = s_slice(old, 0, n)
                    E.oblige(s2, eq(s2.ghost['new'].len, 0), w + ': builds nothing', 'post')
                    prove_perm(E, M.S, s2, s2.ghost['del'], s_slice(old, n, sub(old.len, n)), w + ': destroys the cards dropped')
                M.prove_field(E, s2, W, w)
        r.take(E, wit)

    def splice(self, r, s, t):
        M = self.M
        E = M.engine()
        st, F = M.symbolic(E)
        p, i = M.place(E, st, s, 'from')
        q, j = M.place(E, st, t, 'to')
        n = z3.BitVec('count', 64)
        st.assume(z3.ULT(n, bv(MAXLEN, 64)))
        src = F.piles[s.key]
        st.assume(b_and(ule(n, src.len), ule(add(i, n), src.len)))
        W = F.copy()
        W.piles[s.key] = s_erase(src, i, n)
        dst = W.piles[t.key]
        st.assume(ule(j, dst.len))
        self.guard(r, E, st)
        for rev in (0, 1):
            rets = E.call(st.copy(), 'd_splice', [M.f, p, n, q, rev])
            what = 'pile_splice from %s to %s%s' % (s, t, ' reversed' if rev else '')
            r.need_cover(len(rets) > 0, what + ' returns')
            for s2, v in rets:
                X = W.copy()
                m = s_slice(src, i, n)
                X.piles[t.key] = s_insert(dst, j, SRev(m) if rev else m)
                M.prove_field(E, s2, X, what)
                M.prove_log(E, s2, 0, s_empty(PTRELT), what)
        r.take(E, wit)

    def swap(self, r, s, t):
        M = self.M
        E = M.engine()
        st, F = M.symbolic(E)
        p, i = M.place(E, st, s, 'a')
        q, j = M.place(E, st, t, 'b')
        rets = E.call(st, 'd_pswap', [M.f, p, q])
        what = 'pile_swap of %s and %s' % (s, t)
        r.need_cover(len(rets) > 0, what + ' returns')
        for s2, v in rets:
            W = F.copy()
            W.piles[s.key], W.piles[t.key] = F.piles[t.key], F.piles[s.key]
            M.prove_field(E, s2, W, what)
            M.prove_log(E, s2, 0, s_empty(PTRELT), what)
        r.take(E, wit)


def prove_perm(E, S, st, got, want, name):
    """same elements in the given or in the reverse order"""
    if not E.oblige(st, eq(got.len, want.len), name + ': number', 'post'):
        return
    i = E.fresh('i', 64)
    s2 = st.copy()
    s2.assume(tob(ult(i, want.len)))
    if not E.feasible(s2):
        return
    a = val_eq(S, got.at(i), want.at(i))
    b = val_eq(S, got.at(i), SRev(want).at(i))
    if E.valid(s2, a):
        E.oblige(s2, a, name, 'post')
    else:
        E.oblige(s2, b, name, 'post')



ROWELT = Elt('i', 64, None, 32)
ZLOCS = list(ZONES.values())


def width(x):
    return 32 if isc(x) else x.size()


class C05(FrameCheck):
    prop = 'C05'
    explain = ('card_shuffle for every number of listed zones 1 to 7 (the bound its own assertion enforces), with symbolic row, sequences, permutation and pattern of entries without current zone. '
               'The row is a sequence of zone values labelled by their origin; zone() and has_card() are used through the contracts proved in C01 and std::swap of two zones through the contract proved here on the real code.')

    def mk_units(self):
        us = [('swap of zones %d' % n, lambda r, k=ZONE_KEYS[n:n + 8]: self.swapz(r, k)) for n in range(0, len(ZONE_KEYS), 8)]
        us += [('shuffle of %d' % n, lambda r, n=n: self.shuffle(r, n)) for n in range(1, 8)]
        return us

    def swapz(self, r, keys):
        M = self.M
        for a in keys:
            E = M.engine()
            st, F = M.symbolic(E)
            za = M.one(E, 'd_zone', [M.f, *a])
            for b in ZONE_KEYS:
                if a[:2] != b[:2]:
                    continue
                zb = M.one(E, 'd_zone', [M.f, *b])
                rets = E.call(st.copy(), 'd_zswap', [za, zb])
                r.need_cover(len(rets) > 0, 'swap returns')
                for s2, v in rets:
                    W = F.copy()
                    W.cards[a], W.cards[b] = F.cards[b], F.cards[a]
                    W.mats[a], W.mats[b] = F.mats[b], F.mats[a]
                    M.prove_field(E, s2, W, 'std::swap of zones %r %r' % (a, b), 'contract')
            r.take(E, wit)

    def shuffle(self, r, n):
        M = self.M
        con, loc = z3.BitVec('con', 32), z3.BitVec('loc', 32)
        lim = z3.If(loc == 4, bv(7, 64), z3.If(loc == 8, bv(5, 64), z3.If(loc == 0x200, bv(2, 64), bv(1, 64))))
        row = {}
        occ = z3.Function('occupied', z3.BitVecSort(64), z3.BitVecSort(8))

        def at(E, st, a):
            """obligations of a zone lookup; index"""
            c, l, s = a
            E.oblige(st, eq(c, con if width(c) == 32 else z3.Extract(7, 0, con), 8), 'the zone is of the row shuffled (controller)', 'precondition')
            E.oblige(st, eq(l, loc, 32), 'the zone is of the row shuffled (location)', 'precondition')
            i = zext(s, 32, 64)
            E.oblige(st, ult(i, lim), 'zone sequence within the row', 'precondition')
            return i

        def zone(E, st, a, ins):
            return Ptr(row['o'], 0, (), at(E, st, a[1:4]), 0)

        def has(E, st, a, ins):
            p = E.getv(st, a[1])
            i = at(E, st, (M.S.get(p, 'con'), M.S.get(p, 'loc'), M.S.get(p, 'seq')))
            E.oblige(st, tob(M.S.get(p, 'oseq') < 0) if not isc(M.S.get(p, 'oseq')) else 1, 'a zone card is asked for', 'precondition')
            return simp(z3.Extract(0, 0, occ(bv(E.getv(st, Ptr(row['o'], 0)).at(i), 64))))

        def swap(E, st, a, ins):
            s = E.getv(st, Ptr(row['o'], 0))
            for p in a[:2]:
                if not (isinstance(p, Ptr) and p.obj == row['o'] and p.idx is not None and isc(p.inner) and p.inner == 0):
                    raise ToolLimit('swap of %r' % (p,))
            i, j = a[0].idx, a[1].idx
            E.setv(st, Ptr(row['o'], 0), s_update(s_update(s, i, s.at(j)), j, s.at(i)))
            return None
        ex = [(r'::zone\(YGOpen::Duel::Controller, YGOpen::Duel::Location, unsigned int\)', zone), (r'::has_card\(', has),
              (r'^(?:void |.* )?std::swap<YGOpen::Client::BasicFrame<.*>::Side::Zone>\(', swap)]
        E = M.engine(extra=ex)
        E.no_summary = True
        E.bitblast = True
        E.query_ms = 2000
        E.max_unroll = 4000
        st, F = M.symbolic(E)
        o = E.new_obj(st, None, 'row')
        row['o'] = o
        st.assume(z3.ULE(con, 1))
        st.assume(z3.Or(*[loc == l for l in ZLOCS]))
        E.setv_raw(st, Ptr(o), 32, SBase(ROWELT, 'row', lim, lambda i: i))
        ps, cs, pr, cu, em = [], [], [], [], []
        for k in range(n):
            a, b = [z3.Concat(bv(0, 29), z3.BitVec('%s%d' % (w, k), 3)) for w in ('prev', 'cur')]   # below 7 by the row's limit
            e = z3.Bool('empty%d' % k)
            q1, q2 = z3.BitVec('po%d' % k, 32), z3.BitVec('co%d' % k, 32)
            st.assume(q1 < 0)
            st.assume(q2 < 0)
            pr.append(a), cu.append(b), em.append(e)
            ps.append(MsgVal(PLACE).set(con=con, loc=loc, seq=a, oseq=q1))
            cs.append(MsgVal(PLACE).set(con=con, loc=simp(z3.If(e, bv(0, 32), loc)), seq=b, oseq=q2))
            st.assume(z3.ULT(zext(a, 32, 64), lim))
            st.assume(z3.ULT(zext(b, 32, 64), lim))
            st.assume(z3.Extract(0, 0, occ(zext(a, 32, 64))) == 1)
        if n > 1:
            for i in range(n):
                for j in range(i):
                    st.assume(pr[i] != pr[j])
                    st.assume(z3.Or(em[i], em[j], cu[i] != cu[j]))
        for i in range(n):
            st.assume(z3.Or(em[i], *[cu[i] == p for p in pr]))
        self.guard(r, E, st)
        lst = []
        for els in (ps, cs):
            q = E.new_obj(st, 24, 'list')
            E.setv_raw(st, Ptr(q), 24, SList(Elt('msg', 64, PLACE, 8), els))
            lst.append(Ptr(q))
        self.base_pc = {p.get_id() for p in st.pc}
        self.keep_pc = list(st.pc)
        E.cut = lambda fn, header, it, s, regs: any(header in b for h, b in fn.loops.items() if h != header) or self.invariant(E, s, Ptr(row['o'], 0), n, pr, cu, em, lim, row)
        rets = E.call(st, 'd_shuffle', [M.f] + lst)
        r.need_cover(len(rets) > 0, 'card_shuffle of %d returns' % n)
        for s2, v in rets:
            R = E.getv(s2, Ptr(o, 0))
            for k in range(n):
                s3 = s2.copy()
                s3.assume(z3.Not(em[k]))
                E.oblige(s3, eq(R.at(zext(cu[k], 32, 64)), zext(pr[k], 32, 64)), 'zone listed as #%d of %d arrives at its current place' % (k, n), 'post')
            x = z3.Concat(bv(0, 61), z3.BitVec('x', 3))
            for y in range(1, 8):
                s3 = s2.copy()
                s3.assume(z3.And(z3.ULT(bv(y, 64), lim), z3.ULT(x, y)))
                E.oblige(s3, b_not(eq(R.at(x), R.at(bv(y, 64)))), 'no zone is duplicated by a shuffle of %d (#%d)' % (n, y), 'post')
            for k in range(n):
                s3.assume(x != zext(pr[k], 32, 64))
            E.oblige(s3, eq(R.at(x), x), 'zones not listed in a shuffle of %d stay' % n, 'frame')
            M.prove_field(E, s2, F, 'card_shuffle: other rows', 'frame')
            M.prove_log(E, s2, 0, s_empty(PTRELT), 'card_shuffle')
        r.take(E, wit)


    def invariant(self, E, st, rp, n, pr, cu, em, lim, memo):
        """loop contract of the loop that moves the zones: the scratch array tells where each listed zone is now"""
        if n < 3:
            return
        R = E.getv(st, rp)
        if isinstance(R, SBase) and R is memo.get('cut'):
            return
        for o, ob in sorted(st.mem.items()):
            if all(ob.cells.get(4 * k, (0,))[0] == 4 for k in range(n)) and ob.cells.get(0)[0] == 4 and o > self.M.oid and len(ob.cells) <= 40:
                q = [ob.cells[4 * k][1] for k in range(n)]
                if any(isinstance(x, Poison) for x in q):
                    continue
                if self.try_cut(E, st, rp, R, o, q, n, pr, cu, em, lim, memo):
                    return

    def try_cut(self, E, st, rp, R, o, q, n, pr, cu, em, lim, memo):
        q64 = [zext(x, 32, 64) for x in q]
        inpr = lambda x: z3.Or(*[bv(x, 64) == zext(p, 32, 64) for p in pr])
        facts = []
        for k in range(n):
            facts.append(('element %d of the scratch array is a listed zone' % k, lambda q, R, k=k: inpr(q[k])))
            facts.append(('listed zone %d occurs in the scratch array' % k, lambda q, R, k=k: z3.Or(*[bv(x, 64) == zext(pr[k], 32, 64) for x in q])))
            facts.append(('listed zone %d is where the scratch array says' % k, lambda q, R, k=k: tob(eq(R.at(q[k]), zext(pr[k], 32, 64)))))
            for j in range(k):
                facts.append(('scratch elements %d and %d differ' % (j, k), lambda q, R, j=j, k=k: bv(q[j], 64) != bv(q[k], 64)))
        for x in range(7):
            facts.append(('zone %d stays if it is not listed' % x, lambda q, R, x=x: z3.Or(inpr(x), z3.ULE(lim, x), tob(eq(R.at(x), x)))))
        for nm, f in facts:
            if not E.valid(st, simpb(f(q64, R))):
                return False
        opt = [lambda q, R, k=k: z3.Or(em[k], bv(q[k], 64) == zext(cu[k], 32, 64)) for k in range(n)]
        keep = [f for f in opt if E.valid(st, simpb(f(q64, R)))]
        for nm, f in facts:
            E.oblige(st, 1, 'loop invariant of card_shuffle: ' + nm, 'invariant')
        nq = [z3.Concat(bv(0, 29), E.fresh('at', 3)) for k in range(n)]
        f = z3.Function('row!%s' % E.uid(), z3.BitVecSort(3), z3.BitVecSort(3))
        nr = SBase(ROWELT, 'row', lim, lambda i: z3.Concat(bv(0, 61), f(simp(z3.Extract(2, 0, bv(i, 64))))))
        cells = dict(st.mem[o].cells)
        for k in range(n):
            cells[4 * k] = (4, nq[k])
        st.mem[o] = st.mem[o].with_cells(cells)
        E.setv(st, rp, nr)
        memo['cut'] = nr
        q64 = [zext(x, 32, 64) for x in nq]
        st.pc = [p for p in st.pc if p.get_id() in self.base_pc]
        for g in [f for nm, f in facts] + keep:
            st.assume(simpb(g(q64, nr)))
        return True



def list_contracts(E_T='Card'):
    from irv import lists

    def new(eng, st):
        c = nz(eng.fresh('node', 64))
        st.ghost['new'] = s_append(st.ghost['new'], c)
        return c

    def dele(eng, st, s):
        st.ghost['del'] = s_cat(st.ghost['del'], s)
    return lists.ForwardList(E_T, new, dele)


class C07(FrameCheck):
    prop = 'C07'
    explain = ('construct_card builds exactly one node, destruct_card (search loop by inductive summary) destroys exactly the node of the card given and no other, for every registry of distinct cards; '
               'clear, card_add, card_remove and pile_resize are checked against the contracts of these two. The other operations are shown in C03 to C06 to build and destroy nothing.')
    trusted = FrameCheck.trusted + ['std::forward_list contracts (irv/lists.py): addresses of elements are stable']

    def mk_units(self):
        us = [('construct_card', self.construct), ('destruct_card', self.destruct), ('new frame', self.fresh)]
        us += [('clear', self.clear)]
        c2, c6 = C02(self.ctx), C06(self.ctx)
        c2.M = c6.M = self.M
        us += [('add and remove %d' % n, lambda r, n=n: [c2.op(r, s) for s in SLOTS[n:n + 10]]) for n in range(0, len(SLOTS), 10)]
        us += [('resize of %s' % s, lambda r, s=s: c6.resize(r, s)) for s in SLOTS if s.kind == 'pile']
        return us

    def fresh(self, r):
        M = self.M
        E = M.engine()
        W = M.read(E, M.base)
        for k, s in list(W.piles.items()) + list(W.mats.items()):
            E.oblige(M.base, eq(s.len, 0), 'a new frame has no cards in %r' % (k,), 'post')
        for k, c in W.cards.items():
            E.oblige(M.base, val_eq(None, c, 0), 'a new frame has no card in zone %r' % (k,), 'post')
        M.prove_log(E, M.base, 0, s_empty(PTRELT), 'a new frame')
        r.take(E, wit)

    def registry(self, E):
        """frame with an arbitrary registry of cards"""
        M = self.M
        LC = list_contracts()
        E.contracts = stl.Chain(stl.Named([(r'^Card::Card\((Card&&)?\)$', lambda eng, st, a, ins: None), (r'^Card::~Card\(\)$', lambda eng, st, a, ins: None)]), LC,
                                pbm.PbContracts(M.S), stl.StlContracts(M.S))
        st = eng.State()
        M.ghost0(st)
        f = E.new_obj(st, None, 'frame')
        r = E.call(st, 'd_ctor', [Ptr(f)])
        if len(r) != 1:
            raise ToolLimit('constructor')
        st = r[0][0]
        lists = [(o, c) for o, ob in st.mem.items() for c in ob.cells if isinstance(ob.cells[c][1], Seq) and ob.name == 'forward_list']
        if len(lists) != 1:
            raise ToolLimit('registry of cards not recognised')
        return st, Ptr(f), Ptr(lists[0][0], lists[0][1])

    def construct(self, r):
        E = self.M.engine()
        st, f, L = self.registry(E)
        fn = z3.Function('card', z3.BitVecSort(64), z3.BitVecSort(64))
        old = SBase(PTRELT, 'cards', z3.BitVec('ncards', 64), lambda i: nz(fn(bv(i, 64))))
        st.assume(z3.ULT(old.len, bv(MAXLEN, 64)))
        E.setv(st, L, old)
        rets = E.call(st, 'd_construct', [f])
        r.need_cover(len(rets) > 0, 'construct_card returns')
        for s2, v in rets:
            E.oblige(s2, eq(s2.ghost['new'].len, 1), 'construct_card builds one card', 'post')
            E.oblige(s2, val_eq(None, v, s2.ghost['new'].at(0)), 'construct_card returns the card built', 'post')
            prove_seq(E, self.M.S, s2, s2.ghost['del'], s_empty(PTRELT), 'construct_card destroys nothing', 'post')
            now = E.getv(s2, L)
            E.oblige(s2, eq(now.len, add(old.len, 1)), 'the registry grows by one', 'post')
            prove_perm2(E, self.M.S, s2, now, old, v, 'the registry keeps the other cards')
        r.take(E, wit)

    def destruct(self, r):
        E = self.M.engine()
        st, f, L = self.registry(E)
        fn = z3.Function('card', z3.BitVecSort(64), z3.BitVecSort(64))
        c, t = z3.BitVec('c', 64), z3.BitVec('t', 64)
        st.assume(c != 0)
        # the card is at one position t of the registry, the others are different

        def at(i):
            x = nz(fn(bv(i, 64)))
            o = z3.If(x == c, z3.If(c == 1, bv(2, 64), c - 1), x)
            return z3.If(bv(i, 64) == t, c, o)
        old = SBase(PTRELT, 'cards', z3.BitVec('ncards', 64), at)
        st.assume(z3.ULT(old.len, bv(MAXLEN, 64)))
        st.assume(z3.ULT(t, old.len))
        E.setv(st, L, old)
        E.khints = [t]
        rets = E.call(st, 'd_destruct', [f, c])
        r.need_cover(len(rets) > 0, 'destruct_card returns')
        for s2, v in rets:
            prove_seq(E, self.M.S, s2, s2.ghost['del'], SList(PTRELT, [c]), 'destruct_card destroys exactly the card given', 'post')
            E.oblige(s2, eq(s2.ghost['new'].len, 0), 'destruct_card builds nothing', 'post')
            prove_seq(E, self.M.S, s2, E.getv(s2, L), s_erase(old, t, 1), 'the registry keeps the other cards', 'post')
        r.take(E, wit)

    def clear(self, r):
        M = self.M
        E = M.engine()
        st, F = M.symbolic(E)
        self.guard(r, E, st)
        rets = E.call(st, 'd_clear', [M.f])
        r.need_cover(len(rets) > 0, 'clear returns')
        for s2, v in rets:
            W = Field({k: s_empty(PTRELT) for k in F.piles}, {k: 0 for k in F.cards}, {k: s_empty(PTRELT) for k in F.mats})
            M.prove_field(E, s2, W, 'clear')
            E.oblige(s2, eq(s2.ghost['new'].len, 0), 'clear builds no card', 'post')
            total = 0
            exp = [('pile %r' % (k,), s) for k, s in F.piles.items()] + [('materials of %r' % (k,), s) for k, s in F.mats.items()]
            exp += [('card of zone %r' % (k,), s_ite(eq(c, 0), s_empty(PTRELT), SList(PTRELT, [c]))) for k, c in F.cards.items()]
            for w, x in exp:
                total = add(total, x.len)
            got = parts(s2.ghost['del'])
            E.oblige(s2, eq(s2.ghost['del'].len, total), 'clear destroys as many cards as there were', 'post')
            if len(got) != len(exp):
                raise ToolLimit('destroyed cards are not recorded slot by slot (%d parts)' % len(got))
            left = list(exp)
            for g in got:
                for n, (w, x) in enumerate(left):
                    if same_seq(E, s2, g, x):
                        E.oblige(s2, 1, 'clear destroys the cards of %s, each once' % w, 'post')
                        del left[n]
                        break
            for w, x in left:
                E.exact = False
                E.oblige(s2, eq(x.len, 0), 'clear destroys the cards of %s' % w, 'post')
        r.take(E, wit)


def same_seq(E, st, a, b):
    i = z3.BitVec('same!i', 64)
    if not E.valid(st, eq(a.len, b.len)):
        return False
    s2 = st.copy()
    s2.assume(tob(ult(i, a.len)))
    return not E.feasible(s2) or E.valid(s2, val_eq(None, a.at(i), b.at(i)))


def prove_perm2(E, S, st, now, old, v, what):
    """now is old with v in front or at the end"""
    for w in (s_cat(SList(PTRELT, [v]), old), s_cat(old, SList(PTRELT, [v]))):
        if same_seq(E, st, now, w):
            E.oblige(st, 1, what, 'post')
            return
    E.exact = False
    E.oblige(st, 0, what, 'post')


CHECKS = {c.prop: c for c in (C01, C02, C03, C04, C05, C06, C07)}
