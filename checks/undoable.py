"""C09: undoable values (client/undoable.hpp)."""
import z3
from .base import *
from irv.val import *
from irv.elems import Elems
from .specs import *

VEC = 'std::vector<unsigned long, std::allocator<unsigned long>>'
W64 = Elt('i', 64, None, 8)


class C09(Check):
    prop = 'C09'
    trusted = ['std::list contract (irv/elems.py): positions and element addresses are stable', 'std::vector contracts (irv/stl.py)']
    assumptions = ['fewer than 2^31 values are recorded', 'erase_history, push_back, pop_back and their undos are unimplemented in the code (assert(false)) and not called']
    explain = ('Values of 32 bits and vectors of 64-bit values as instantiated by boards. An arbitrary history (n values, position c) is the invariant; reading, comparing, assigning at the end, assigning in the past and undoing are each '
               'run once from it and shown to read or leave exactly the history and position of the specification, so by induction every history does.')

    def native_build(self):
        return self.ctx.work.exe(['n_undoable.cpp'], 'n_undoable', pbs=())

    def native_args(self, seconds, seed):
        return [seed, seconds, 0, self.prop]

    def units(self):
        self.mod = self.ctx.mod('undoable.cpp')
        us = []
        for k in 'ab':
            us += [('new value (%s)' % k, lambda r, k=k: self.fresh(r, k)), ('read (%s)' % k, lambda r, k=k: self.read(r, k)),
                   ('assign (%s)' % k, lambda r, k=k: self.assign(r, k)), ('undo (%s)' % k, lambda r, k=k: self.undo(r, k))]
        return us

    def engine(self, k):
        f = z3.Function('val_' + k, z3.BitVecSort(64), z3.BitVecSort(32))
        g = z3.Function('vlen_' + k, z3.BitVecSort(64), z3.BitVecSort(64))
        h = z3.Function('vat_' + k, z3.BitVecSort(64), z3.BitVecSort(64), z3.BitVecSort(64))

        def val(idx):
            if k == 'a':
                return f(bv(idx, 64))
            return SBase(W64, 'value', g(bv(idx, 64)), lambda j: h(bv(idx, 64), bv(j, 64)))

        def lazy(eng, st, o, idx):
            p = Ptr(eng.new_obj(st, None, 'element'))
            if k == 'a':
                eng.setv_raw(st, p, 4, val(idx))
            else:
                s = val(idx)
                st.assume(z3.ULT(s.len, bv(1 << 31, 64)))
                stl.vec_init(eng, st, p, s)
            return p
        L = Elems('std::list', lazy=lazy)
        E = self.ctx.engine(self.mod, stl.Chain(L, stl.StlContracts(None)))
        st = eng.State()
        u = Ptr(E.new_obj(st, None, 'undoable'))
        r = E.call(st, k + '_ctor', [u])
        if len(r) != 1:
            raise ToolLimit('constructor')
        st = r[0][0]
        # the members, as found: the list and the position
        los = [(c, v[1]) for c, v in st.mem[u.obj].cells.items() if isinstance(v[1], Ptr) and st.mem[v[1].obj].name == 'list' and v[1].idx is None]
        its = [(c, v[1]) for c, v in st.mem[u.obj].cells.items() if isinstance(v[1], Ptr) and st.mem[v[1].obj].name == 'list' and v[1].idx is not None]
        if len(los) != 1 or len(its) != 1 or len(st.mem[u.obj].cells) != 2:
            raise ToolLimit('layout of the undoable value not recognised')
        return E, L, st, u, los[0][1].obj, its[0][0], val

    def history(self, k, end=None):
        """arbitrary history"""
        E, L, st, u, o, itoff, val = self.engine(k)
        n, c = z3.BitVec('recorded', 64), z3.BitVec('position', 64)
        st.assume(z3.And(z3.ULT(n, bv(1 << 31, 64)), z3.ULT(c, n)))
        if end is not None:
            st.assume(c == n - 1 if end else c != n - 1)
        L.shrink(E, st, o, 0)
        L.set_size(E, st, o, n)
        E.setv_raw(st, Ptr(u.obj, itoff), 8, Ptr(o, 0, (), c, 0))
        return E, L, st, u, o, itoff, val, n, c

    def state(self, E, L, st, u, o, itoff, n, c, what):
        E.oblige(st, eq(L.size(st, o), n), what + ': number of values recorded', 'post')
        it = E.load(st, Ptr(u.obj, itoff), ('ptr',))
        oo, i = L.pos(E, st, it)
        E.oblige(st, 1 if oo == o else 0, what + ': position in its own history', 'post')
        E.oblige(st, eq(i, c), what + ': position in history', 'post')

    def content(self, E, L, st, o, val, k, what, over=None):
        """recorded values (those the code touched) are the ones recorded before"""
        for i, p in L.listed(st, o):
            w = val(i)
            if over is not None and E.valid(st, eq(i, over[0])):
                w = over[1]
            self.same(E, st, p, w, k, '%s: recorded value' % what)

    def same(self, E, st, p, want, k, what):
        if k == 'a':
            E.oblige(st, eq(E.load(st, p, ('i', 32)), want, 32), what, 'post')
        else:
            prove_seq(E, None, st, stl.vec_seq(E, st, p), want, what)

    def newval(self, E, st, k):
        if k == 'a':
            v = z3.BitVec('v', 32)
            p = Ptr(E.new_obj(st, 4, 'v'))
            E.setv_raw(st, p, 4, v)
            return p, v
        f = z3.Function('v_at', z3.BitVecSort(64), z3.BitVecSort(64))
        s = SBase(W64, 'v', z3.BitVec('v_len', 64), lambda j: f(bv(j, 64)))
        st.assume(z3.ULT(s.len, bv(1 << 31, 64)))
        p = Ptr(E.new_obj(st, 24, 'v'))
        stl.vec_init(E, st, p, s)
        return p, s

    def fresh(self, r, k):
        E, L, st, u, o, itoff, val = self.engine(k)
        self.state(E, L, st, u, o, itoff, 1, 0, 'a new value')
        p = L.elem(E, st, o, 0)
        self.same(E, st, p, 0 if k == 'a' else s_empty(W64), k, 'a new value is the default one')
        r.need_cover(True, 'constructor returns')
        r.take(E)

    def read(self, r, k):
        E, L, st, u, o, itoff, val, n, c = self.history(k)
        r.need_cover(E.feasible(st), 'histories exist')
        rets = E.call(st.copy(), k + '_get', [u])
        r.need_cover(len(rets) > 0, 'reading returns')
        for s, v in rets:
            if k == 'a':
                E.oblige(s, eq(v, val(c), 32), 'reads as the value of the current assignment', 'post')
            else:
                prove_seq(E, None, s, stl.vec_seq(E, s, v), val(c), 'reads as the value of the current assignment')
            self.state(E, L, s, u, o, itoff, n, c, 'reading')
            self.content(E, L, s, o, val, k, 'reading')
        if k == 'a':
            p, w = self.newval(E, st, k)
            rets = E.call(st, 'a_eq', [u, p])
            r.need_cover(len(rets) > 0, 'comparison returns')
            for s, v in rets:
                E.oblige(s, eq(v, eq(val(c), w, 32), 1), 'compares as the value of the current assignment', 'post')
                self.state(E, L, s, u, o, itoff, n, c, 'comparing')
        r.take(E)

    def assign(self, r, k):
        for end in (1, 0):
            for fn in (['a_set', 'a_setr'] if k == 'a' else ['b_set', 'b_assign']):
                E, L, st, u, o, itoff, val, n, c = self.history(k, end)
                p, w = self.newval(E, st, k)
                what = '%s %s' % ('assign()' if 'assign' in fn else 'operator=', 'at the end of history' if end else 'in the past')
                r.need_cover(E.feasible(st), what)
                rets = E.call(st, fn, [u, p])
                r.need_cover(len(rets) > 0, what + ' returns')
                for s, v in rets:
                    self.state(E, L, s, u, o, itoff, add(n, 1) if end else n, add(c, 1), what)
                    self.content(E, L, s, o, val, k, what, (n, w) if end else None)
                    if end:
                        self.same(E, s, L.elem(E, s, o, n), w, k, what + ': the new value is recorded')
                r.take(E)

    def undo(self, r, k):
        E, L, st, u, o, itoff, val, n, c = self.history(k)
        st.assume(z3.UGT(c, bv(0, 64)))
        r.need_cover(E.feasible(st), 'something to undo')
        rets = E.call(st, k + '_undo', [u])
        r.need_cover(len(rets) > 0, 'undo returns')
        for s, v in rets:
            self.state(E, L, s, u, o, itoff, n, sub(c, 1), 'undo')
            self.content(E, L, s, o, val, k, 'undo')
        r.take(E)


CHECKS = {'C09': C09}
