"""C29: popcnt, choosel, chooser for every unsigned width, value and count."""
import time

import z3
from .base import *
from irv.val import *


def defpop(x, w):
    r = bv(0, 32)
    for i in range(w):
        r = r + z3.ZeroExt(31, z3.Extract(i, i, x))
    return r


class C29(Check):
    prop = 'C29'
    quick_native_s = 2
    trusted = ['LLVM ctpop intrinsic counts set bits']
    assumptions = ['count is `unsigned` (32 bit), as in the source; widths 8, 16, 32 and 64 are instantiated (all unsigned widths the ABI has)']
    explain = ('Each function is executed over its real IR with all inputs symbolic (the loops have a concrete bound: the width). Post-condition, per result bit i: '
               'bit i is set iff it is set in x and fewer than count set bits of x lie beyond it, counted from the requested end.')

    def native_build(self):
        return self.ctx.work.exe(['n_bit.cpp'], 'n_bit', pbs=())

    def units(self):
        ctx = self.ctx
        mod = ctx.mod('bit.cpp')
        us = []
        for n in (8, 16, 32, 64):
            us.append(('popcnt<%d>' % n, lambda r, n=n: self.pop(r, mod, n)))
            for op in ('choosel', 'chooser'):
                us.append(('%s<%d>' % (op, n), lambda r, n=n, op=op: self.choose(r, mod, op, n)))
        return us

    def mk(self, mod):
        E = self.ctx.engine(mod, stl.StlContracts(None), query_ms=30000)
        E.max_unroll = 70
        E.no_summary = True
        return E

    def pop(self, r, mod, n):
        E = self.mk(mod)
        x = z3.BitVec('x', n)
        st = eng.State()
        rets = E.call(st, 'd_popcnt%d' % n, [x])
        r.need_cover(len(rets) > 0, 'popcnt returns')
        for s, v in rets:
            E.oblige(s, simpb(bv(v, 32) == defpop(x, n)), 'popcnt<%d> counts the set bits' % n, 'post')
        r.take(E, lambda m: {'x': str(m.eval(x))})

    def choose(self, r, mod, op, n):
        E = self.mk(mod)
        x = z3.BitVec('x', n)
        c = z3.BitVec('c', 32)
        st = eng.State()
        W = 64 if n == 64 else 32
        pref = lambda k: x & bv(mask(n) ^ mask(n - k) if op == 'choosel' else mask(k), n)   # the k bits from the requested end
        bit = lambda k: (n - 1 - k) if op == 'choosel' else k
        # the count of the first k bits, abstracted to the constants p[k]; the only facts used about them are
        # the lemmas below, each proved from the definition of the count
        p = [z3.BitVec('p%d' % k, 8) for k in range(n + 1)]
        key = {z3.simplify(z3.ZeroExt(W - n, pref(k)) if W > n else pref(k)).sexpr(): k for k in range(n + 1)}
        key[z3.simplify(bv(0, W)).sexpr()] = 0

        def ctpop(y, w):
            y = z3.simplify(y)
            k = key.get(y.sexpr())
            if k is None:
                for j in range(n + 1):
                    if w == W and E.valid(E.cur, y == (z3.ZeroExt(W - n, pref(j)) if W > n else pref(j))):
                        k = j
                        break
            if k is None:
                return z3.simplify(z3.ZeroExt(w - 32, defpop(y, w)) if w > 32 else defpop(y, w))
            return z3.ZeroExt(w - 8, p[k])
        E.ctpop = ctpop
        E.cur = eng.State()
        L = self.mk(mod)
        L.oblige(eng.State(), simpb(defpop(pref(0), n) == 0), 'lemma: %s<%d> no bits, none set' % (op, n), 'lemma')
        st.assume(p[0] == 0)
        for k in range(n):
            b = bit(k)
            L.oblige(eng.State(), simpb(defpop(pref(k + 1), n) == defpop(pref(k), n) + z3.ZeroExt(31, z3.Extract(b, b, x))), 'lemma: %s<%d> count of %d bits' % (op, n, k + 1), 'lemma')
            # the count is at most 64, so it never decreases and fits in 8 bits
            st.assume(z3.ULE(p[k], p[k + 1]))
        rets = E.call(st, 'd_%s%d' % (op, n), [c, x])
        r.need_cover(len(rets) > 0, op + ' returns')
        # the whole definition of the counts: what the order of the counts alone does not show is tried again with it
        whole = [p[k + 1] == p[k] + z3.ZeroExt(7, z3.Extract(bit(k), bit(k), x)) for k in range(n)]
        end = time.time() + 90
        for s, v in rets:
            full = None
            for k in range(n):
                i = bit(k)
                want = z3.And(z3.Extract(i, i, x) == 1, z3.ULT(z3.ZeroExt(24, p[k]), c))
                post = simpb((z3.Extract(i, i, bv(v, n)) == 1) == want)
                t = s
                if not E.valid(s, post):
                    if full is None:
                        full = s.copy()
                        for f in whole:
                            full.assume(f)
                    t = full
                    if time.time() > end:
                        E.obs.append(E.Ob('%s<%d> bit %d of the result' % (op, n, i), 'post', 'unknown', list(t.pc), post))
                        continue
                E.oblige(t, post, '%s<%d> bit %d of the result' % (op, n, i), 'post')
        r.take(L)
        r.take(E, lambda m: {'x': str(m.eval(x)), 'c': str(m.eval(c))})


CHECKS = {'C29': C29}
