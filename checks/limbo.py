"""C08: the history-keeping frame (client/frame_limbo.hpp)."""
import z3
from .base import *
from irv.val import *
from irv.elems import Elems
from .specs import *
from . import frame as fr
from .frame import FrameModel, FrameCheck, SLOTS, Slot, MAXLEN, wit


class LimboModel(FrameModel):
    """frame with a history of operations: finds the position, the number of operations and the record"""

    def __init__(self, ctx):
        self.L = Elems('std::deque', construct=self.construct_elem)
        FrameModel.__init__(self, ctx, 'limbo.cpp')
        self.discover()

    def contracts(self, extra=None):
        return stl.Chain(self.L, FrameModel.contracts(self, extra))

    def construct_elem(self, eng, st, p, T, args, tys):
        """the element's own constructor, run"""
        if 'std::variant<' not in T:
            return None
        ty = [t.rstrip('&').strip() for t in tys]
        if len(args) != 1:
            raise ToolLimit('construction of the record')
        inner = ty[0][ty[0].index('<') + 1:-1].strip()
        for dem, name in self.mod.bydem.items():
            if dem.startswith(T + '::variant<') and dem.endswith('(' + ty[0] + ')') and dem[len(T + '::variant<'):].startswith(inner):
                rets = eng.call_fn(st, name, [p], None)
                return [s for s, v in rets]
        raise ToolLimit('constructor of the record not found: ' + inner[-40:])

    def discover(self):
        E = self.engine()
        st = self.base.copy()
        self.ghost0(st)
        dq = [(c, v[1]) for c, v in st.mem[self.f.obj].cells.items() if isinstance(v[1], Ptr) and st.mem[v[1].obj].name == 'deque']
        if len(dq) != 1:
            raise ToolLimit('record of operations not recognised')
        self.dq = dq[0][1].obj
        p, i = self.place(E, st, SLOTS[0], 'x')
        E.setv_raw(st, p, 40, MsgVal(fr.PLACE).set(con=0, loc=SLOTS[0].loc, seq=0, oseq=0xFFFFFFFF))
        ints = lambda s: {c: v[1] for c, v in s.mem[self.f.obj].cells.items() if v[0] in (1, 2, 4, 8) and isc(v[1])}
        a = ints(st)
        r = E.call(st, 'd_add', [self.f, p])
        if len(r) != 1:
            raise ToolLimit('card_add from the empty frame')
        b = ints(r[0][0])
        r = E.call(r[0][0], 'd_uadd', [self.f, p])
        if len(r) != 1:
            raise ToolLimit('undo_card_add on a one-card frame')
        c = ints(r[0][0])
        cells = [k for k in a if k in b and a[k] != b[k]]
        pos = [k for k in cells if (a[k], b[k], c.get(k)) == (0, 1, 0)]
        tot = [k for k in cells if (a[k], b[k], c.get(k)) == (0, 1, 1)]
        if len(pos) != 1 or len(tot) > 1 or len(pos) + len(tot) != len(cells):
            raise ToolLimit('position in history not recognised')
        self.pos = pos[0]
        self.tot = tot[0] if tot else None

    def set_history(self, E, st, pos, total):
        for at, v in ((self.pos, pos), (self.tot, total)):
            if at is None:
                continue
            w = st.mem[self.f.obj].cells[at][0]
            if w < 8:
                # histories that fit; that they still do after an operation is to be shown
                if not isc(v):
                    st.assume(z3.ULT(v, bv(1 << 8 * w, 64)))
                v = trunc(v, 64, 8 * w)
            E.setv_raw(st, Ptr(self.f.obj, at), w, v)
        self.L.set_size(E, st, self.dq, total)

    def counter(self, st, at):
        w, v = st.mem[self.f.obj].cells[at][:2]
        return v if w == 8 else zext(v, 8 * w, 64)

    def prove_history(self, E, st, pos, total, what):
        E.oblige(st, eq(self.counter(st, self.pos), pos), what + ': position in history', 'post')
        if self.tot is not None:
            E.oblige(st, eq(self.counter(st, self.tot), total), what + ': operations recorded', 'post')
        E.oblige(st, eq(self.L.size(st, self.dq), total), what + ': size of the record', 'post')

    def record(self, E, st, k):
        """contents of the record at index k: {offset: value or sequence}"""
        p = self.L.elem(E, st, self.dq, k)
        out = {}
        for c, v in st.mem[p.obj].cells.items():
            x = v[1]
            if v[0] == 24:
                out[c] = E.getv(st, x)
            else:
                out[c] = x
        return out

    def prove_record(self, E, st, got, want, what):
        E.oblige(st, 1 if set(got) == set(want) else 0, what + ': layout of the record', 'invariant')
        for c in got:
            a, b = got[c], want.get(c)
            if a is b or b is None:
                continue
            if isinstance(a, Seq):
                prove_seq(E, self.S, st, a, b, '%s: record +%d' % (what, c), 'invariant')
            elif isinstance(a, Poison) and isinstance(b, Poison):
                pass
            else:
                E.oblige(st, val_eq(self.S, a, b), '%s: record +%d' % (what, c), 'invariant')


class C08(FrameCheck):
    prop = 'C08'
    trusted = FrameCheck.trusted + ['std::deque contract (irv/elems.py): element addresses are stable under emplace_back; std::variant is the real code']
    explain = ('For card_add and card_remove (74 shapes of place each), pile_resize (10 piles, growing, shrinking and equal) and clear, from an arbitrary frame at the end of an arbitrary history: the operation is recorded; '
               'then, with the history havocked (any number of later operations undone), its undo gives back the field exactly, redoing it gives the same field and the same cards with none built or destroyed, and undoing again '
               'restores field and record as after the first undo, so the cycle can be repeated for ever (induction over histories).')
    assumptions = FrameCheck.assumptions + ['fewer than 2^31 operations are recorded', 'undo_card_shuffle is unimplemented in the code (assert(false)) and not called',
                                            'operations are undone in reverse order with the places they were made with']

    def native_build(self):
        return self.ctx.work.exe(['n_limbo.cpp'], 'n_limbo', pbs=('duel_data',))

    def units(self):
        self.M = LimboModel(self.ctx)
        us = []
        for n in range(0, len(SLOTS), 10):
            us.append(('add and remove %d' % n, lambda r, n=n: [self.cards(r, s) for s in SLOTS[n:n + 10]]))
        for s in SLOTS:
            if s.kind == 'pile':
                us.append(('resize of %s' % s, lambda r, s=s: self.resize(r, s)))
        us.append(('clear', self.clear))
        us.append(('erase_history', self.erase))
        return us

    def start(self):
        M = self.M
        E = M.engine()
        st, F = M.symbolic(E)
        k = z3.BitVec('operations', 64)
        st.assume(z3.ULT(k, bv(MAXLEN, 64)))
        M.set_history(E, st, k, k)
        return E, st, F, k

    def cycle(self, r, E, st, F, k, what, do, undo, live):
        """do, undo: state -> [(state, value)]; live(state, value) -> the field after the operation (and its own obligations)"""
        M = self.M
        none = s_empty(PTRELT)
        first = do(st.copy())
        r.need_cover(len(first) > 0, what + ' returns')
        for s1, v1 in first:
            W = live(s1, v1)
            M.prove_field(E, s1, W, what)
            M.prove_history(E, s1, add(k, 1), add(k, 1), what)
            if not [1 for i, p in M.L.listed(s1, M.dq) if E.valid(s1, eq(i, k))]:
                E.oblige(s1, 0, what + ': is recorded', 'post')
                return
            # any number of further operations, all undone
            m = z3.BitVec('later', 64)
            s1 = s1.copy()
            s1.assume(z3.And(z3.UGT(m, k), z3.ULT(m, bv(MAXLEN, 64))))
            M.set_history(E, s1, add(k, 1), m)
            M.ghost0(s1)
            r.need_cover(E.feasible(s1), what + ': history after it')
            W = M.read(E, s1)
            undone = undo(s1.copy(), v1)
            r.need_cover(len(undone) > 0, 'undo of %s returns' % what)
            for s2, v2 in undone:
                u = 'undo of ' + what
                M.prove_field(E, s2, F, u)
                M.prove_history(E, s2, k, m, u)
                M.prove_log(E, s2, 0, none, u)
                rec2 = M.record(E, s2, k)
                redone = do(s2.copy())
                r.need_cover(len(redone) > 0, 'redoing %s returns' % what)
                for s3, v3 in redone:
                    u = 'redoing ' + what
                    M.prove_field(E, s3, W, u)
                    M.prove_history(E, s3, add(k, 1), m, u)
                    M.prove_log(E, s3, 0, none, u)
                    if v1 is not None:
                        E.oblige(s3, val_eq(None, v3, v1), u + ': returns the same card', 'post')
                    for s4, v4 in undo(s3.copy(), v1):
                        u = 'undoing %s again' % what
                        M.prove_field(E, s4, F, u)
                        M.prove_history(E, s4, k, m, u)
                        M.prove_log(E, s4, 0, none, u)
                        M.prove_record(E, s4, M.record(E, s4, k), rec2, u)

    def cards(self, r, s):
        M = self.M
        E, st0, F0, k = self.start()
        p, i = M.place(E, st0, s, 'p')
        st = st0.copy()
        st.assume(F0.can_insert(s, i))
        self.guard(r, E, st)
        what = 'card_add at %s' % s

        def undo(s2, v1):
            rets = E.call(s2, 'd_uaddr', [M.f, p])
            for s3, v in rets:
                E.oblige(s3, val_eq(None, v, v1), 'undo_card_add returns the card', 'post')
            return rets

        def live(s1, v1):
            W = F0.copy()
            W.insert(s, i, v1)
            M.prove_log(E, s1, 1, s_empty(PTRELT), what)
            E.oblige(s1, val_eq(None, s1.ghost['new'].at(0), v1), 'card_add returns the card it built', 'post')
            return W
        self.cycle(r, E, st, F0, k, what, lambda s2: E.call(s2, 'd_add', [M.f, p]), undo, live)
        r.take(E, wit)
        st = st0.copy()
        st.assume(F0.has(s, i))
        self.guard(r, E, st)
        what = 'card_remove at %s' % s

        def live(s1, v1):
            W = F0.copy()
            W.erase(s, i)
            M.prove_log(E, s1, 0, s_empty(PTRELT), what)
            return W

        def undo(s2, v1):
            rets = E.call(s2, 'd_uremove', [M.f, p])
            for s3, v in rets:
                E.oblige(s3, val_eq(None, v, F0.at(s, i)), 'undo_card_remove returns the card', 'post')
            return rets
        self.cycle(r, E, st, F0, k, what, lambda s2: [(a, None) for a, b in E.call(s2, 'd_remove', [M.f, p])], undo, live)
        r.take(E, wit)

    def resize(self, r, s):
        M = self.M
        for case in ('grow', 'shrink', 'keep'):
            E, st, F, k = self.start()
            p, i = M.place(E, st, s, 'p')
            n = z3.BitVec('count', 64)
            st.assume(z3.ULT(n, bv(MAXLEN, 64)))
            old = F.piles[s.key]
            st.assume({'grow': z3.UGT(n, old.len), 'shrink': z3.ULT(n, old.len), 'keep': n == old.len}[case])
            self.guard(r, E, st)
            what = 'pile_resize of %s (%s)' % (s, case)

            def live(s1, v1):
                W = F.copy()
                prove_seq(E, M.S, s1, s1.ghost['del'], s_empty(PTRELT), what + ': destroys nothing', 'post')
                if case == 'grow':
                    E.oblige(s1, eq(s1.ghost['new'].len, sub(n, old.len)), what + ': builds the missing cards', 'post')
                    W.piles[s.key] = s_cat(old, s1.ghost['new'])
                else:
                    E.oblige(s1, eq(s1.ghost['new'].len, 0), what + ': builds nothing', 'post')
                    W.piles[s.key] = s_slice(old, 0, n)
                return W
            self.cycle(r, E, st, F, k, what, lambda s2: [(a, None) for a, b in E.call(s2, 'd_resize', [M.f, p, n])],
                       lambda s2, v: E.call(s2, 'd_uresize', [M.f, p, n]), live)
            r.take(E, wit)

    def clear(self, r):
        M = self.M
        E, st, F, k = self.start()
        self.guard(r, E, st)

        def live(s1, v1):
            M.prove_log(E, s1, 0, s_empty(PTRELT), 'clear')
            return fr.Field({x: s_empty(PTRELT) for x in F.piles}, {x: 0 for x in F.cards}, {x: s_empty(PTRELT) for x in F.mats})
        self.cycle(r, E, st, F, k, 'clear', lambda s2: [(a, None) for a, b in E.call(s2, 'd_clear', [M.f])], lambda s2, v: E.call(s2, 'd_uclear', [M.f]), live)
        r.take(E, wit)

    def erase(self, r):
        """forgetting the operations beyond the current one changes neither field nor position, and new ones are recorded after"""
        M = self.M
        E, st, F, k = self.start()
        for case in ('live', 'past'):
            s0 = st.copy()
            m = k
            if case == 'past':
                m = z3.BitVec('total', 64)
                s0.assume(z3.And(z3.UGT(m, k), z3.ULT(m, bv(MAXLEN, 64))))
                M.set_history(E, s0, k, m)
            self.guard(r, E, s0)
            rets = E.call(s0, 'd_erase', [M.f])
            r.need_cover(len(rets) > 0, 'erase_history returns')
            for s1, v in rets:
                M.prove_field(E, s1, F, 'erase_history', 'frame')
                M.prove_history(E, s1, k, k, 'erase_history')
        r.take(E, wit)


CHECKS = {'C08': C08}
