"""C14-C21: core messages to protobuf (codec/edo9300_ocgcore_encode.cpp)."""
import z3
from .base import *
from irv.val import *
from irv import loop as irv_loop
from .specs import *
from . import encspec as es
from .encspec import *

BIG = 1 << 27
same = irv_loop.same
V_mentions = irv_loop.mentions


def lin(e, acc=None, c=1):
    """linear form of a 64-bit expression added c times to acc: ({id: (atom, coefficient)}, constant)"""
    at, k = ({}, 0) if acc is None else (dict(acc[0]), acc[1])

    def go(e, c):
        nonlocal k
        if isc(e):
            e = int(e)
            k += c * (e if e < 1 << 63 else e - (1 << 64))
        elif z3.is_bv_value(e):
            v = e.as_signed_long()
            k += c * v
        elif e.decl().kind() == z3.Z3_OP_BADD:
            for x in e.children():
                go(x, c)
        elif e.decl().kind() == z3.Z3_OP_BMUL and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            go(e.arg(1), c * e.arg(0).as_signed_long())
        else:
            i = e.get_id()
            n = at.get(i, (e, 0))[1] + c
            if n:
                at[i] = (e, n)
            else:
                at.pop(i, None)
    go(e, c)
    return at, k


class SymR:
    """reader of an arbitrary buffer"""

    def __init__(self, arr, off, pre, cut=None):
        self.arr = arr; self.off = off; self.pre = pre; self.names = []; self.bytes = {}

    def at(self, off):
        r = SymR(self.arr, off, self.pre)
        r.names = self.names; r.bytes = self.bytes
        return r

    def fork(self):
        return self.at(self.off)

    def get(self, off, n):
        bs = [eng.arr_byte(self.arr, add(off, i)) for i in range(n)]
        for i, b in enumerate(bs):
            if z3.is_const(b):
                self.bytes[b.decl().name()] = (b, add(off, i))
        return simp(z3.Concat(*reversed(bs))) if n > 1 else simp(bs[0])

    def rd(self, n):
        v = self.get(self.off, n)
        self.off = add(self.off, n)
        return v

    def con(self):
        return self.rd(1)

    def loc(self, n, overlay):
        return self.rd(n)

    def seq(self, n):
        return self.rd(n)

    def skip(self, n):
        self.off = add(self.off, n)

    def peek(self, d, n, kind=None):
        return self.get(add(self.off, d), n)

    def count(self, n, least=0):
        v = zext(self.rd(n), 8 * n, 64)
        if n == 4:
            self.pre.append(z3.ULT(v, bv(BIG, 64)))
        if least:
            self.pre.append(z3.UGE(v, bv(least, 64)))
        return v

    def peek_count(self, d, when):
        v = zext(self.get(add(self.off, d), 4), 32, 64)
        self.pre.append(z3.Implies(tob(when), z3.ULT(v, bv(BIG, 64))))
        return v

    def choice(self, n, vals):
        v = self.rd(n)
        self.pre.append(z3.Or(*[v == bv(x, 8 * n) for x in vals]))
        return v

    def mask(self, n, bits, other):
        self.pre.append(z3.And(z3.ULE(bv(bits, 64), mul(n, 8)), z3.ULT(bv(other, 64), bv(BIG, 64))))

    def list(self, n, stride, elt, fn):
        o = self.off
        r = SFlat(elt, n, lambda j: SList(elt, [fn(self.at(add(o, mul(j, stride))))]), 1)
        self.off = add(o, mul(n, stride))
        if not isc(n):
            self.name()
        return r

    def name(self):
        """a name for the offset reached"""
        for z, e in self.names:
            if same(e, self.off):
                self.off = z
                return
        z = z3.BitVec('end of part %d' % len(self.names), 64)
        self.names.append((z, self.off))
        self.off = z

    def repeat(self, n, elt, fn):
        return SFlat(elt, n, lambda j: SList(elt, [fn(j)]), 1)

    def zone_start(self, con, loc, seq):
        pass

    def zone_end(self, places):
        self.name()
        return places


class SymCtx:
    """the context as the encoder sees it: arbitrary answers, every notification recorded"""

    def __init__(self, S):
        self.S = S
        w32 = z3.BitVecSort(32)
        self.fsize = z3.Function('pile size', w32, w32, z3.BitVecSort(64))
        self.reason = z3.BitVec('match win reason', 32)
        self.fmat = z3.Function('has materials', w32, w32, w32, w32, z3.BoolSort())
        self.fleft = [z3.Function('left.' + f, w32, w32, w32, w32, w32) for f in ('con', 'loc', 'seq', 'oseq')]
        self.deferred = None
        self.trace = []

    FIELDS = ('con', 'loc', 'seq', 'oseq')

    def key(self, p):
        return [bv(self.S.get(p, f), 32) for f in self.FIELDS]

    def pile_size(self, c, l):
        return self.fsize(bv(c, 32), bv(l, 32))

    def get_reason(self):
        return self.reason

    def has_mat(self, p):
        return self.fmat(*self.key(p))

    def left(self, p):
        k = self.key(p)
        return self.S.make('YGOpen::Proto::Duel::Place', **{f: g(*k) for f, g in zip(self.FIELDS, self.fleft)})

    def set_reason(self, r):
        self.trace.append(('reason', r))

    def handlers(self):
        S = self.S

        def log(st, *e):
            st.ghost['trace'] = st.ghost.get('trace', ()) + (Entry(*e),)

        def take(E, st, a, ins):
            log(st, 'take')
            stl.vec_init(E, st, a[0], self.deferred)
        return [(r'^c_pile_size$', lambda E, st, a, ins: self.pile_size(a[0], a[1])),
                (r'^c_get_reason$', lambda E, st, a, ins: self.reason),
                (r'^c_set_reason$', lambda E, st, a, ins: log(st, 'reason', a[0])),
                (r'^c_has_mat$', lambda E, st, a, ins: self.has_mat(E.getv(st, a[0]))),
                (r'^c_get_left$', lambda E, st, a, ins: E.setv(st, a[0], self.left(E.getv(st, a[1])))),
                (r'^c_defer$', lambda E, st, a, ins: log(st, 'defer', E.getv(st, a[0]))),
                (r'^c_take$', take),
                (r'^c_left$', lambda E, st, a, ins: log(st, 'left', E.getv(st, a[0]), E.getv(st, a[1])))]


class Entry:
    """one notification (opaque to joins: states with different traces stay apart)"""

    def __init__(self, name, *args):
        self.name = name; self.args = args

    def __repr__(self):
        return '%s%r' % (self.name, self.args)


MSG = 'YGOpen::Proto::Duel::Msg'
PLACE = 'YGOpen::Proto::Duel::Place'


class Encode(Check):
    trusted = ['protobuf accessor contracts (irv/pb.py)', 'std::vector contracts (irv/stl.py)', 'std::bitset is verified with the code']
    assumptions = ['the buffer holds one well-formed core message of its type: list counts below 2^27, sizes as the core writes them',
                   'the context (IEncodeContext) answers queries as a function of their arguments while one message is encoded']
    quick_native_s = 3

    def setup(self):
        self.S = self.ctx.schema()
        self.mod = self.ctx.mod('encode.cpp')

    def native_build(self):
        from . import natenc
        return natenc.build(self)

    # ------------------------------------------------------------
    def start(self, v, extra=()):
        """engine, state and specification for a message of type v"""
        S = self.S
        C = SymCtx(S)
        E = self.ctx.engine(self.mod, stl.Chain(stl.Named(C.handlers() + list(extra)), pbm.PbContracts(S), stl.StlContracts(S)))
        arr = z3.Array('buffer', z3.BitVecSort(64), z3.BitVecSort(8))
        st = eng.State()
        dl = z3.BitVec('number of deferred', 64)
        st.assume(z3.ULT(dl, bv(BIG, 64)))
        C.deferred = SBase(Elt('msg', 64, PLACE, self.mod.sizeof(('named', 'class.' + PLACE))), 'deferred', dl, lambda j: MsgVal(PLACE, None, ('deferred', (j,), None)))
        b = Ptr(E.new_obj(st, None, 'buffer', kind='arr', arr=arr))
        if v is not None:
            E.arr_const = {0: v}
        pre = []
        R = SymR(arr, 1, pre)
        s = Spec(S, R, C)
        return E, st, b, R, s, C, pre

    def run(self, E, st, b):
        out = Ptr(E.new_obj(st, 32, 'results', init='zero'))
        ar = Ptr(E.new_obj(st, 64, 'arena'))
        po = [E.padd(st, out, i) for i in (0, 8, 16)]
        res = E.call(st, 'd_encode', [ar, b] + po)
        fin = []
        for x, _ in res:
            fin.append((x, E.load(x, po[0], ('i', 32)), E.load(x, po[1], ('i', 64)), E.load(x, po[2], ('ptr',))))
        return fin

    def statev(self, E, st, name):
        return E.call(st, 'd_state_' + name.lower(), [])[0][1]

    def same_trace(self, E, s, got, want):
        ok = E.oblige(s, int([e.name for e in got] == [e[0] for e in want]), 'notifications to the context: %r' % [e[0] for e in want], 'post')
        if ok:
            for e, w in zip(got, want):
                for i, (x, y) in enumerate(zip(e.args, w[1:])):
                    if isinstance(y, MsgVal):
                        prove_msg(E, self.S, s, x, y, 'notification %s, argument %d' % (e.name, i))
                    else:
                        E.oblige(s, eq(x, y, 32), 'notification %s, argument %d' % (e.name, i), 'post')
        return ok

    def message(self, r, v):
        """run the encoder on an arbitrary message of type v and check what this property says about it"""
        E, st, b, R, s, C, pre = self.start(v)
        if v in MESSAGES:
            name, prop, f = MESSAGES[v]
            state, want = f(s, R, v)
            L = R.off
        else:
            state, want, L = UNKNOWN, None, 1
        for c in pre:
            st.assume(tob(c))
        r.need_cover(E.feasible(st), 'a well-formed message')
        E.on_read = (lambda eng_, x, o, off, n, cond: self.read(E, x, off, n, cond, L))
        if state == 'SWAPGD':
            self.runs = Runs(self.S, s, R.arr, want)
            self.runs.prove(E)
            E.hints = self.runs.hints
        todo = list(R.names)

        def name_off(E, x, off):
            for z, e in R.names[:len(R.names) - len(todo)]:
                if same(e, off):
                    return z
            if todo:
                z, e = todo[0]
                if E.valid(x, eq(off, e)):
                    todo.pop(0)
                    return z
            return off
        E.name_off = name_off
        self.R = R
        fin = self.run(E, st, b)
        r.need_cover(len(fin) > 0, 'an execution')
        for x, sv, by, mp in fin:
            if todo:
                # parts the code does not go through one by one
                for z, e in R.names:
                    x.assume(z == e)
                for c, o in R.bytes.values():
                    x.assume(c == z3.Select(R.arr, bv(o, 64)))
            self.check(E, x, v, s, state, want, L, sv, by, mp, C)
        r.take(E)

    def read(self, E, st, off, n, cond, L):
        pass

    def check(self, E, x, v, s, state, want, L, sv, by, mp, C):
        raise NotImplementedError

    def cases(self, E, x, s, state, want, C):
        """[(state, expected result state, expected message, expected trace)] by case of the specification"""
        if state == 'SWAPGD':
            x = x.copy().assume(self.runs.lemma(want[2]))
            return [(x, OK, self.runs.message(want), [])]
        if state == 'MOVE':
            return move_cases(E, self.S, x, s, want, C)
        return [(x, state, want, list(C.trace))]

    def values(self):
        return [v for v in MESSAGES if MESSAGES[v][1] == self.prop]

    def units(self):
        self.setup()
        return [('%s (%d)' % (MESSAGES[v][0], v), lambda r, v=v: self.message(r, v)) for v in self.values()]


class Runs:
    """the flagged cards of a deck and graveyard swap: C(k) flagged ones among the first k,
    R(k) length of the run of flagged ones that ends before k, B(k) start of the latest run"""

    def __init__(self, S, s, arr, want):
        self.S = S; self.s = s
        self.con, self.pos, self.gy, self.deck, self.bits = want
        w64, w32 = z3.BitVecSort(64), z3.BitVecSort(32)
        fs = [z3.Function(n, w64, w32) for n in ('flagged before', 'run before', 'start of run')]
        C, R, B = [(lambda k, f=f: z3.If(bv(k, 64) == 0, z3.BitVecVal(0, 32), f(bv(k, 64)))) for f in fs]

        def flag(k):
            k = bv(k, 64)
            b = z3.Select(arr, bv(self.bits, 64) + z3.LShR(k, 3))
            return z3.LShR(b, z3.Extract(7, 0, k & 7)) & 1 == 1

        def step(k):
            k = bv(k, 64)
            return z3.And(C(k + 1) == z3.If(flag(k), C(k) + 1, C(k)),
                          R(k + 1) == z3.If(flag(k), R(k) + 1, z3.BitVecVal(0, 32)),
                          B(k + 1) == z3.If(z3.And(flag(k), R(k) == 0), z3.Extract(31, 0, k), B(k)))

        def lemma(k):
            k = bv(k, 64)
            k32 = z3.Extract(31, 0, k)
            return z3.Implies(z3.ULT(k, bv(1 << 31, 64)), z3.And(z3.ULE(R(k), C(k)), z3.ULE(C(k), k32), z3.Implies(R(k) != 0, B(k) + R(k) == k32)))
        self.C, self.R, self.flag, self.step, self.lemma = C, R, flag, step, lemma
        un = (lambda k: z3.And(step(k), lemma(k)))
        H = irv_loop.Hint
        self.hints = [H('run', R, 32, un), H('sent', lambda k: C(k) - R(k), 32, un), H('start', B, 32, un)]

    def prove(self, E):
        """the lemma by induction"""
        st = eng.State()
        k = z3.BitVec('n', 64)
        E.oblige(st, simpb(self.lemma(bv(0, 64))), 'runs of flagged cards: base', 'lemma')
        st.assume(z3.And(z3.ULT(k, bv((1 << 31) - 1, 64)), self.step(k), self.lemma(k)))
        E.oblige(st, simpb(self.lemma(k + 1)), 'runs of flagged cards: step', 'lemma')

    def message(self, want):
        """graveyard and deck change places, then each run of flagged cards goes to the extra deck"""
        S, s, con = self.S, self.s, self.con
        oe = Elt('msg', 64, S.cls('Msg_Event_Pile_Splice__Operation'), 8)
        em = s_empty(oe)
        g, d = [trunc(x, 64, 32) for x in (self.gy, self.deck)]
        ops = s_cat(s_ite(b_not(eq(self.gy, 0)), SList(oe, [es.splice(s, con, GRAVE, 0, g, MAIN, 0)]), em),
                    s_ite(b_not(eq(self.deck, 0)), SList(oe, [es.splice(s, con, MAIN, g, d, GRAVE, 0)]), em))

        def run(k):
            # the run ends before k; the flagged cards before it have already left the deck
            r, c = self.R(k), self.C(k)
            return SList(oe, [es.splice(s, con, MAIN, simp(z3.Extract(31, 0, bv(k, 64)) - c), r, EXTRA, simp(bv(self.pos, 32) + c - r))])
        ends = (lambda k: s_ite(simpb(z3.And(z3.Not(self.flag(k)), self.R(k) != 0)), run(k), em))
        ops = s_cat(ops, SFlat(oe, self.gy, ends, None, 'runs', z3.BitVec('number of runs', 64)))
        ops = s_cat(ops, s_ite(simpb(self.R(self.gy) != 0), run(self.gy), em))
        return S.make('Msg', event=S.make('Msg_Event', pile=S.make('Msg_Event_Pile', splice=S.make('Msg_Event_Pile_Splice', ops=ops))))


def move_cases(E, S, x, s, want, C):
    a, b, reason = want
    g = S.get
    nowhere_a, nowhere_b = eq(g(a, 'loc'), 0, 32), eq(g(b, 'loc'), 0, 32)
    mat_a, mat_b = [simpb(bv(g(p, 'oseq'), 32) >= bv(0, 32)) for p in (a, b)]
    pile_a, pile_b = [nz(band(g(p, 'loc'), PILES), 32) for p in (a, b)]
    left = C.left(S.set(a, 'oseq', NONE))
    off_field = b_and(mat_a, pile_a)
    src = ite(off_field, S.set(left, 'oseq', g(a, 'oseq')), a)
    M = S.make

    def card(**kw):
        return M('Msg', event=M('Msg_Event', card=M('Msg_Event_Card', reason=reason, **kw)))

    def op(p, q):
        return M('Msg_Event_Card_Move__Operation', old_place=p, new_place=q)

    def mv(ops):
        return card(move=M('Msg_Event_Card_Move', ops=ops))
    n = b_not
    fieldward = b_and(n(nowhere_a), n(nowhere_b), n(mat_b), n(pile_b))
    attach_off = b_and(n(nowhere_a), n(nowhere_b), mat_b, pile_b)
    other = b_and(n(nowhere_a), n(nowhere_b), n(attach_off), n(fieldward))
    mats = C.has_mat(a)
    empty = MsgVal(PLACE)
    # materials deferred before this move onto the field: those already in their place need no operation
    oe = Elt('msg', 64, S.cls('Msg_Event_Card_Move__Operation'), 8)

    def attach(j):
        d = C.deferred.at(j)
        q = S.set(b, 'oseq', trunc(j, 64, 32))
        stays = b_and(*[eq(g(d, f), g(q, f), 32) for f in ('con', 'loc', 'seq', 'oseq')])
        return s_ite(stays, s_empty(oe), SList(oe, [op(d, q)]))
    cs = [
        (b_and(nowhere_a, nowhere_b), SWALLOWED, None, []),
        (b_and(nowhere_a, n(nowhere_b)), OK, card(add=M('Msg_Event_Card_Add', places=[b])), []),
        (b_and(n(nowhere_a), nowhere_b, n(b_and(n(pile_a), mats))), OK, card(remove=M('Msg_Event_Card_Remove', places=[src])), []),
        (b_and(n(nowhere_a), nowhere_b, n(pile_a), mats), OK, card(remove=M('Msg_Event_Card_Remove', places=[src])), [('left', a, empty)]),
        (attach_off, SWALLOWED, None, [('defer', src)]),
        (fieldward, OK, mv(s_cat(SFlat(oe, C.deferred.len, attach, None, 'attached', z3.BitVec('number attached', 64)), SList(oe, [op(src, b)]))), [('take',)]),
        (b_and(other, b_and(n(pile_a), pile_b, mats)), OK, mv([op(src, b)]), [('left', b, a)]),
        (b_and(other, n(b_and(n(pile_a), pile_b, mats))), OK, mv([op(src, b)]), []),
    ]
    out = []
    for c, state, m, tr in cs:
        x2 = x.copy().assume(tob(c))
        if E.feasible(x2):
            out.append((x2, state, m, tr))
    return out


class Content(Encode):
    """C16, C17, C19, C20, C21: what the message becomes"""

    def check(self, E, x, v, s, state, want, L, sv, by, mp, C):
        for x2, state2, want2, tr in self.cases(E, x, s, state, want, C):
            E.oblige(x2, eq(sv, self.statev(E, x2, state2), 32), 'result state is %s' % state2, 'post')
            if want2 is None:
                E.oblige(x2, ptr_eq(mp, 0), 'no message', 'post')
            elif E.oblige(x2, b_not(ptr_eq(mp, 0)), 'there is a message', 'post'):
                got = E.getv(x2, mp)
                prove_msg(E, self.S, x2, got, want2, 'message')
            self.same_trace(E, x2, x2.ghost.get('trace', ()), tr)


class Rule:
    """contract of a loop over a buffer: at its head the reading position is any position reached"""
    cases = [None]

    def __init__(self, E, st, buf, at):
        self.E = E; self.buf = buf; self.at = at      # position at entry
        self.off = z3.BitVec('end of part before', 64)
        self.n = 0

    def is_buf(self, v):
        return isinstance(v, Ptr) and v.obj == self.buf

    def fresh(self, name, w):
        self.n += 1
        return z3.BitVec('%s#%d' % (name, self.n), w)

    def havoc(self, st, regs, locs):
        self.n = 0
        self.roles = {}
        st.assume(z3.And(z3.ULE(bv(self.at, 64), self.off), z3.ULT(self.off, bv(1 << 40, 64))))
        for loc, (v0, v1, w) in sorted(locs.items(), key=lambda x: str(x[0])):
            v = self.value(st, loc, v0, v1, w)
            if v is None:
                if isinstance(v0, MsgVal) or isinstance(v0, Seq):
                    raise ToolLimit('change of a message in a loop over the buffer')
                if self.is_buf(v0) and isc(v0.off) and v0.off == self.at:
                    v = Ptr(self.buf, self.off)
                    self.roles['position'] = loc
                elif isptr(v0) or isptr(v1):
                    v = POISON
                elif isinstance(v0, (int, z3.ExprRef)):
                    v = self.fresh('changed in the loop', w)
                else:
                    v = POISON
            irv_loop.set_loc(st, regs, loc, v)
        if 'position' not in self.roles:
            raise ToolLimit('no reading position in the loop')
        return st, regs

    def value(self, st, loc, v0, v1, w):
        return None

    def get(self, st, regs, role):
        loc = self.roles.get(role)
        return None if loc is None else irv_loop.get_loc(st, regs, loc)

    def begin(self, st, case):
        pass

    def leave(self, st, regs, case):
        pass


class QueryRule(Rule):
    """encode_one_query: any record of a query, after any records"""

    def __init__(self, chk, E, st, buf, qptr, flag, res):
        Rule.__init__(self, E, st, buf, 0)
        self.chk = chk; self.qptr = qptr; self.flag = flag; self.res = res
        S = chk.S
        self.m = S.symbolic(S.cls('Msg_Query_Data'), 'query')
        self.oc = z3.BitVec('overlays before', 32)
        self.op = z3.BitVec('overlay position before', 64)
        self.pre = []
        self.R = SymR(E.arr_, self.off, self.pre)
        self.s = Spec(S, self.R, None)
        R = self.R
        size = zext(R.rd(2), 16, 64)
        fl = R.rd(4)
        known = list(QUERIES) + [QOVERLAY, QEND]
        self.want = (self.m, self.oc, self.op)
        if flag is None:
            self.pre += [fl != bv(f, 32) for f in known]
            self.pre.append(z3.UGE(size, bv(4, 64)))
            R.off = add(self.off, add(size, 2))
        else:
            self.pre.append(fl == bv(flag, 32))
            if flag in QUERIES:
                self.want = (QUERIES[flag][2](self.s, R, self.m), self.oc, self.op)
            elif flag == QOVERLAY:
                n = R.count(4)
                self.want = (self.m, trunc(n, 64, 32), add(self.off, 10))
                R.skip(umul(n, 4))
            n = sub(R.off, add(self.off, 2))
            for z, e in reversed(R.names):
                n = simp(z3.substitute(n, (z, bv(e, 64)))) if not isc(n) else n
            if flag != QEND:
                self.pre.append(size == bv(n, 64))
        self.end = R.off
        self.backs = 0

    def value(self, st, loc, v0, v1, w):
        if loc[0] == 'c' and loc[1] == self.res and loc[3] == 4 and v1 is not POISON:
            self.roles['count'] = loc
            return self.oc
        if loc[0] == 'c' and loc[1] == self.res and loc[3] == 8 and v1 is not POISON:
            self.roles['overlays'] = loc
            return Ptr(self.buf, self.op)
        if loc[0] == 'c' and loc[1] == self.qptr.obj:
            return irv_loop.vget(self.m, loc[4])
        return None

    def begin(self, st, case):
        for c in self.pre:
            st.assume(tob(c))
        self.E.setv(st, self.qptr, self.m)

    def back(self, st, regs, case):
        E, S = self.E, self.chk.S
        self.backs += 1
        m, oc, op = self.want
        p = self.get(st, regs, 'position')
        for z, e in self.R.names:
            st.assume(z == e)
        if self.chk.prop == 'C14':
            E.oblige(st, b_and(int(self.is_buf(p)), eq(p.off, self.end)), 'the next record starts where this one ends', 'post')
            return
        E.oblige(st, b_and(int(self.is_buf(p)), eq(p.off, self.end)), 'the next record starts where this one ends', 'post')
        prove_msg(E, S, st, E.getv(st, self.qptr), m, 'query data')
        E.oblige(st, eq(self.get(st, regs, 'count') if 'count' in self.roles else self.oc, oc, 32), 'number of overlay codes', 'post')
        q = self.get(st, regs, 'overlays') if 'overlays' in self.roles else Ptr(self.buf, self.op)
        E.oblige(st, ptr_eq(q, Ptr(self.buf, op)), 'position of the overlay codes', 'post')


class C16(Content):
    prop = 'C16'
    explain = 'Every event message: the event built from an arbitrary well-formed message is proved equal, field by field and list element by list element, to the translation written as a specification over the bytes.'


class C17(Content):
    prop = 'C17'
    explain = 'Every request message: the request built from an arbitrary well-formed message is proved equal, field by field and option by option, to the translation written as a specification over the bytes.'


class C19(Content):
    prop = 'C19'
    explain = 'MSG_MOVE with arbitrary places: every case of the translation, the operations for deferred materials (any number), and each notification to the context with its arguments.'


class C20(Content):
    prop = 'C20'
    explain = 'Draw, deck reversal, deck top and deck/graveyard swap with arbitrary pile sizes and flags: each splice proved to address the cards meant; the runs of flagged cards by induction over the flags (prefix count and run length).'


class C21(Content):
    prop = 'C21'
    explain = 'For an arbitrary 32-bit mask the unpacked list is proved equal to the fixed-order list with one place for each clear bit that stands for a zone.'


class Queries(Content):
    """encode_one_query record by record, then the messages that hold queries over its contract"""

    def record(self, r, flag):
        S = self.S
        E = self.ctx.engine(self.mod, stl.Chain(pbm.PbContracts(S), stl.StlContracts(S)))
        arr = z3.Array('buffer', z3.BitVecSort(64), z3.BitVecSort(8))
        E.arr_ = arr
        st = eng.State()
        b = Ptr(E.new_obj(st, None, 'buffer', kind='arr', arr=arr))
        q = Ptr(E.new_obj(st, 64, 'query'))
        E.setv(st, q, MsgVal(S.cls('Msg_Query_Data')))
        out = Ptr(E.new_obj(st, 32, 'results', init='zero'))
        po = [E.padd(st, out, i) for i in (0, 8, 16)]
        rules = []

        def rule(fn, header, s, regs):
            if rules:
                return None
            # the object that holds the result: the one with the byte count, found by its size
            res = [o for o in s.mem if s.mem[o].size == 24 and s.mem[o].kind != 'arr']
            x = QueryRule(self, E, s, b.obj, q, flag, res[0] if len(res) == 1 else None)
            # the first record is at the start
            first = [v for v in list(regs.values()) + [c[1] for o in s.mem.values() if getattr(o, 'cells', None) for c in o.cells.values()] if x.is_buf(v)]
            E.oblige(s, int(bool(first) and all(v.off == 0 for v in first if isc(v.off))), 'the first record is at the start', 'pre')
            for i in (0, 8):
                if x.res is not None:
                    v = E.load(s, E.padd(s, Ptr(x.res), i), ('i', 32) if i == 0 else ('ptr',))
                    E.oblige(s, eq(v, 0, 32) if i == 0 else 1, 'no overlay codes before the first record', 'pre')
            rules.append(x)
            todo = list(x.R.names)

            def name_off(E, y, off):
                for z, e in x.R.names[:len(x.R.names) - len(todo)]:
                    if same(e, off):
                        return z
                return off
            E.name_off = name_off
            if self.prop == 'C14':
                self.R = x.R
                E.on_read = lambda e, y, o, off, n, cond: self.read_query(E, y, off, n, cond, x)
            return x
        E.loop_rule = rule
        fin = E.call(st, 'd_query', [q, b] + po)
        r.need_cover(len(rules) == 1, 'a loop over the records')
        x = rules[0]
        if flag == QEND:
            r.need_cover(len(fin) > 0, 'the end marker ends the query')
            E.oblige(st, int(x.backs == 0), 'the end marker ends the query', 'post')
        else:
            r.need_cover(x.backs > 0, 'a record')
            E.oblige(st, int(not any(E.feasible(y) for y, _ in fin)), 'a record does not end the query', 'post')
        for y, _ in fin if flag == QEND else []:
            E.oblige(y, eq(E.load(y, po[2], ('i', 64)), add(x.off, 6)), 'bytes_read is the length of the query', 'post')
            if self.prop != 'C14':
                prove_msg(E, S, y, E.getv(y, q), x.m, 'query data')
                E.oblige(y, eq(E.load(y, po[0], ('i', 32)), x.oc, 32), 'number of overlay codes', 'post')
                E.oblige(y, ptr_eq(E.load(y, po[1], ('ptr',)), Ptr(b.obj, x.op)), 'position of the overlay codes', 'post')
        r.take(E)

    def read_query(self, E, st, off, n, cond, x):
        C14.read(self, E, st, off, n, cond, x.end)

    # ------------------------------------------------------------ messages that hold queries
    def contract(self, E, buf, pre):
        """encode_one_query as proved record by record: what it gives is a function of where the query starts"""
        S = self.S
        w64, w32 = z3.BitVecSort(64), z3.BitVecSort(32)
        self.BL = z3.Function('length of the query at', w64, w64)
        self.OC = z3.Function('overlay codes of the query at', w64, w32)
        self.OP = z3.Function('overlay position of the query at', w64, w64)

        def h(eng_, st, a, ins):
            res, data, q = a
            if not (isinstance(data, Ptr) and data.obj == buf):
                raise ToolLimit('query at an unknown position')
            o = bv(data.off, 64)
            m = eng_.getv(st, q)
            eng_.oblige(st, int(isinstance(m, MsgVal) and m.src is None and not m.f), 'the query data are empty before', 'pre')
            eng_.setv(st, q, self.qdata(data.off))
            eng_.store(st, res, ('i', 32), simp(self.OC(o)))
            eng_.store(st, eng_.padd(st, res, 8), ('ptr',), Ptr(buf, simp(self.OP(o))))
            eng_.store(st, eng_.padd(st, res, 16), ('i', 64), simp(self.BL(o)))
            for c in self.wf(data.off):
                st.assume(c)
            self.called.append(data.off)
        return [(r'encode_one_query\(', h)]

    def wf(self, off):
        o = bv(off, 64)
        n = z3.ZeroExt(32, self.OC(o))
        return [z3.UGE(self.BL(o), bv(6, 64)), z3.ULT(self.BL(o), bv(BIG * 8, 64)), z3.ULT(n, bv(BIG, 64)),
                z3.Implies(n != 0, z3.And(z3.UGE(self.OP(o), o + 10), z3.ULE(self.OP(o) + 4 * n, o + self.BL(o)), z3.ULT(self.OP(o), bv(1 << 40, 64))))]

    def qdata(self, off):
        return MsgVal(self.S.cls('Msg_Query_Data'), None, ('query at', (off,), None))

    def of_query(self, s, place, off, R):
        """the queries that one query gives: its own and one for each overlay code"""
        S = self.S
        e = s.elt('Msg_Query')
        o = bv(off, 64)
        op = simp(self.OP(o))

        def code(j):
            c = R.at(add(op, mul(j, 4))).rd(4)
            d = s.M('Msg_Query_Data', code=S.set(MsgVal(S.fld(S.cls('Msg_Query_Data'), 'code').cls), 'value', c))
            return SList(e, [s.M('Msg_Query', place=S.set(place, 'oseq', trunc(j, 64, 32)), data=d)])
        return s_cat(SList(e, [s.M('Msg_Query', place=place, data=self.qdata(off))]), SFlat(e, zext(simp(self.OC(o)), 32, 64), code, 1))

    def start(self, v, extra=()):
        S = self.S
        if v not in (6, 7):
            return Encode.start(self, v, extra)
        ex = [('encode_one_query\\(', lambda E, st, a, ins: self.q_handler(E, st, a, ins))]
        t = Encode.start(self, v, ex)
        self.called = []
        self.q_handler = self.contract(t[0], t[2].obj, t[6])[0][1]
        return t

    def card(self, r):
        """MSG_UPDATE_CARD"""
        E, st, b, R, s, C, pre = self.start(7)
        state, p = MESSAGES[7][2](s, R, 7)
        at = R.off
        for c in pre:
            st.assume(tob(c))
        for c in self.wf(at):
            st.assume(c)
        r.need_cover(E.feasible(st), 'a well-formed message')
        L = add(at, simp(self.BL(bv(at, 64))))
        self.R = R
        E.on_read = (lambda eng_, x, o, off, n, cond: self.qread(E, x, off, n, cond, L))
        fin = self.run(E, st, b)
        r.need_cover(len(fin) > 0, 'an execution')
        E.oblige(st, int(len(self.called) >= 1 and all(isc(o) and o == at for o in self.called)), 'the query is the one that follows the place', 'post')
        for x, sv, by, mp in fin:
            want = s.M('Msg', queries=self.of_query(s, p, at, R))
            self.check(E, x, 7, s, OK, want, L, sv, by, mp, C)
        r.take(E)

    def qread(self, E, st, off, n, cond, L):
        pass

    def data(self, r):
        """MSG_UPDATE_DATA"""
        E, st, b, R, s, C, pre = self.start(6)
        state, (con, loc) = MESSAGES[6][2](s, R, 6)
        total = zext(R.rd(4), 32, 64)
        at = R.off
        L = add(at, total)
        for c in pre:
            st.assume(tob(c))
        st.assume(z3.ULT(total, bv(1 << 31, 64)))
        self.R = R
        E.on_read = (lambda eng_, x, o, off, n, cond: self.qread(E, x, off, n, cond, L))
        chk = self
        rules = []

        class Slots(Rule):
            cases = ['empty', 'query']

            def __init__(self, E, st, buf):
                Rule.__init__(self, E, st, buf, at)
                self.i = z3.BitVec('slots before', 32)
                self.counts = {}
                self.q = SBase(s.elt('Msg_Query'), 'queries before', z3.BitVec('number of queries before', 64),
                               lambda j: MsgVal(chk.S.cls('Msg_Query'), None, ('queries before', (j,), None)))
                self.rd = SymR(R.arr, self.off, [])

            def value(self, st, loc, v0, v1, w):
                if isinstance(v0, Seq):
                    st.assume(z3.ULT(self.q.len, bv(BIG, 64)))
                    self.roles['queries'] = loc
                    return self.q
                if isinstance(v0, int) and v0 == 0 and w in (32, 64):
                    # which count is it?  (in the first slot: 1 more per slot, or the bytes used)
                    if isc(v1) and v1 == 1:
                        self.counts[loc] = ('slots are counted, empty ones too', lambda i, off: zext(i, 32, w), w)
                        return zext(self.i, 32, w)
                    if not isc(v1):
                        f = lambda i, off: trunc(sub(off, at), 64, w)
                        self.counts[loc] = ('bytes used', f, w)
                        return f(self.i, self.off)
                if isinstance(v0, z3.ExprRef) and w in (32, 64) and same(v0, trunc(total, 64, w)):
                    f = lambda i, off: trunc(sub(L, off), 64, w)
                    self.counts[loc] = ('bytes left', f, w)
                    return f(self.i, self.off)
                return None

            def begin(self, st, case):
                st.assume(z3.And(z3.ULE(self.off, bv(L, 64)), z3.ULT(self.i, bv(1 << 31, 32))))
                inside = z3.ULT(self.off, bv(L, 64))
                u = self.rd.at(self.off).rd(2)
                if case == 'empty':
                    st.assume(z3.Implies(inside, z3.And(u == 0, z3.ULE(self.off + 2, bv(L, 64)))))
                else:
                    for c in chk.wf(self.off):
                        st.assume(c)
                    st.assume(z3.Implies(inside, z3.And(u != 0, z3.ULE(self.off + chk.BL(self.off), bv(L, 64)))))

            def back(self, st, regs, case):
                E.oblige(st, int('queries' in self.roles), 'the loop keeps the queries', 'post')
                nxt = add(self.off, 2) if case == 'empty' else add(self.off, simp(chk.BL(self.off)))
                p = self.get(st, regs, 'position')
                E.oblige(st, b_and(int(self.is_buf(p)), eq(p.off, nxt)), 'the next slot starts where this one ends', 'post')
                for c, (what, f, w) in self.counts.items():
                    E.oblige(st, eq(irv_loop.get_loc(st, regs, c), f(add(self.i, 1, 32), nxt), w), what, 'post')
                if chk.prop == 'C18':
                    l, q = s.fix(loc, self.i, 32)
                    want = self.q if case == 'empty' else s_cat(self.q, chk.of_query(s, s.place(con, l, q), self.off, self.rd))
                    prove_seq(E, chk.S, st, self.get(st, regs, 'queries'), want, 'queries (%s slot)' % case)
                self.backs = getattr(self, 'backs', 0) + 1

        def rule(fn, header, x, regs):
            if rules:
                return None
            rules.append(Slots(E, x, b.obj))
            return rules[0]
        E.loop_rule = rule
        fin = self.run(E, st, b)
        r.need_cover(len(rules) == 1 and len(fin) > 0, 'an execution with slots')
        sl = rules[0]
        r.need_cover(getattr(sl, 'backs', 0) >= 2, 'empty and other slots')
        r.need_cover(len(self.called) > 0, 'a query')
        for x, sv, by, mp in fin:
            want = s.M('Msg', queries=sl.q)
            self.check(E, x, 6, s, OK, want, L, sv, by, mp, C)
        r.take(E)

    def containers(self):
        return [('update_card (7)', self.card), ('update_data (6)', self.data)]

    def records(self):
        us = [('query %s' % QUERIES[f][0], lambda r, f=f: self.record(r, f)) for f in QUERIES]
        us.append(('query overlays', lambda r: self.record(r, QOVERLAY)))
        us.append(('query end', lambda r: self.record(r, QEND)))
        us.append(('query of another kind', lambda r: self.record(r, None)))
        return us


class C18(Queries):
    prop = 'C18'
    explain = 'Query blobs by induction over their records: from an arbitrary message and position any well-formed record is proved to have exactly its effect and to leave the position at the next record; MSG_UPDATE_DATA and MSG_UPDATE_CARD over that contract, slot by slot, with any number of slots and overlay codes.'

    def units(self):
        self.setup()
        return self.records() + self.containers()


class C14(Queries):
    prop = 'C14'
    explain = 'For every message type with an arbitrary well-formed content the encoder is run over its real IR: each read of the buffer is an obligation to lie inside of the message, and the reported byte count is proved equal to the length of the message.'

    def values(self):
        return [v for v in MESSAGES if v not in (6, 7)]

    def units(self):
        return Encode.units(self) + self.records() + self.containers()

    def qread(self, E, st, off, n, cond, L):
        self.read(E, st, off, n, cond, L)

    def read(self, E, st, off, n, cond, L):
        what = 'read of %d byte(s) inside of the message in %s' % (n, E.where()[:80])
        st = st.copy()
        st.assume(tob(cond))
        # each part ends before the next one and the last one before the message
        o = lin(off)
        for z, e in (self.R.names + [(L, L)]) if o[1] >= 0 and all(c > 0 for _, c in o[0].values()) else []:
            d = lin(e, lin(off, ({}, -n), -1))
            if d is None:
                continue
            ats = sorted(d[0].items(), key=lambda x: x[1][1])
            pos = [x for x in ats if x[1][1] > 0]
            if len(pos) == len(ats) and 0 <= d[1] < 1 << 32:
                break       # the rest of the part: a sum of sizes
            if len(pos) == 1 and (len(ats) == 1 or len(ats) == 2 and ats[0][1][1] == -ats[1][1][1]) and d[1] < 1 << 32:
                K = ats[0][1][0] if len(ats) == 2 else bv(0, 64)
                N, sz = ats[-1][1]
                m = max(1, -(d[1] // sz))      # N - K >= m is enough
                if m < 5 and E.valid(st, simpb(z3.And(z3.ULT(K, bv(1 << 40, 64)), z3.ULT(K + (m - 1), N), z3.ULT(N, bv(1 << 32, 64))))):
                    k = z3.Int('k'); n_ = z3.Int('n')
                    if E._check([z3.Not(z3.Implies(z3.And(k >= 0, k + m <= n_), sz * n_ - sz * k + d[1] >= 0))])[0] == z3.unsat:
                        break
        else:
            for z, e in self.R.names:
                if V_mentions(off, z) or V_mentions(e, z) and any(V_mentions(e, y) and V_mentions(off, y) for y, _ in self.R.names):
                    st.assume(z3.And(z3.ULT(z, bv(1 << 40, 64)), z == e, tob(ule(z, L))))
            for z, e in self.R.names:
                if any(V_mentions(e, y) and V_mentions(off, y) for y, _ in self.R.names):
                    st.assume(z3.And(tob(ule(e, L)), z3.ULT(z, bv(1 << 40, 64))))
            E.oblige(st, b_and(ule(add(off, n), L), ule(off, add(off, n))), what, 'bounds')
            return
        E.oblige(st, 1, what, 'bounds')

    def check(self, E, x, v, s, state, want, L, sv, by, mp, C):
        E.oblige(x, eq(by, L), 'bytes_read is the length of the message', 'post')


class C15(Queries):
    prop = 'C15'
    explain = 'For each of the 256 message values with an arbitrary well-formed content: result state, null or non-null message, byte count and the notifications to the context.'

    def units(self):
        self.setup()
        unk = [v for v in range(256) if v not in MESSAGES]
        us = [('%s (%d)' % (MESSAGES[v][0], v), lambda r, v=v: self.message(r, v)) for v in MESSAGES if v not in (6, 7)] + self.containers()
        for i in range(0, len(unk), 40):
            us.append(('unhandled values %d-%d' % (unk[i], unk[min(i + 39, len(unk) - 1)]), lambda r, vs=unk[i:i + 40]: [self.message(r, v) for v in vs]))
        return us

    def check(self, E, x, v, s, state, want, L, sv, by, mp, C):
        x = x.copy()
        for z, e in self.R.names:
            x.assume(z3.And(z != 0, z3.ULT(z, bv(1 << 40, 64))))       # offsets grow from 1
        for x2, state2, want2, tr in self.cases(E, x, s, state, want, C):
            if state2 not in (OK, SWALLOWED, UNKNOWN):
                state2 = OK
            E.oblige(x2, eq(sv, self.statev(E, x2, state2), 32), 'result state is %s' % state2, 'post')
            E.oblige(x2, ptr_eq(mp, 0) if state2 != OK else b_not(ptr_eq(mp, 0)), 'message pointer is %s' % ('null' if state2 != OK else 'not null'), 'post')
            if state2 != UNKNOWN:
                E.oblige(x2, b_not(eq(by, 0)), 'byte count is not zero', 'post')
            if state2 == SWALLOWED:
                E.oblige(x2, eq(by, L), 'bytes_read is the length of the message', 'post')
            if state2 != OK:
                self.same_trace(E, x2, x2.ghost.get('trace', ()), tr)


CHECKS = {'C14': C14, 'C15': C15, 'C16': C16, 'C17': C17, 'C18': C18, 'C19': C19, 'C20': C20, 'C21': C21}
