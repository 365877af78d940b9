"""C22, C23: answers to the core's bytes (codec/edo9300_ocgcore_decode.cpp)."""
import z3
from .base import *
from irv.val import *
from .specs import *

SRC = 'src/codec/edo9300_ocgcore_decode.cpp'
I8 = Elt('i', 8, None, 1)
A = 'YGOpen::Proto::Duel::Answer'
R = 'YGOpen::Proto::Duel::Msg_Request'
PHASE = {'MAIN_2': 0x100, 'END': 0x200, 'BATTLE': 0x80}


def le(v, n):
    return [byte_of(v, i, 8 * n) for i in range(n)]


def flat(head, n, m, fn):
    """literal bytes followed by n groups of m bytes"""
    return s_cat(SList(I8, head), SFlat(I8, n, None, m)) if fn is None else Blocks(head, n, m, fn)


class Blocks(Seq):
    """specification: literal bytes, then n blocks of m bytes given by fn(block number) -> m bytes"""

    def __init__(self, head, n, m, fn):
        self.elt = I8; self.head = head; self.n = n; self.m = m; self.fn = fn
        self.len = add(len(head), mul(n, m))

    def _at(self, i):
        h = len(self.head)
        j = sub(i, h)
        k = z3.UDiv(bv(j, 64), bv(self.m, 64)) if not isc(j) else j // self.m
        t = z3.URem(bv(j, 64), bv(self.m, 64)) if not isc(j) else j % self.m
        if self.m & (self.m - 1) == 0 and not isc(j):
            k = z3.LShR(bv(j, 64), self.m.bit_length() - 1)
            t = bv(j, 64) & (self.m - 1)
        bs = self.fn(k)
        v = bs[-1]
        for x in range(self.m - 2, -1, -1):
            v = ite(eq(t, x), bs[x], v, 8)
        for x in range(h - 1, -1, -1):
            v = ite(eq(i, x), self.head[x], v, 8)
        return v


class Decode(Check):
    trusted = ['protobuf accessor contracts (irv/pb.py)', 'std::vector contracts (irv/stl.py)']

    def native_build(self):
        return self.ctx.work.exe(['n_decode.cpp'], 'n_decode', repo_srcs=self.srcs)

    def setup(self):
        self.S = self.ctx.schema()
        self.mod = self.ctx.mod(SRC, (), True)
        fn = [n for d, n in self.mod.bydem.items() if d.startswith('YGOpen::Codec::Edo9300::OCGCore::decode_one_answer(') and '::$' not in d and n in self.mod.funcs]
        if len(fn) != 1:
            raise ToolLimit('decode_one_answer: %r' % fn)
        self.fn = fn[0]

    def engine(self):
        return self.ctx.engine(self.mod, stl.Chain(pbm.PbContracts(self.S), stl.StlContracts(self.S)))

    def run(self, E, request, answer, pre=()):
        """[(state, out)] of decode_one_answer on an arbitrary output buffer"""
        st = eng.State()
        for c in pre:
            st.assume(tob(c))
        rq, an = Ptr(E.new_obj(st, None, 'request')), Ptr(E.new_obj(st, None, 'answer'))
        E.setv_raw(st, rq, 64, request)
        E.setv_raw(st, an, 64, answer)
        n = z3.BitVec('stale bytes', 64)
        f = z3.Function('stale', z3.BitVecSort(64), z3.BitVecSort(8))
        st.assume(z3.ULT(n, bv(1 << 40, 64)))
        out = Ptr(E.new_obj(st, None, 'out'))
        stl.vec_init(E, st, out, SBase(I8, 'stale', n, lambda j: f(bv(j, 64))))
        res = E.call(st, self.fn, [rq, an, out])
        return [(s, stl.vec_seq(E, s, out), rq, an, request, answer) for s, _ in res]


class C22(Decode):
    prop = 'C22'
    srcs = [SRC]
    assumptions = ['an answer has its kind set, matches the kind of its request, names one phase the request offers, indices below 2^16 (2^8 for sorting) and at most 255 sorted cards: the widths of the core\'s format',
                   'counters are not implemented (SELECT_COUNTER is a TODO that writes nothing) and are excluded']
    explain = ('decode_one_answer runs over its real IR for every kind of answer with all values and list lengths symbolic and an arbitrary previous buffer; '
               'the resulting bytes (length and byte at an arbitrary index) are proved equal to the core\'s format written out as a specification.')

    def units(self):
        self.setup()
        S = self.S
        ans = lambda **kw: S.symbolic(A, 'answer')
        us = []

        def unit(name, answer, want, request=None, pre=()):
            def go(r):
                E = self.engine()
                rq = request if request is not None else S.symbolic(R, 'request')
                w = want() if callable(want) else want
                res = self.run(E, rq, answer, pre)
                for s, out, prq, pan, rq0, an0 in res:
                    prove_seq(E, S, s, out, w, 'bytes of ' + name)
                    E.oblige(s, 1 if E.getv(s, pan) is answer and E.getv(s, prq) is rq else 0, name + ': request and answer are not changed', 'frame')
                r.need_cover(bool(res), name)
                r.take(E)
            us.append((name, go))

        def top(field, v):
            return S.set(MsgVal(A), field, v)
        x32 = z3.BitVec('value', 32)
        x64 = z3.BitVec('value', 64)
        b1 = z3.Bool('value')
        for f in ('select_attribute', 'select_card_code', 'select_effect', 'select_number', 'select_position', 'select_rock_paper_scissors'):
            unit(f, top(f, x32), SList(I8, le(x32, 4)))
        unit('select_race', top('select_race', x64), SList(I8, le(x64, 8)))
        unit('select_yes_no', top('select_yes_no', b1), SList(I8, [ite(b1, 1, 0, 8), 0, 0, 0]))
        m1 = SList(I8, [255] * 4)
        # cards
        for f in ('cancel', 'finish'):
            unit('select_card ' + f, top('select_card', S.set(MsgVal(A + '_SelectCard'), f, b1)), m1)
        idx = S.symbolic(A + '_Indexes', 'indexes')
        vals = S.rawget(idx, 'values')
        n = vals.len
        cards = top('select_card', S.set(MsgVal(A + '_SelectCard'), 'indexes', idx))
        i = z3.BitVec('i!', 64)
        M = S.msgs[R + '_SelectCard']
        rc = S.symbolic(R + '_SelectCard', 'request_cards')
        rec = M.fields['recursive'].num

        def creq(recursive):
            sc = rc.setk(('case', 't'), rec) if recursive else rc
            return S.set(MsgVal(R), 'select_card', sc)
        c = S.case(rc, 't')
        unit('select_card indexes, recursive request', cards, SList(I8, le(1, 4) + le(vals.at(0), 4)), creq(True), [ult(0, n)])
        unit('select_card indexes', cards, Blocks(le(1, 4) + le(trunc(n, 64, 32), 4), n, 2, lambda k: le(trunc(vals.at(k), 32, 16), 2)), creq(False), [ult(0, n), b_not(eq(c, rec, 32))])
        # idle
        idle = lambda f, v: top('select_idle', S.set(MsgVal(A + '_SelectIdle'), f, v))
        ir = S.symbolic(R + '_SelectIdle', 'request_idle')
        bcmd = lambda b: S.set(MsgVal(R), 'select_idle', ir.setk('is_battle_cmd', b))
        anyidle = S.set(MsgVal(R), 'select_idle', ir)
        unit('select_idle shuffle', idle('shuffle', b1), SList(I8, le(8, 4)), anyidle)
        for b, ph, want in ((1, 'MAIN_2', 2), (1, 'END', 3), (0, 'BATTLE', 6), (0, 'END', 7)):
            unit('select_idle phase %s, %s' % (ph, 'battle' if b else 'main'), idle('phase', PHASE[ph]), SList(I8, le(want, 4)), bcmd(b))
        act = lambda a: idle('card_action', MsgVal(A + '_SelectIdle_CardAction', {'action': a, 'index': x32}))
        V = S.values
        for a, b, t in (('ACTIVATE', 1, 0), ('ACTIVATE', 0, 5), ('SUMMON', 0, 0), ('SPSUMMON', 0, 1), ('REPOSITION', 0, 2), ('MSET', 0, 3), ('SSET', 0, 4), ('ATTACK', 1, 1)):
            unit('select_idle %s %s' % (a, 'battle' if b else 'main'), act(S.values['ACTION_' + a]), SList(I8, le(t, 2) + le(trunc(x32, 32, 16), 2)), bcmd(b))
        # chain
        unit('select_to_chain no_op', top('select_to_chain', S.set(MsgVal(A + '_SelectToChain'), 'no_op', b1)), m1)
        unit('select_to_chain index', top('select_to_chain', S.set(MsgVal(A + '_SelectToChain'), 'index', x32)), SList(I8, le(x32, 4)))
        # zones
        zn = S.symbolic(A + '_SelectZone', 'zones')
        pl = S.rawget(zn, 'places')

        def zone(k):
            p = pl.at(k)
            return core_zone(S, p)
        unit('select_zone', top('select_zone', zn), Blocks([], pl.len, 3, zone))
        # sort
        unit('sort skip', top('sort', S.set(MsgVal(A + '_Sort'), 'skip', b1)), m1)
        sort = top('sort', S.set(MsgVal(A + '_Sort'), 'indexes', idx))
        unit('sort', sort, Blocks([trunc(n, 64, 8)], n, 1, lambda k: [trunc(vals.at(k), 32, 8)]))
        return us


def core_zone(S, p):
    """controller, core location, core sequence of a place: the core keeps field and pendulum zones
    as spell zone sequences 5 and 6, 7"""
    con, loc, seq = S.get(p, 'con'), S.get(p, 'loc'), S.get(p, 'seq')
    f, pz = eq(loc, 0x100, 32), eq(loc, 0x200, 32)
    cl = ite(b_or(f, pz), 8, trunc(loc, 32, 8), 8)
    cs = trunc(add(seq, ite(f, 5, ite(pz, 6, 0, 32), 32), 32), 32, 8)
    return [trunc(con, 32, 8), cl, cs]


CHECKS = {'C22': C22}
