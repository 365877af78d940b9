"""C23: a zone of a request, answered unchanged, names the mask bit it came from (encoder and decoder together)."""
import z3
from .base import *
from irv.val import *
from .specs import *
from . import decode, encode
from .encode import MESSAGES, PLACE
from .decode import A, R, le

ESRC = 'src/codec/edo9300_ocgcore_encode.cpp'


def beq(a, b):
    return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))


def zone_bytes(b, con):
    """the core's own reading of a bit of the mask: player, location, sequence"""
    i = b & 15
    c = con if b < 16 else sub(1, con, 8)
    return [c, 4, i] if i < 8 else [c, 8, i - 8]


class C23(decode.Decode):
    prop = 'C23'
    explain = ('decode_one_answer is run on one arbitrary place, which gives its bytes as a function D of the place; for any number of places the bytes are proved to be D of each place in order. '
               'The encoder is run on a zone request with an arbitrary mask and player; each part of the list it builds is proved to be present exactly when one mask bit is clear, '
               'D of its place is proved to be the player, core location and core sequence of that very bit, and every bit that stands for a zone has exactly one part.')
    assumptions = ['the player of the request is 0 or 1']

    def native_build(self):
        return self.ctx.work.exe(['n_roundtrip.cpp'], 'n_roundtrip', repo_srcs=[decode.SRC, ESRC])

    def setup(self):
        super().setup()
        S = self.S
        self.sym = [z3.BitVec('place.' + f, 32) for f in ('con', 'loc', 'seq', 'oseq')]
        self.enc = encode.C21(self.ctx)
        self.enc.setup()
        self.D = None

    def answer(self, places):
        S = self.S
        return S.set(MsgVal(A), 'select_zone', S.make(A + '_SelectZone', places=places))

    def pval(self, v):
        return self.S.make(PLACE, con=v[0], loc=v[1], seq=v[2], oseq=v[3])

    def single(self, r=None):
        """D: the three bytes of one place"""
        if self.D is not None and r is None:
            return self.D
        E = self.engine()
        elt = Elt('msg', 64, PLACE, 8)
        res = self.run(E, self.S.symbolic(R, 'request'), self.answer(SList(elt, [self.pval(self.sym)])))
        D = None
        base = None
        for s, out, *_ in res:
            ok = E.oblige(s, eq(out.len, 3, 64), 'one zone gives three bytes', 'post')
            bs = [bv(out.at(k), 8) for k in range(3)]
            cond = z3.And(*[tob(c) for c in s.pc]) if s.pc else z3.BoolVal(True)
            D = bs if D is None else [z3.If(cond, x, y) for x, y in zip(bs, D)]
        if D is None:
            raise ToolLimit('no execution of the decoder')
        self.D = D
        if r is not None:
            r.need_cover(bool(res), 'one zone')
            r.take(E)
        return D

    def bytes_of(self, p):
        S = self.S
        D = self.single()
        sub_ = [(x, bv(S.get(p, f), 32)) for x, f in zip(self.sym, ('con', 'loc', 'seq', 'oseq'))]
        return [simp(z3.substitute(d, *sub_)) for d in D]

    def units(self):
        self.setup()
        us = [('one zone', self.single), ('any number of zones', self.many)]
        for v in (18, 24):
            us.append(('zone request (%d)' % v, lambda r, v=v: self.request(r, v)))
        return us

    def many(self, r):
        S = self.S
        E = self.engine()
        zn = S.symbolic(A + '_SelectZone', 'zones')
        pl = S.rawget(zn, 'places')
        res = self.run(E, S.symbolic(R, 'request'), S.set(MsgVal(A), 'select_zone', zn))
        for s, out, *_ in res:
            prove_seq(E, S, s, out, decode.Blocks([], pl.len, 3, lambda k: self.bytes_of(pl.at(k))), 'bytes of the zones')
        r.need_cover(bool(res), 'zones')
        r.take(E)

    def request(self, r, v):
        S = self.S
        enc = self.enc
        E, st, b, Rd, s, C, pre = enc.start(v)
        f = MESSAGES[v][2]
        f(s, Rd, v)
        for c in pre:
            st.assume(tob(c))
        arr = Rd.arr
        con = z3.Select(arr, bv(1, 64))
        mask = z3.Concat(*[z3.Select(arr, bv(k, 64)) for k in (6, 5, 4, 3)])
        r.need_cover(E.feasible(st), 'a zone request')
        fin = enc.run(E, st, b)
        r.need_cover(bool(fin), 'an execution')
        for x, sv, by, mp in fin:
            if not E.oblige(x, b_not(ptr_eq(mp, 0)), 'there is a message', 'post'):
                continue
            msg = E.getv(x, mp)
            rq = S.get(msg, 'request')
            E.oblige(x, eq(S.case(rq, 't'), S.msgs[R].fields['select_zone'].num, 32), 'a zone request', 'post')
            P = S.rawget(S.get(rq, 'select_zone'), 'places')
            self.walk(E, x, parts(P), con, mask)
        r.take(E)

    def walk(self, E, x, ps, con, mask):
        """every part: (condition, place); the condition is that one bit is clear and the place means that bit"""
        flat = []

        def go(p, cond):
            if isc(p.len) and p.len == 0:
                return
            if isinstance(p, SList):
                for e in p.els:
                    flat.append((cond, e))
            elif isinstance(p, SCat):
                go(p.a, cond); go(p.b, cond)
            elif isinstance(p, SIte):
                go(p.a, b_and(cond, tob(p.c))); go(p.b, b_and(cond, b_not(p.c)))
            else:
                raise ToolLimit('zones: %s' % type(p).__name__)
        for p in ps:
            go(p, 1)
        bits = [i for i in range(32) if i & 15 != 7]
        conds = {i: [] for i in bits}
        for cond, e in flat:
            d = self.bytes_of(e)
            s = x.copy()
            s.assume(tob(cond))
            if not E.feasible(s):
                continue
            hit = None
            for i in bits:
                w = zone_bytes(i, con)
                t = b_and(*[eq(p, q, 8) for p, q in zip(d, w)])
                if (isc(t) and t) or (not isc(t) and E.valid(s, t)):
                    hit = i
                    break
            if not E.oblige(s, int(hit is not None), 'an offered zone is answered as a zone of the core', 'post'):
                continue
            for p, q, n in zip(d, zone_bytes(hit, con), ('controller', 'location', 'sequence')):
                E.oblige(s, eq(p, q, 8), 'zone of bit %d: %s' % (hit, n), 'post')
            conds[hit].append(cond)
        for i in bits:
            clear = eq(z3.Extract(i, i, mask), 0, 1)
            cs = conds[i]
            E.oblige(x, beq(b_or(*cs) if cs else 0, clear), 'the zone of bit %d is offered exactly when the bit is clear' % i, 'post')
            for k in range(len(cs)):
                for j in range(k):
                    E.oblige(x, b_not(b_and(cs[k], cs[j])), 'the zone of bit %d is offered once' % i, 'post')


CHECKS = {'C23': C23}
