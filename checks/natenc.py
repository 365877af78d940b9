"""Native comparison of the encoder with the specification (encspec.py): random well-formed messages."""
import os
import random
import struct
import subprocess
import sys
import time

import z3

from irv.val import *
from irv import pb
from irv import build as irv_build
from . import encspec as es
from .encspec import *
from .specs import *

M64 = (1 << 64) - 1


def build(check):
    w = check.ctx.work
    exe = w.exe(['n_encode.cpp'], 'n_encode', ['src/codec/edo9300_ocgcore_encode.cpp'], pbs=('duel_data', 'duel_msg'))
    sh = os.path.join(w.dir, 'natenc.sh')
    v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    open(sh, 'w').write('#!/bin/sh\ncd %s && exec %s -m checks.natenc %s "$@"\n' % (v, sys.executable, exe))
    os.chmod(sh, 0o755)
    return sh


class GenR:
    """a reader that makes the message up while the specification reads it"""

    def __init__(self, g, off=1, mem=None):
        self.g = g; self.off = off; self.mem = {} if mem is None else mem
        self.big = False
        self.least = 0

    def at(self, off):
        r = GenR(self.g, off, self.mem)
        r.big = self.big
        return r

    def fork(self):
        return self.at(self.off)

    def get(self, off, n, fresh=None):
        if off not in self.mem:
            v = self.value(n) if fresh is None else fresh()
            for i in range(n):
                self.mem.setdefault(off + i, v >> (8 * i) & 255)
        for i in range(n):
            self.mem.setdefault(off + i, self.g.getrandbits(8))
        return sum(self.mem[off + i] << (8 * i) for i in range(n))

    def value(self, n):
        g = self.g
        k = g.randrange(8)
        if k == 0:
            return 0
        if k == 1:
            return 1
        if k == 2:
            return (1 << 8 * n) - 1
        if k == 3:
            return 1 << g.randrange(8 * n)
        if k == 4:
            return g.randrange(8)
        return g.getrandbits(8 * n)

    def rd(self, n, fresh=None):
        v = self.get(self.off, n, fresh)
        self.off += n
        return v

    def con(self):
        return self.rd(1, lambda: self.g.choice([0, 0, 0, 1, 1, 1, 2, 255]))

    LOCS = [1, 2, 4, 8, 8, 8, 0x10, 0x20, 0x40, 4, 0]

    def loc(self, n, overlay):
        def f():
            v = self.g.choice(self.LOCS)
            if self.g.randrange(4) == 0:
                v |= 0x80
            if self.g.randrange(30) == 0:
                v = self.g.getrandbits(8 * n)
            return v
        return self.rd(n, f)

    def seq(self, n):
        return self.rd(n, lambda: self.g.randrange(9) if self.g.randrange(6) else self.g.getrandbits(8 * n))

    def skip(self, n):
        self.off += n

    def peek(self, d, n, kind=None):
        return self.get(self.off + d, n, (lambda: self.g.choice([0, 0, 1])) if kind == 'flag' else
                        (lambda: self.g.choice([0, 4, 8, 4, 1])) if kind == 'loc' else None)

    def small(self, n, least=0):
        k = self.g.randrange(10)
        v = 0 if k == 0 else 1 if k == 1 else self.g.randrange(20, 45) if k == 2 else self.g.randrange(7)
        if k == 3 and self.big and self.g.randrange(4) == 0:
            v = 256 + self.g.randrange(40) if n > 1 else 255
        return max(v, least, self.least)

    def count(self, n, least=0):
        return self.rd(n, lambda: self.small(n, least))

    def peek_count(self, d, when):
        if when:
            return self.get(self.off + d, 4, lambda: self.g.choice([0, 0, 1, 2, 3, 7]))
        return 0

    def choice(self, n, vals):
        return self.rd(n, lambda: self.g.choice(vals))

    def mask(self, n, bits, other):
        assert bits <= 8 * n

    def list(self, n, stride, elt, fn):
        o = self.off
        xs = []
        for j in range(n):
            xs.append(fn(self.at(o + j * stride)))
        self.off = o + n * stride
        return SList(elt, xs)

    def repeat(self, n, elt, fn):
        return SList(elt, [fn(j) for j in range(n)])

    def zone_start(self, con, loc, seq):
        pass

    def zone_end(self, places):
        return places


class GenCtx:
    """the context's answers, the same functions of the seed as in n_encode.cpp"""
    FIELDS = ('con', 'loc', 'seq', 'oseq')

    def __init__(self, S, seed):
        self.S = S; self.seed = seed; self.trace = []

    def h(self, tag, a, b, c, d):
        x = (self.seed + tag * 0x9E3779B97F4A7C15) & M64
        for v in (a, b, c, d):
            x ^= (v + 0x9E3779B97F4A7C15) & M64
            x = x * 0xBF58476D1CE4E5B9 & M64
            x ^= x >> 29
        return x

    def hp(self, tag, p):
        return self.h(tag, *[num(self.S.get(p, f)) for f in self.FIELDS])

    def pile_size(self, c, l):
        return self.h(1, c, l, 0, 0) % (41 if self.seed & 15 else 701)

    def get_reason(self):
        return self.h(2, 0, 0, 0, 0) & 0xffffffff

    def has_mat(self, p):
        return self.hp(3, p) >> 40 & 1

    def left(self, p):
        return self.S.make(PLACE, con=self.hp(4, p) & 3, loc=self.hp(5, p) & 0xffff, seq=self.hp(6, p) & 0xffffffff, oseq=self.hp(7, p) & 0xffffffff)

    def set_reason(self, r):
        self.trace.append(('reason', r))


PLACE = 'YGOpen::Proto::Duel::Place'


def num(x):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    x = z3.simplify(x)
    if z3.is_true(x):
        return 1
    if z3.is_false(x):
        return 0
    return x.as_long()


class Cond:
    """state and engine of a concrete case distinction"""

    def __init__(self, ok=True):
        self.ok = ok

    def copy(self):
        return Cond(self.ok)

    def assume(self, c):
        self.ok = self.ok and bool(num(c))
        return self

    def feasible(self, x):
        return x.ok


def items(s):
    if isinstance(s, SFlat):
        for j in range(num(s.n)):
            yield from items(s.fn(j))
    elif isinstance(s, SList):
        yield from s.els
    elif hasattr(s, 'a') and hasattr(s, 'b'):
        yield from items(s.a)
        yield from items(s.b)
    else:
        for j in range(num(s.len)):
            yield s.at(j)


def plain(S, m):
    """canonical form of an expected message"""
    r = {}
    d = S.msgs[m.t]
    for o, fs in d.oneofs.items():
        c = num(S.case(m, o))
        for f in fs:
            if f.num == c:
                r[f.name] = scalar(S, f, S.get(m, f.name))
    for f in d.fields.values():
        if f.oneof:
            continue
        if f.rep:
            xs = [scalar(S, f, x) for x in items(S.get(m, f.name))]
            if xs:
                r[f.name] = xs
        elif f.kind == 'msg':
            p, x = S.rawget(m, f.name)
            if num(p):
                r[f.name] = plain(S, x)
        else:
            v = scalar(S, f, S.get(m, f.name))
            if v:
                r[f.name] = v
    return r


def scalar(S, f, v):
    if f.kind == 'msg':
        return plain(S, v)
    if f.kind == 'str':
        return v
    return num(v) & ((1 << f.w) - 1)


def varint(b, i):
    v = s = 0
    while True:
        c = b[i]
        i += 1
        v |= (c & 127) << s
        s += 7
        if c < 128:
            return v, i


def dec(f, v):
    if f.type.startswith('sint'):
        v = (v >> 1) ^ -(v & 1)
    if f.kind == 'bool':
        return 1 if v else 0
    return v & ((1 << f.w) - 1)


def wire(S, t, b):
    """canonical form of a serialized message"""
    r = {}
    d = S.msgs[t]
    by = d.__dict__.get('bynum')
    if by is None:
        by = d.bynum = {f.num: f for f in d.fields.values()}
    i = 0
    while i < len(b):
        k, i = varint(b, i)
        f = by[k >> 3]
        w = k & 7
        if w == 0:
            v, i = varint(b, i)
            v = dec(f, v)
            xs = [v]
        elif w in (1, 5):
            n = 8 if w == 1 else 4
            v = int.from_bytes(b[i:i + n], 'little')
            i += n
            xs = [v]
        else:
            n, i = varint(b, i)
            p = b[i:i + n]
            i += n
            if f.kind == 'msg':
                v = wire(S, f.cls, p)
                xs = [v]
            elif f.kind == 'str':
                v = p
                xs = [v]
            else:
                xs = []
                j = 0
                while j < len(p):
                    v, j = varint(p, j)
                    xs.append(dec(f, v))
        if f.rep:
            r.setdefault(f.name, []).extend(xs)
        else:
            r[f.name] = v
    return r


# ---------------------------------------------------------------- queries
def gen_query(s, R, g):
    """one query: records then the end marker; (data, overlay codes)"""
    m = s.M('Msg_Query_Data')
    codes = []
    flags = list(es.QUERIES)
    for _ in range(g.choice([0, 1, 2, 3, 5, 8, 20])):
        f = g.choice(flags + [es.QOVERLAY, es.QOVERLAY, 0x1000, 0x2000, 0x800000 << 3, 0, 3])
        o = R.off
        R.off = o + 6
        if f in es.QUERIES:
            m = es.QUERIES[f][2](s, R, m)
        elif f == es.QOVERLAY:
            codes = [R.rd(4) for _ in range(R.count(4))]
        else:
            R.skip(g.choice([0, 1, 4, 17, 300]))
        poke(R, o, 2, R.off - o - 2)
        poke(R, o + 2, 4, f)
    poke(R, R.off, 2, 4)
    poke(R, R.off + 2, 4, es.QEND)
    R.off += 6
    return m, codes


def poke(R, o, n, v):
    for i in range(n):
        R.mem[o + i] = v >> (8 * i) & 255


def query(s, p, m, codes):
    S = s.S
    xs = [s.M('Msg_Query', place=p, data=m)]
    for i, c in enumerate(codes):
        d = s.M('Msg_Query_Data', code=S.set(MsgVal(S.fld(S.cls('Msg_Query_Data'), 'code').cls), 'value', c))
        xs.append(s.M('Msg_Query', place=s.place(S.get(p, 'con'), S.get(p, 'loc'), S.get(p, 'seq'), i), data=d))
    return xs


def gen(S, g, v):
    """(bytes, seed, deferred, state, expected message in canonical form, expected trace, property)"""
    from .encode import move_cases
    seed = g.getrandbits(64)
    C = GenCtx(S, seed)
    R = GenR(g)
    R.big = g.randrange(3) == 0
    s = Spec(S, R, C)
    deferred = []
    if v not in MESSAGES:
        return bytes([v]), seed, deferred, UNKNOWN, None, []
    R.least = 0 if v != 35 else 5 if seed & 15 else 88
    if v == 35 and g.randrange(4) == 0:
        for i in range(1, 700):
            R.mem[9 + i] = 255
    state, want = MESSAGES[v][2](s, R, v)
    trace = list(C.trace)
    if state == 'MOVE':
        a, b, reason = want
        for j in range(g.choice([0, 0, 1, 2, 3, 6])):
            d = S.set(b, 'oseq', j)
            if g.randrange(2):
                d = s.place(g.randrange(2), g.choice([1, 4, 0x40]), g.randrange(5), g.randrange(3))
            deferred.append(d)
        C.deferred = SList(s.elt('Place'), deferred)
        cs = move_cases(Cond(), S, Cond(), s, want, C)
        assert len(cs) == 1, cs
        _, state, want, trace = cs[0]
    elif state == 'SWAPGD':
        con, pos, gy, deck, bits = want
        ops = []
        if gy:
            ops.append(es.splice(s, con, GRAVE, 0, gy, MAIN, 0))
        if deck:
            ops.append(es.splice(s, con, MAIN, gy, deck, GRAVE, 0))
        run = gone = 0
        m32 = 0xffffffff
        for k in range(gy + 1):
            f = k < gy and R.get(bits + k // 8, 1) >> k % 8 & 1
            if f:
                run += 1
            elif run:
                ops.append(es.splice(s, con, MAIN, (k - run - gone) & m32, run, EXTRA, (pos + gone) & m32))
                gone += run
                run = 0
        state = OK
        want = s.M('Msg', event=s.M('Msg_Event', pile=s.M('Msg_Event_Pile', splice=s.M('Msg_Event_Pile_Splice', ops=ops))))
    elif state == 'QUERY':
        m, codes = gen_query(s, R, g)
        state, want = OK, s.M('Msg', queries=query(s, want, m, codes))
    elif state == 'QUERIES':
        con, loc = want
        o = R.off
        R.off += 4
        qs = []
        for i in range(g.choice([0, 1, 3, 5, 7, 8, 12])):
            if g.randrange(3) == 0:
                poke(R, R.off, 2, 0)
                R.off += 2
                continue
            l, q = s.fix(loc, i, 32)
            m, codes = gen_query(s, R, g)
            qs += query(s, s.place(con, l, q), m, codes)
        poke(R, o, 4, R.off - o - 4)
        state, want = OK, s.M('Msg', queries=qs)
    b = bytearray(R.off)
    b[0] = v
    for i in range(1, R.off):
        b[i] = R.mem[i] if i in R.mem else g.getrandbits(8)
    return bytes(b), seed, deferred, state, None if want is None else plain(S, want), trace


def flat(S, t):
    r = []
    for e in t:
        if e[0] == 'reason':
            r.append((1, e[1]))
        elif e[0] == 'defer':
            r.append((2,) + pl(S, e[1]))
        elif e[0] == 'take':
            r.append((3,))
        else:
            r.append((4,) + pl(S, e[1]) + pl(S, e[2]))
    return r


def pl(S, p):
    return tuple(num(S.get(p, f)) for f in GenCtx.FIELDS)


class Exe:
    def __init__(self, path):
        self.path = path; self.start()

    def start(self):
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def run(self, S, cases):
        """results, or the way the program ended"""
        inp = bytearray()
        for c in cases:
            inp += struct.pack('<I', len(c[0])) + c[0] + struct.pack('<QI', c[1], len(c[2]))
            for d in c[2]:
                inp += struct.pack('<4I', *pl(S, d))
        inp += struct.pack('<I', 0xffffffff)
        try:
            self.p.stdin.write(inp)
            self.p.stdin.flush()
            out = []
            for _ in cases:
                st, by, n = struct.unpack('<IQI', self.need(16))
                m = None if n == 0xffffffff else self.need(n)
                k, n = struct.unpack('<II', self.need(8))
                t = self.need(n)
                out.append((st, by, m, t))
            return out
        except (BrokenPipeError, EOFError):
            rc = self.p.wait()
            self.start()
            return rc

    def need(self, n):
        b = self.p.stdout.read(n) if n else b''
        if len(b) < n:
            raise EOFError
        return b


def trace_of(t):
    r = []
    i = 0
    while i < len(t):
        k = t[i]
        n = {1: 1, 2: 4, 3: 0, 4: 8}[k]
        r.append((k,) + struct.unpack_from('<%dI' % n, t, i + 1))
        i += 1 + 4 * n
    return r


STATES = {0: UNKNOWN, 1: OK, 2: SWALLOWED, 3: 'none of the three'}


def compare(S, prop, v, case, res):
    b, seed, deferred, state, want, trace = case
    if isinstance(res, int):
        return 'the encoder did not come back: signal %d' % -res
    st, by, m, t = res
    name = MESSAGES[v][0] if v in MESSAGES else 'unhandled'
    if prop == 'C14':
        if state != UNKNOWN and by != len(b):
            return '%s: bytes_read is %d, the message has %d bytes' % (name, by, len(b))
        return None
    if STATES[st] != state:
        return '%s: result state is %s, expected %s' % (name, STATES[st], state)
    if (m is None) != (state != OK):
        return '%s: message pointer is %s in state %s' % (name, 'null' if m is None else 'not null', state)
    if prop == 'C15':
        if state != UNKNOWN and by == 0:
            return '%s: byte count is zero' % name
        if state == SWALLOWED and by != len(b):
            return '%s: bytes_read is %d, the message has %d bytes' % (name, by, len(b))
        if state == OK:
            return None
    got = None if m is None else wire(S, 'YGOpen::Proto::Duel::Msg', m)
    if got != want:
        return '%s: message differs\n got      %s\n expected %s' % (name, diff(got, want)[0], diff(got, want)[1])
    if trace_of(t) != flat(S, trace):
        return '%s: notifications %r, expected %r' % (name, trace_of(t), flat(S, trace))
    return None


def diff(a, b):
    while isinstance(a, dict) and isinstance(b, dict):
        ks = [k for k in list(a) + list(b) if a.get(k) != b.get(k)]
        if len(ks) and isinstance(a.get(ks[0]), (dict, list)) and isinstance(b.get(ks[0]), (dict, list)):
            a, b = a[ks[0]], b[ks[0]]
            if isinstance(a, list):
                for x, y in zip(a, b):
                    if x != y:
                        a, b = x, y
                        break
        else:
            break
    return str(a)[:1500], str(b)[:1500]


def main(a):
    exe, seed, secs, only, prop = a[0], int(a[1]), float(a[2]), int(a[3]), a[4]
    S = pb.Schema(os.path.join(irv_build.REPO, 'include', 'ygopen', 'proto'))
    vals = [v for v in range(256) if v in MESSAGES and (prop in ('C14', 'C15') or MESSAGES[v][1] == prop)]
    if prop == 'C15':
        vals = vals + [v for v in range(256) if v not in MESSAGES]
    if prop == 'C14':
        vals = [v for v in vals]
    x = Exe(exe)
    t0 = time.time()
    n = 0
    case = 0

    def one(case):
        g = random.Random(seed * 1000003 + case)
        v = vals[case % len(vals)] if prop != 'C15' or g.randrange(3) else g.choice([y for y in vals if y in MESSAGES])
        return v, gen(S, g, v)

    def report(case, v, c, why):
        print('MISMATCH (seed %d case %d): %s' % (seed, case, why))
        print('message bytes: %s' % c[0].hex()[:4000])
        print('context seed: %d; deferred: %s' % (c[1], [pl(S, d) for d in c[2]]))
        print('CASES %d' % n)
        sys.stdout.flush()
        os._exit(1)
    while True:
        batch = [(k,) + one(k) for k in ([only] if only else range(case, case + 64))]
        case += 64
        res = x.run(S, [b[2] for b in batch])
        if isinstance(res, int):
            for k, v, c in batch:
                r = x.run(S, [c])
                if isinstance(r, int):
                    report(k, v, c, compare(S, prop, v, c, r))
        else:
            for (k, v, c), r in zip(batch, res):
                n += 1
                why = compare(S, prop, v, c, r)
                if why:
                    report(k, v, c, why)
        if only or time.time() - t0 > secs:
            break
    print('CASES %d' % n)


if __name__ == '__main__':
    main(sys.argv[1:])
