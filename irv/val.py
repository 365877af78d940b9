"""Values of the verifier: machine integers (exact bit vectors), pointers, abstract
sequences (contents of std containers and repeated fields) and message records.

Concrete integers are Python ints (unsigned, masked); symbolic ones z3 bit vectors.
i1 values are 0/1 or z3 Bools.  All values are immutable.
"""
import z3


class Infeasible(Exception):
    pass


class ToolLimit(Exception):
    """The code uses something outside of the verifier's reach (never a violation)."""


class Poison:
    def __repr__(self):
        return 'POISON'


POISON = Poison()
OUTSIDE = Poison()     # element outside of a literal sequence: any value will do (the access has its own obligation)


def isc(x):
    return isinstance(x, int)


def mask(w):
    return (1 << w) - 1


_bvc = {}


def bv(x, w):
    if isinstance(x, int):
        r = _bvc.get((x, w))
        if r is None:
            r = z3.BitVecVal(x, w)
            _bvc[(x, w)] = r
        return r
    if isinstance(x, Poison):
        raise ToolLimit('use of an indeterminate value')
    if isinstance(x, z3.BoolRef):
        return z3.If(x, bv(1, w), bv(0, w))
    if not isinstance(x, z3.BitVecRef):
        raise ToolLimit('not an integer: %r' % (x,))
    return x


def tob(x):
    """i1 value -> z3 Bool"""
    if isinstance(x, int):
        return z3.BoolVal(x != 0)
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, z3.BitVecRef) and x.size() == 1:
        return x == 1
    if isinstance(x, Poison):
        raise ToolLimit('use of an indeterminate value')
    if isinstance(x, z3.BitVecRef):
        return simpb(x != 0)
    raise ToolLimit('not a bool %r' % (x,))


def b2i(e):
    """z3 Bool -> i1 value with constant folding"""
    if isinstance(e, bool):
        return 1 if e else 0
    if isinstance(e, int):
        return 1 if e else 0
    if z3.is_true(e):
        return 1
    if z3.is_false(e):
        return 0
    return e


def simp(e):
    if isinstance(e, int):
        return e
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    return e


def simpb(e):
    if isinstance(e, (int, bool)):
        return 1 if e else 0
    return b2i(z3.simplify(e))


def is1(x):
    return isinstance(x, int) and x == 1


def add(a, b, w=64):
    if isc(a) and isc(b):
        return (a + b) & mask(w)
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return b
    return simp(bv(a, w) + bv(b, w))


def sub(a, b, w=64):
    if isc(a) and isc(b):
        return (a - b) & mask(w)
    if isc(b) and b == 0:
        return a
    return simp(bv(a, w) - bv(b, w))


def mul(a, b, w=64):
    if isc(a) and isc(b):
        return (a * b) & mask(w)
    return simp(bv(a, w) * bv(b, w))


def eq(a, b, w=64):
    """equality of ints as i1 value"""
    if isc(a) and isc(b):
        return 1 if a == b else 0
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        return simpb(tob(a) == tob(b))
    a, b = bv(a, w), bv(b, w)
    if a.eq(b):
        return 1
    return simpb(a == b)


def ult(a, b, w=64):
    if isc(a) and isc(b):
        return 1 if a < b else 0
    return simpb(z3.ULT(bv(a, w), bv(b, w)))


def ule(a, b, w=64):
    if isc(a) and isc(b):
        return 1 if a <= b else 0
    return simpb(z3.ULE(bv(a, w), bv(b, w)))


def b_and(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, int)):
            if not x:
                return 0
            continue
        out.append(x)
    if not out:
        return 1
    return out[0] if len(out) == 1 else z3.And(*out)


def b_or(*xs):
    out = []
    for x in xs:
        if isinstance(x, (bool, int)):
            if x:
                return 1
            continue
        out.append(x)
    if not out:
        return 0
    return out[0] if len(out) == 1 else z3.Or(*out)


def b_not(x):
    if isinstance(x, (bool, int)):
        return 0 if x else 1
    return b2i(z3.simplify(z3.Not(x)))


def b_imp(a, b):
    return b_or(b_not(a), b)


def zext(x, f, t):
    if isc(x):
        return x
    if f == 1:
        return z3.If(tob(x), bv(1, t), bv(0, t))
    if f == t:
        return x
    return simp(z3.ZeroExt(t - f, bv(x, f)))


def sext(x, f, t):
    if isc(x):
        if x >> (f - 1):
            return (x | (mask(t) ^ mask(f)))
        return x
    if f == 1:
        return z3.If(tob(x), bv(mask(t), t), bv(0, t))
    if f == t:
        return x
    return simp(z3.SignExt(t - f, bv(x, f)))


def trunc(x, f, t):
    if isc(x):
        return x & mask(t)
    if t == f:
        return x
    if t == 1:
        return simpb(z3.Extract(0, 0, x) == 1)
    return simp(z3.Extract(t - 1, 0, bv(x, f)))


def concat_le(parts):
    """little endian bytes (ints or BV8) -> one value"""
    if all(isc(p) for p in parts):
        v = 0
        for i, p in enumerate(parts):
            v |= p << (8 * i)
        return v
    return simp(z3.Concat(*[bv(p, 8) for p in reversed(parts)])) if len(parts) > 1 else parts[0]


def byte_of(v, i, w):
    if isc(v):
        return (v >> (8 * i)) & 0xff
    if isinstance(v, z3.BoolRef):
        v = bv(v, w)
    return simp(z3.Extract(8 * i + 7, 8 * i, v)) if w > 8 else v


# ---------------------------------------------------------------- pointers
class Ptr:
    """obj: object id; off: byte offset of the cell; path: into the abstract value of
    that cell; idx: element of the sequence at path; inner: byte offset in the element."""
    __slots__ = ('obj', 'off', 'path', 'idx', 'inner')

    def __init__(self, obj, off=0, path=(), idx=None, inner=0):
        self.obj = obj; self.off = off; self.path = path; self.idx = idx; self.inner = inner

    def full(self):
        return self.path if self.idx is None else self.path + (self.idx,)

    def sub(self, *p):
        return Ptr(self.obj, self.off, self.full() + p)

    def __repr__(self):
        return 'Ptr(%s,%s,%s,%s,%s)' % (self.obj, self.off, self.path, self.idx, self.inner)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c; self.a = a; self.b = b

    def __repr__(self):
        return 'PIte(%s,%r,%r)' % (self.c, self.a, self.b)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'FnPtr(%s)' % self.name


class PInt:
    """integer obtained from a pointer (ptrtoint)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class PDiff:
    """difference of two element pointers: n * stride"""
    __slots__ = ('n', 'stride')

    def __init__(self, n, stride):
        self.n = n; self.stride = stride


class StrVal:
    """opaque string contents (an uninterpreted id)"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'Str(%s)' % (self.t,)


def isptr(x):
    return isinstance(x, (Ptr, PIte, FnPtr))


def step_eq(a, b):
    """equality of path steps -> i1"""
    if isinstance(a, str) or isinstance(b, str):
        return 1 if (isinstance(a, str) and isinstance(b, str) and a == b) else 0
    return eq(a, b)


def ptr_eq(a, b, base=None):
    if isinstance(a, PIte):
        return ite_b(a.c, ptr_eq(a.a, b, base), ptr_eq(a.b, b, base))
    if isinstance(b, PIte):
        return ite_b(b.c, ptr_eq(a, b.a, base), ptr_eq(a, b.b, base))
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        return 1 if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name else 0
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj or len(a.path) != len(b.path) or (a.idx is None) != (b.idx is None):
            return 0
        r = [eq(a.off, b.off)]
        for x, y in zip(a.path, b.path):
            r.append(step_eq(x, y))
        if a.idx is not None:
            r.append(eq(a.idx, b.idx))
            r.append(eq(a.inner, b.inner))
        return b_and(*r)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        p, o = (a, b) if isinstance(a, Ptr) else (b, a)
        if isc(o) and o == 0:
            return 0
        if base is None:
            raise ToolLimit('comparison of an object pointer with a raw address')
        return eq(base(p), o)
    return eq(a, b)


def ite_b(c, a, b):
    if isc(c):
        return a if c else b
    if isc(a) and isc(b) and a == b:
        return a
    return simpb(z3.If(c, tob(a), tob(b)))


# ---------------------------------------------------------------- sequences
class Elt:
    """element kind of a sequence: kind 'i' (w bits), 'p' (pointer), 'msg' (type name), 'str'"""
    __slots__ = ('kind', 'w', 'name', 'stride')

    def __init__(self, kind, w=64, name=None, stride=None):
        self.kind = kind; self.w = w; self.name = name
        self.stride = stride if stride is not None else max(1, w // 8)

    def __repr__(self):
        return 'Elt(%s,%s,%s)' % (self.kind, self.w, self.name)


PTRELT = Elt('p', 64, None, 8)


class Seq:
    """abstract sequence; .len and .at(i)"""
    __slots__ = ('elt', '_memo')

    def at(self, i):
        m = getattr(self, '_memo', None)
        if m is None:
            m = {}
            self._memo = m
        k = i if isc(i) else ('e', i.get_id())
        v = m.get(k)
        if v is None:
            v = (self._at(i), i)
            m[k] = v
        return v[0]


class SList(Seq):
    """literal elements"""
    __slots__ = ('els',)

    def __init__(self, elt, els):
        self.elt = elt; self.els = tuple(els)

    @property
    def len(self):
        return len(self.els)

    def _at(self, i):
        if isc(i):
            if i < len(self.els):
                return self.els[i]
            return OUTSIDE
        r = OUTSIDE
        for j, e in enumerate(self.els):
            r = ite(eq(i, j), e, r, self.elt) if r is not OUTSIDE else e
        return r

    def __repr__(self):
        return 'SList%r' % (self.els,)


class SBase(Seq):
    """symbolic sequence: length expression and element function"""
    __slots__ = ('name', 'len', 'fn', 'ser')

    def __init__(self, elt, name, ln, fn):
        self.elt = elt; self.name = name; self.len = ln; self.fn = fn; self.ser = serial()

    def _at(self, i):
        return self.fn(i)

    def __repr__(self):
        return 'SBase(%s)' % self.name


class SCat(Seq):
    """a ++ b"""
    __slots__ = ('a', 'b', 'len')

    def __init__(self, a, b):
        self.elt = a.elt; self.a = a; self.b = b
        self.len = add(a.len, b.len)

    def _at(self, i):
        d = sub(i, self.a.len)
        if isc(d) and not isc(i):
            # lengths do not wrap
            return self.b.at(d) if d < 1 << 62 else self.a.at(i)
        c = ult(i, self.a.len)
        if isc(c):
            return self.a.at(i) if c else self.b.at(sub(i, self.a.len))
        return ite(c, self.a.at(i), self.b.at(sub(i, self.a.len)), self.elt)

    def __repr__(self):
        return 'SCat(%r,%r)' % (self.a, self.b)


class SSlice(Seq):
    """s[lo .. lo+n)"""
    __slots__ = ('s', 'lo', 'len')

    def __init__(self, s, lo, n):
        self.elt = s.elt; self.s = s; self.lo = lo; self.len = n

    def _at(self, i):
        return self.s.at(add(self.lo, i))

    def __repr__(self):
        return 'SSlice(%r,%s,%s)' % (self.s, self.lo, self.len)


class SRev(Seq):
    __slots__ = ('s', 'len')

    def __init__(self, s):
        self.elt = s.elt; self.s = s; self.len = s.len

    def _at(self, i):
        return self.s.at(sub(sub(self.len, 1), i))

    def __repr__(self):
        return 'SRev(%r)' % (self.s,)


class SUpd(Seq):
    __slots__ = ('s', 'i', 'v', 'len')

    def __init__(self, s, i, v):
        self.elt = s.elt; self.s = s; self.i = i; self.v = v; self.len = s.len

    def _at(self, i):
        c = eq(i, self.i)
        if isc(c):
            return self.v if c else self.s.at(i)
        return ite(c, self.v, self.s.at(i), self.elt)

    def __repr__(self):
        return 'SUpd(%r,%s,%r)' % (self.s, self.i, self.v)


class SIte(Seq):
    __slots__ = ('c', 'a', 'b', 'len')

    def __init__(self, c, a, b):
        self.elt = a.elt; self.c = c; self.a = a; self.b = b
        self.len = a.len if (isc(a.len) and isc(b.len) and a.len == b.len) else simp(z3.If(c, bv(a.len, 64), bv(b.len, 64)))

    def _at(self, i):
        # an empty side has no element: an index in range belongs to the other side
        if isc(self.a.len) and self.a.len == 0:
            return self.b.at(i)
        if isc(self.b.len) and self.b.len == 0:
            return self.a.at(i)
        return ite(self.c, self.a.at(i), self.b.at(i), self.elt)

    def __repr__(self):
        return 'SIte(%s,%r,%r)' % (self.c, self.a, self.b)


class Hole:
    """element function of a loop contribution; filled once the iteration is known"""
    __slots__ = ('k', 'val', 'uid')
    _n = 0

    def __init__(self):
        self.k = None; self.val = None
        Hole._n += 1
        self.uid = Hole._n

    def __call__(self, j):
        if self.val is None:
            raise ToolLimit('element of an unfinished loop')
        return subst(self.val, self.k, j)


class SFlat(Seq):
    """concatenation of fn(0) ++ ... ++ fn(n-1); fn(j) is a Seq; m: constant length of each or None"""
    __slots__ = ('n', 'fn', 'm', 'len', 'name', 'ser')

    def __init__(self, elt, n, fn, m, name=None, lenfn=None):
        self.elt = elt; self.n = n; self.fn = fn; self.m = m; self.name = name; self.ser = serial()
        if m is not None:
            self.len = mul(n, m)
        else:
            self.len = lenfn

    def _at(self, i):
        if self.m is None:
            raise ToolLimit('index into a sequence of variable-length parts')
        if self.m == 1:
            return self.fn(i).at(0)
        if isc(i):
            return self.fn(i // self.m).at(i % self.m)
        q = simp(z3.UDiv(bv(i, 64), bv(self.m, 64)))
        r = simp(z3.URem(bv(i, 64), bv(self.m, 64)))
        return self.fn(q).at(r)

    def __repr__(self):
        return 'SFlat(n=%s,m=%s)' % (self.n, self.m)


class SStride(Seq):
    """base with elements [start + w*j, start + w*j + w) replaced by fn(j) for j < n"""
    __slots__ = ('s', 'start', 'w', 'n', 'fn', 'len', 'ser')

    def __init__(self, s, start, w, n, fn):
        self.elt = s.elt; self.s = s; self.start = start; self.w = w; self.n = n; self.fn = fn; self.len = s.len; self.ser = serial()

    def _at(self, i):
        d = sub(i, self.start)
        inr = b_and(ule(self.start, i), ult(d, mul(self.n, self.w)))
        if isc(inr) and not inr:
            return self.s.at(i)
        if self.w == 1:
            v = self.fn(d).at(0)
        elif isc(d):
            v = self.fn(d // self.w).at(d % self.w)
        else:
            q = simp(z3.UDiv(bv(d, 64), bv(self.w, 64)))
            r = simp(z3.URem(bv(d, 64), bv(self.w, 64)))
            f = self.fn(q)
            v = f.at(self.w - 1)
            for t in range(self.w - 2, -1, -1):
                v = ite(eq(r, t), f.at(t), v, self.elt)
        if isc(inr):
            return v
        return ite(inr, v, self.s.at(i), self.elt)


def s_empty(elt):
    return SList(elt, ())


def s_cat(a, b):
    if isc(a.len) and a.len == 0:
        return b
    if isc(b.len) and b.len == 0:
        return a
    if isinstance(a, SList) and isinstance(b, SList):
        return SList(a.elt, a.els + b.els)
    if isinstance(a, SCat) and isinstance(a.b, SList) and isinstance(b, SList):
        return SCat(a.a, SList(a.elt, a.b.els + b.els))
    return SCat(a, b)


def s_slice(s, lo, n):
    if isc(lo) and lo == 0:
        l = s.len
        if (isc(n) and isc(l) and n == l) or (not isc(n) and not isc(l) and n.eq(l)):
            return s
    if isc(n) and n == 0:
        return s_empty(s.elt)
    if isinstance(s, SList) and isc(lo) and isc(n) and lo + n <= len(s.els):
        return SList(s.elt, s.els[lo:lo + n])
    if isinstance(s, SSlice):
        return s_slice(s.s, add(s.lo, lo), n)
    if isinstance(s, SCat) and isc(lo) and lo == 0:
        if isc(eq(n, s.a.len)) and eq(n, s.a.len):
            return s.a
        d = sub(n, s.a.len)
        if isc(d) and isc(s.b.len) and d <= s.b.len:
            return s_cat(s.a, s_slice(s.b, 0, d))
    return SSlice(s, lo, n)


def s_erase(s, i, n):
    return s_cat(s_slice(s, 0, i), s_slice(s, add(i, n), sub(sub(s.len, i), n)))


def s_insert(s, i, t):
    return s_cat(s_cat(s_slice(s, 0, i), t), s_slice(s, i, sub(s.len, i)))


def s_append(s, *els):
    return s_cat(s, SList(s.elt, els))


def s_update(s, i, v):
    if isinstance(s, SList) and isc(i):
        if i >= len(s.els):
            raise ToolLimit('update out of range')
        e = list(s.els); e[i] = v
        return SList(s.elt, e)
    if isinstance(s, SCat):
        d = sub(i, s.a.len)
        if isc(d) and isc(s.b.len) and d < s.b.len:
            return s_cat(s.a, s_update(s.b, d, v))
        c = ult(i, s.a.len)
        if isc(c):
            if c:
                return SCat(s_update(s.a, i, v), s.b)
            return SCat(s.a, s_update(s.b, d, v))
    if isinstance(s, SIte):
        if not (isc(s.a.len) and isc(s.b.len) and s.a.len == s.b.len) and not isc(s.len):
            return SUpd(s, i, v)
        return SIte(s.c, s_update(s.a, i, v), s_update(s.b, i, v))
    if isinstance(s, SUpd):
        c = eq(i, s.i)
        if isc(c) and c:
            return SUpd(s.s, i, v)
    return SUpd(s, i, v)


def s_ite(c, a, b):
    if isc(c):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, SList) and isinstance(b, SList) and len(a.els) == len(b.els):
        return SList(a.elt, [ite(c, x, y, a.elt) for x, y in zip(a.els, b.els)])
    # common prefix
    pa, pb = _parts(a), _parts(b)
    i = 0
    while i < len(pa) and i < len(pb) and (pa[i] is pb[i]):
        i += 1
    if i:
        pre = pa[0]
        for x in pa[1:i]:
            pre = s_cat(pre, x)
        ra = s_empty(a.elt)
        for x in pa[i:]:
            ra = s_cat(ra, x)
        rb = s_empty(a.elt)
        for x in pb[i:]:
            rb = s_cat(rb, x)
        return s_cat(pre, s_ite(c, ra, rb))
    return SIte(c, a, b)


def _parts(s):
    if isinstance(s, SCat):
        return _parts(s.a) + _parts(s.b)
    return [s]


# ---------------------------------------------------------------- messages
class MsgVal:
    """record; f: explicit fields, src: (prefix, args) symbolic source for the others or None"""
    __slots__ = ('t', 'f', 'src')

    def __init__(self, t, f=None, src=None):
        self.t = t; self.f = f or {}; self.src = src

    def set(self, **kw):
        d = dict(self.f)
        d.update(kw)
        return MsgVal(self.t, d, self.src)

    def setk(self, k, v):
        d = dict(self.f)
        d[k] = v
        return MsgVal(self.t, d, self.src)

    def __repr__(self):
        return '%s%r%s' % (self.t.split('::')[-1].split('.')[-1], self.f, '~' + str(self.src) if self.src else '')


# ---------------------------------------------------------------- generic ite / subst
SCHEMA = None  # set by pb


def ite(c, a, b, w=64):
    """w: bits, or Elt, or None when irrelevant"""
    if isc(c):
        return a if c else b
    if a is b:
        return a
    if a is OUTSIDE:
        return b
    if b is OUTSIDE:
        return a
    if isinstance(a, Poison) or isinstance(b, Poison):
        if isinstance(a, Poison) and isinstance(b, Poison):
            return a
        return POISON
    if isinstance(w, Elt):
        w = w.w
    if isinstance(a, Seq) and isinstance(b, Seq):
        return s_ite(c, a, b)
    if isinstance(a, MsgVal) and isinstance(b, MsgVal):
        return msg_ite(c, a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) == 2 and isinstance(a[1], MsgVal):
            return (ite(c, a[0], b[0], 1), ite(c, a[1], b[1]))      # presence and message
        return tuple(ite(c, x, y, w) for x, y in zip(a, b))
    if isinstance(a, StrVal) and isinstance(b, StrVal):
        if isc(a.t) and isc(b.t) and a.t == b.t:
            return a
        return StrVal(z3.If(c, bv(a.t, 64), bv(b.t, 64)))
    if isptr(a) or isptr(b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj and a.path == b.path and all(isc(x) or x is None for x in (a.idx, b.idx)) and a.off is b.off and a.inner is b.inner and a.idx == b.idx:
                return a
            if a.obj == b.obj and len(a.path) == len(b.path) and a.path == b.path and a.idx is None and b.idx is None:
                pass
        if isinstance(a, FnPtr) and isinstance(b, FnPtr) and a.name == b.name:
            return a
        return PIte(c, a, b)
    if isinstance(a, (PInt, PDiff)) or isinstance(b, (PInt, PDiff)):
        return POISON
    if isinstance(a, z3.ArrayRef) and isinstance(b, z3.ArrayRef):
        return a if a.eq(b) else z3.If(c, a, b)
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        return ite_b(c, a, b)
    if isc(a) and isc(b):
        if a == b:
            return a
        if w == 1:
            return ite_b(c, a, b)
        return z3.If(c, bv(a, w), bv(b, w))
    if isinstance(a, z3.BitVecRef) or isinstance(b, z3.BitVecRef):
        ww = a.size() if isinstance(a, z3.BitVecRef) else b.size()
        a, b = bv(a, ww), bv(b, ww)
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if type(a) is type(b) and a == b:
        return a
    raise ToolLimit('cannot join %r and %r' % (type(a), type(b)))


def msg_ite(c, a, b):
    if a is b:
        return a
    keys = set(a.f) | set(b.f)
    if a.src != b.src:
        if a.src is None or b.src is None or True:
            # make every field explicit
            keys |= set(SCHEMA.keys(a.t))
            f = {}
            for k in keys:
                f[k] = ite(c, SCHEMA.rawget(a, k), SCHEMA.rawget(b, k), SCHEMA.width(a.t, k))
            return MsgVal(a.t, f, None)
    f = {}
    for k in keys:
        f[k] = ite(c, SCHEMA.rawget(a, k), SCHEMA.rawget(b, k), SCHEMA.width(a.t, k))
    return MsgVal(a.t, f, a.src)


def subst(v, k, j):
    """replace the z3 constant k by j in a value"""
    jj = bv(j, 64)
    if k.eq(jj):
        return v
    return _subst(v, k, jj)


SERIAL = [0]
BORN = {}       # id of a loop symbol -> serial number when it came into being
_smemo = {}


def born(k):
    SERIAL[0] += 1
    BORN[k.get_id()] = (SERIAL[0], k)


def serial():
    SERIAL[0] += 1
    return SERIAL[0]


def older(v, k):
    """was v made before the symbol k existed?"""
    b = BORN.get(k.get_id())
    return b is not None and getattr(v, 'ser', b[0]) < b[0]


def _subst(v, k, j):
    if v is None or isinstance(v, (int, str, Poison, FnPtr, bool, float)):
        return v
    if isinstance(v, z3.ExprRef):
        r = z3.substitute(v, (k, j))
        if r.eq(v):
            return v
        return simpb(r) if isinstance(v, z3.BoolRef) else simp(r)
    key = (id(v), k.get_id(), j.get_id() if isinstance(j, z3.ExprRef) else j)
    m = _smemo.get(key)
    if m is not None:
        return m[0]
    r = _subst1(v, k, j)
    if len(_smemo) > 100000:
        _smemo.clear()
    _smemo[key] = (r, v, k, j)
    return r


def _all(v, xs, ys, mk):
    """v itself when no part changed"""
    return v if all(x is y for x, y in zip(xs, ys)) else mk(*ys)


def _subst1(v, k, j):
    def S(x):
        return _subst(x, k, j)
    if isinstance(v, tuple):
        y = tuple(S(x) for x in v)
        return v if all(a is b for a, b in zip(v, y)) else y
    if isinstance(v, Ptr):
        xs = (v.off, v.path, v.idx, v.inner)
        return _all(v, xs, [S(x) for x in xs], lambda *y: Ptr(v.obj, *y))
    if isinstance(v, PIte):
        xs = (v.c, v.a, v.b)
        return _all(v, xs, [S(x) for x in xs], ite)
    if isinstance(v, StrVal):
        return _all(v, (v.t,), [S(v.t)], StrVal)
    if isinstance(v, MsgVal):
        src = v.src
        if src is not None:
            sr = tuple([S(x) for x in src[1:]])
            if any(x is not y for x, y in zip(sr, src[1:])):
                src = (src[0],) + sr
        f = {a: S(b) for a, b in v.f.items()}
        if src is v.src and all(f[a] is v.f[a] for a in f):
            return v
        return MsgVal(v.t, f, src)
    if isinstance(v, SList):
        y = [S(x) for x in v.els]
        return v if all(a is b for a, b in zip(v.els, y)) else SList(v.elt, y)
    if isinstance(v, (SBase, SFlat, SStride)) and older(v, k):
        return v
    if isinstance(v, SBase):
        old = v.fn
        return SBase(v.elt, v.name, S(v.len), lambda i: _sub_fn(old, i, k, j))
    if isinstance(v, SCat):
        return _all(v, (v.a, v.b), [S(v.a), S(v.b)], s_cat)
    if isinstance(v, SSlice):
        xs = (v.s, v.lo, v.len)
        return _all(v, xs, [S(x) for x in xs], s_slice)
    if isinstance(v, SRev):
        return _all(v, (v.s,), [S(v.s)], SRev)
    if isinstance(v, SUpd):
        xs = (v.s, v.i, v.v)
        return _all(v, xs, [S(x) for x in xs], s_update)
    if isinstance(v, SIte):
        xs = (v.c, v.a, v.b)
        return _all(v, xs, [S(x) for x in xs], s_ite)
    if isinstance(v, SFlat):
        old = v.fn
        return SFlat(v.elt, S(v.n), lambda i: _sub_fn(old, i, k, j), v.m, v.name, S(v.len))
    if isinstance(v, SStride):
        old = v.fn
        return SStride(S(v.s), S(v.start), v.w, S(v.n), lambda i: _sub_fn(old, i, k, j))
    raise ToolLimit('substitution in %r' % (type(v),))


_fresh = [0]


def _sub_fn(old, i, k, j):
    # evaluate old at i, where i may itself mention k: protect by renaming
    if isc(i):
        return _subst(old(i), k, j)
    _fresh[0] += 1
    t = z3.BitVec('sub!%d' % _fresh[0], 64)
    r = _subst(old(t), k, j)
    return _subst(r, t, bv(i, 64))


def _subst2(v, k, j):
    """like _subst but total (registers may hold pointer integers)"""
    if isinstance(v, PInt):
        return PInt(_subst(v.p, k, j))
    if isinstance(v, PDiff):
        return PDiff(_subst(v.n, k, j), v.stride)
    if isinstance(v, tuple):
        return tuple(_subst2(x, k, j) for x in v)
    return _subst(v, k, j)
