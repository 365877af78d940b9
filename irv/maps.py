"""Contract of std::map whose keys and values are messages of scalar fields, ordered by a comparator that tells all
fields apart (a lemma of the check that uses it): which keys are in it, and the value of each. An entry is seen through an object of its
own; what was written to it goes back into the map when the map is used again."""
import z3
from .val import *
from .stl import parse_method, split_targs
from . import val as V


class Open:
    """the entries of a map that can be written through"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return len(self.t) == len(o.t) and all(x is y for x, y in zip(self.t, o.t))

    __hash__ = None


class Maps:
    def __init__(self, schema, comparators):
        self.S = schema
        self.comparators = comparators        # names of comparators the check has a lemma about
        self.cache = {}

    def find(self, mod, name, dem):
        if name not in self.cache:
            self.cache[name] = self._find(dem) if ('std::map<' in dem or '_Rb_tree' in dem) else None
        return self.cache[name]

    # ------------------------------------------------------------ values
    def fields(self, t):
        return [(k, f) for k, f in sorted((k, self.S.width(t, k)) for k in self.S.keys(t))]

    def scalar(self, t, k):
        return self.S.rawget(MsgVal(t), k)

    def pack(self, m):
        if not isinstance(m, MsgVal):
            raise ToolLimit('key of a map: %r' % (m,))
        out = []
        for k, w in self.fields(m.t):
            v = self.S.rawget(m, k)
            w = w.w if isinstance(w, Elt) else w
            if isinstance(v, (Seq, MsgVal, tuple, StrVal)) or not isinstance(w, int):
                raise ToolLimit('map of messages with %s' % k)
            if w == 1:
                v = ite(v, 1, 0, 8)
                w = 8
            out.append(bv(v, w))
        return z3.Concat(*out) if len(out) > 1 else out[0]

    def bits(self, t):
        return sum(8 if w == 1 else w for k, w in self.widths(t))

    def widths(self, t):
        return [(k, w.w if isinstance(w, Elt) else w) for k, w in self.fields(t)]

    def unpack(self, t, x):
        hi = x.size()
        f = {}
        for k, w in self.widths(t):
            n = 8 if w == 1 else w
            v = z3.simplify(z3.Extract(hi - 1, hi - n, x))
            f[k] = (v != 0) if w == 1 else v
            hi -= n
        return MsgVal(t, f, None)

    # ------------------------------------------------------------ the map
    def init(self, eng, st, p, kt, vt, state=None):
        o = eng.new_obj(st, None, 'map')
        end = eng.new_obj(st, None, 'end of the map')
        n, m = self.bits(kt), self.bits(vt)
        if state is None:
            state = (z3.K(z3.BitVecSort(n), z3.BoolVal(False)), z3.K(z3.BitVecSort(n), z3.BitVecVal(0, m)))
        eng.setv_raw(st, Ptr(o, 0), 8, state)
        eng.setv_raw(st, Ptr(o, 8), 8, Ptr(end, 0))
        st.ghost['open %d' % o] = Open(())
        eng.setv_raw(st, p, 48, Ptr(o, 0))
        self.types[o] = (kt, vt)
        return o

    types = {}

    def arbitrary(self, kt, vt, name):
        n, m = z3.BitVecSort(self.bits(kt)), z3.BitVecSort(self.bits(vt))
        return (z3.Array(name + '.in', n, z3.BoolSort()), z3.Array(name + '.value', n, m))

    def obj(self, st, p):
        if not isinstance(p, Ptr) or not isc(p.off):
            raise ToolLimit('map behind %r' % (p,))
        c = st.mem[p.obj].cells.get(p.off)
        if c is None or c[0] != 48:
            raise ToolLimit('no map at %r' % (p,))
        return c[1]

    def flush(self, eng, st, m):
        """write back what was written through entries"""
        g = 'open %d' % m.obj
        dom, vals = st.mem[m.obj].cells[0][1]
        es = list(st.ghost[g].t)
        for i, (key, e, present, seen) in enumerate(es):
            v = self.pack(eng.getv(st, Ptr(e, 40)))
            if v.eq(seen):
                continue
            p = tob(present)
            vals = z3.If(p, z3.Store(vals, key, v), vals) if not z3.is_true(p) else z3.Store(vals, key, v)
            vt = self.types[m.obj][1]
            for j, (k2, e2, p2, s2) in enumerate(es):        # other views of the same entry
                if j != i:
                    c = z3.simplify(z3.And(p, k2 == key))
                    if not z3.is_false(c):
                        n = z3.If(c, v, self.pack(eng.getv(st, Ptr(e2, 40))))
                        eng.setv_raw(st, Ptr(e2, 40), 40, self.unpack(vt, n))
                        es[j] = (k2, e2, p2, self.pack(eng.getv(st, Ptr(e2, 40))))
            es[i] = (key, e, present, v)
        st.ghost[g] = Open(tuple(es))
        self.set(eng, st, m, (dom, vals))
        return dom, vals

    def set(self, eng, st, m, state):
        eng.setv_raw(st, Ptr(m.obj, 0), 8, state)

    def entry(self, eng, st, m, key, kv, v, present, write):
        e = eng.new_obj(st, None, 'entry of a map')
        eng.setv_raw(st, Ptr(e, 0), 40, kv)
        eng.setv_raw(st, Ptr(e, 40), 40, v)
        if write:
            g = 'open %d' % m.obj
            st.ghost[g] = Open(st.ghost[g].t + ((key, e, present, self.pack(eng.getv(st, Ptr(e, 40)))),))
        return e

    def _find(self, dem):
        for c in ('std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator'):
            m = parse_method(dem, c)
            if m:
                if m[1] in ('operator*', 'operator->'):
                    return lambda eng, st, a, ins: eng.load(st, a[0], ('ptr',))
                if m[1] in ('operator++', 'operator--'):
                    raise ToolLimit('iteration over a map')
                return None
        m = parse_method(dem, 'std::map')
        return self._method(m) if m else None

    def _method(self, m):
        targs, meth, mt, args, const = m
        kt, vt = targs[0].strip(), targs[1].strip()
        if len(targs) > 2 and targs[2].strip() not in self.comparators:
            raise ToolLimit('map ordered by ' + targs[2])
        if kt not in self.S.msgs or vt not in self.S.msgs:
            raise ToolLimit('map of %s to %s' % (kt, vt))
        L = self
        if meth == 'map' and not args:
            return lambda eng, st, a, ins: L.init(eng, st, a[0], kt, vt) and None
        if meth == '~map':
            return lambda eng, st, a, ins: None
        if meth in ('end', 'cend'):
            return lambda eng, st, a, ins: st.mem[L.obj(st, a[0]).obj].cells[8][1]
        if meth == 'find':
            def f(eng, st, a, ins):
                p = L.obj(st, a[0])
                kv = eng.getv(st, a[1])
                key = L.pack(kv)
                dom, vals = L.flush(eng, st, p)
                has = z3.simplify(z3.Select(dom, key))
                out = []
                if not z3.is_true(has):
                    t = st.copy()
                    t.assume(z3.Not(has))
                    if eng.feasible(t):
                        out.append((t, st.mem[p.obj].cells[8][1]))
                if not z3.is_false(has):
                    st.assume(has)
                    if eng.feasible(st):
                        e = L.entry(eng, st, p, key, kv, L.unpack(vt, z3.Select(vals, key)), 1, not const)
                        out.append((st, Ptr(e, 0)))
                return out
            return f
        if meth in ('count', 'contains'):
            def f(eng, st, a, ins):
                p = L.obj(st, a[0])
                dom, vals = L.flush(eng, st, p)
                h = from_bool(z3.simplify(z3.Select(dom, L.pack(eng.getv(st, a[1])))))
                return h if meth == 'contains' else ite(h, 1, 0, 64)
            return f
        if meth in ('operator[]', 'at'):
            def f(eng, st, a, ins):
                p = L.obj(st, a[0])
                kv = eng.getv(st, a[1])
                key = L.pack(kv)
                dom, vals = L.flush(eng, st, p)
                has = z3.Select(dom, key)
                if meth == 'at':
                    eng.oblige(st, from_bool(has), 'std::map::at names a key of the map in ' + eng.where(), 'memory')
                    v = z3.Select(vals, key)
                else:
                    v = z3.If(has, z3.Select(vals, key), L.pack(MsgVal(vt)))
                    L.set(eng, st, p, (z3.Store(dom, key, True), vals))
                return Ptr(L.entry(eng, st, p, key, kv, L.unpack(vt, v), 1, not const), 40)
            return f
        if meth == 'erase' and args == '%s const&' % kt:
            def f(eng, st, a, ins):
                p = L.obj(st, a[0])
                key = L.pack(eng.getv(st, a[1]))
                dom, vals = L.flush(eng, st, p)
                L.set(eng, st, p, (z3.Store(dom, key, False), vals))
                return ite(from_bool(z3.Select(dom, key)), 1, 0, 64)
            return f
        if meth == 'clear':
            def f(eng, st, a, ins):
                p = L.obj(st, a[0])
                dom, vals = L.flush(eng, st, p)
                L.set(eng, st, p, (z3.K(dom.domain(), z3.BoolVal(False)), vals))
            return f
        if meth in ('insert_or_assign', 'try_emplace', 'emplace') and len(split_targs(args)) == 2:
            def f(eng, st, a, ins):
                p = L.obj(st, a[0])
                kv, v = eng.getv(st, a[1]), eng.getv(st, a[2])
                key = L.pack(kv)
                dom, vals = L.flush(eng, st, p)
                has = z3.Select(dom, key)
                nv = L.pack(v) if meth == 'insert_or_assign' else z3.If(has, z3.Select(vals, key), L.pack(v))
                vals = z3.Store(vals, key, nv)
                L.set(eng, st, p, (z3.Store(dom, key, True), vals))
                e = L.entry(eng, st, p, key, kv, L.unpack(vt, nv), 1, True)
                return (Ptr(e, 0), ite(from_bool(has), 0, 1, 1))
            return f
        raise ToolLimit('std::map::%s(%s)' % (meth, args))


def from_bool(b):
    b = z3.simplify(b)
    if z3.is_true(b):
        return 1
    if z3.is_false(b):
        return 0
    return b
