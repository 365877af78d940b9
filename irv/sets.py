"""Contract of std::set of pointers: a sequence of different elements in an order of its own (the order of the
addresses, about which nothing is assumed); iterators are positions in it."""
import z3
from .val import *
from .stl import parse_method, split_targs, PTRELT


class Sets:
    def __init__(self, absent=None):
        self.cache = {}
        self.absent = absent      # absent(eng, st, sequence, element): True when known not to be a member

    def find(self, mod, name, dem):
        if name not in self.cache:
            self.cache[name] = self._find(mod, name, dem) if ('std::set<' in dem or '_Rb_tree' in dem) else None
        return self.cache[name]

    def init(self, eng, st, p, seq):
        o = eng.new_obj(st, None, 'set')
        eng.setv_raw(st, Ptr(o, 0), 8, seq)
        eng.setv_raw(st, p, 48, Ptr(o, 0))
        return o

    def ptr(self, eng, st, p):
        if not isinstance(p, Ptr) or not isc(p.off):
            raise ToolLimit('set behind %r' % (p,))
        c = st.mem[p.obj].cells.get(p.off)
        if c is None or c[0] != 48:
            raise ToolLimit('no set at %r in %s' % (p, eng.where()))
        return c[1]

    def seq(self, eng, st, p):
        return eng.getv(st, self.ptr(eng, st, p))

    def at(self, s, i):
        return Ptr(s.obj, s.off, s.path, i, 0)

    def _find(self, mod, name, dem):
        for c in ('std::_Rb_tree_const_iterator', 'std::_Rb_tree_iterator'):
            m = parse_method(dem, c)
            if m:
                return self._iter(m)
        m = parse_method(dem, 'std::set')
        return self._method(m) if m else None

    def _iter(self, m):
        targs, meth, mt, args, const = m
        if meth == 'operator*':
            return lambda eng, st, a, ins: eng.load(st, a[0], ('ptr',))
        if meth in ('operator++', 'operator--'):
            def f(eng, st, a, ins):
                it = eng.load(st, a[0], ('ptr',))
                if not isinstance(it, Ptr) or it.idx is None:
                    raise ToolLimit('iterator of a set: %r' % (it,))
                n = eng.getv(st, Ptr(it.obj, it.off, it.path)).len
                if meth == 'operator++':
                    eng.oblige(st, ult(it.idx, n), 'no increment of the end iterator in ' + eng.where(), 'memory')
                    q = Ptr(it.obj, it.off, it.path, add(it.idx, 1), 0)
                else:
                    eng.oblige(st, ult(0, it.idx), 'no decrement of the first iterator in ' + eng.where(), 'memory')
                    q = Ptr(it.obj, it.off, it.path, sub(it.idx, 1), 0)
                eng.store(st, a[0], ('ptr',), q)
                return it if args == 'int' else a[0]
            return f
        return None

    def _method(self, m):
        targs, meth, mt, args, const = m
        L = self
        if targs[0][-1] != '*':
            return None
        if meth == 'set' and not args:
            return lambda eng, st, a, ins: L.init(eng, st, a[0], s_empty(PTRELT)) and None
        if meth == '~set':
            return lambda eng, st, a, ins: None
        if meth in ('begin', 'cbegin'):
            return lambda eng, st, a, ins: L.at(L.ptr(eng, st, a[0]), 0)
        if meth in ('end', 'cend'):
            return lambda eng, st, a, ins: L.at(L.ptr(eng, st, a[0]), L.seq(eng, st, a[0]).len)
        if meth == 'size':
            return lambda eng, st, a, ins: L.seq(eng, st, a[0]).len
        if meth == 'empty':
            return lambda eng, st, a, ins: eq(L.seq(eng, st, a[0]).len, 0)
        if meth == 'clear':
            return lambda eng, st, a, ins: eng.setv(st, L.ptr(eng, st, a[0]), s_empty(PTRELT))
        if meth in ('insert', 'emplace') and len(split_targs(args)) == 1:
            def f(eng, st, a, ins):
                x = eng.load(st, a[1], ('ptr',))
                p = L.ptr(eng, st, a[0])
                s = eng.getv(st, p)
                n = s.len
                k = eng.fresh('position in the set', 64)
                st.assume(z3.ULE(k, bv(n, 64)))
                out = []
                known = L.absent is not None and L.absent(eng, st, s, x)
                if not known:
                    t = st.copy()
                    t.assume(z3.And(z3.ULT(k, bv(n, 64)), tob(val_same(s.at(k), x))))
                    if eng.feasible(t):
                        out.append((t, (L.at(p, k), 0)))
                eng.setv(st, p, s_cat(s_append(s_slice(s, 0, k), x), s_slice(s, k, sub(n, k))))
                out.append((st, (L.at(p, k), 1)))
                return out
            return f
        if meth in ('count', 'contains'):
            def f(eng, st, a, ins):
                x = eng.load(st, a[1], ('ptr',))
                s = L.seq(eng, st, a[0])
                if L.absent is not None and L.absent(eng, st, s, x):
                    return 0
                k = eng.fresh('position in the set', 64)
                t = st.copy()
                t.assume(z3.And(z3.ULT(k, bv(s.len, 64)), tob(val_same(s.at(k), x))))
                return [(st, 0)] + ([(t, 1)] if eng.feasible(t) else [])
            return f
        raise ToolLimit('std::set::%s(%s)' % (meth, args))


def val_same(a, b):
    return ptr_eq(a, b) if isptr(a) or isptr(b) else eq(a, b)
