"""Contracts of std::list and std::deque: a size and element objects at stable addresses.

Only the elements a check or the code names are materialised: the storage object holds the size (cell 0) and
pairs (index, pointer to the element's own object). Iterators of lists are positions; the end iterator is a
sentinel of its own, as in a list."""
import z3
from .val import *
from .stl import parse_method, split_targs, vec_init, vec_seq, elt_of, PTRELT
from . import stl


class Elems:
    """container: 'std::list' or 'std::deque'; default(eng, st, obj, T): value-initialise an element of type T in
    object obj; lazy(eng, st, storage, idx): object of an element never named before (symbolic contents)"""

    def __init__(self, container, schema=None, default=None, construct=None, lazy=None):
        self.container = container; self.schema = schema; self.default = default; self.construct = construct; self.lazy = lazy
        self.cache = {}
        self.name = container.split('::')[1]

    def find(self, mod, name, dem):
        if name not in self.cache:
            d = dem.replace('std::__cxx11::', 'std::')
            self.cache[name] = self._find(mod, name, d) if self.name in d or '_List' in d else None
        return self.cache[name]

    # --- state
    def storage(self, eng, st, p):
        if not isinstance(p, Ptr):
            raise ToolLimit('%s behind %r' % (self.container, p))
        v = eng.load(st, p, ('ptr',))
        if not isinstance(v, Ptr):
            raise ToolLimit('%s behind %r' % (self.container, v))
        return v.obj

    def init(self, eng, st, p, size=0):
        o = eng.new_obj(st, None, self.name)
        s = eng.new_obj(st, None, self.name + ' end')
        eng.setv_raw(st, Ptr(o, 0), 8, size)
        eng.setv_raw(st, Ptr(o, 8), 8, Ptr(s))
        eng.setv_raw(st, Ptr(s), 8, Ptr(o))
        eng.setv_raw(st, Ptr(s, 8), 8, 0)
        eng.setv_raw(st, p, 8, Ptr(o))
        return o

    def top(self, st, o):
        """position behind the last element"""
        return st.mem[o].cells[0][1]

    def low(self, st, o):
        """position of the first element: more than 0 once elements were erased at the front"""
        return st.mem[self.end(st, o).obj].cells[8][1]

    def size(self, st, o):
        return sub(self.top(st, o), self.low(st, o))

    def set_size(self, eng, st, o, n):
        eng.setv_raw(st, Ptr(o, 0), 8, n)

    def listed(self, st, o):
        c = st.mem[o].cells
        return [(c[k][1], c[k + 8][1]) for k in sorted(c) if k >= 16 and k % 16 == 0]

    def put(self, eng, st, o, idx, ptr):
        k = 16 + 16 * len(self.listed(st, o))
        eng.setv_raw(st, Ptr(o, k), 8, idx)
        eng.setv_raw(st, Ptr(o, k + 8), 8, ptr)

    def elem(self, eng, st, o, idx):
        if not eng.oblige(st, b_and(ule(self.low(st, o), idx), ult(idx, self.top(st, o))), 'element of the %s in range in %s' % (self.name, eng.where()), 'memory') and not eng.feasible(st):
            raise Infeasible()
        for i, p in self.listed(st, o):
            if eng.valid(st, eq(i, idx)):
                return p
        for i, p in self.listed(st, o):
            if eng.feasible(st, eq(i, idx)):
                raise ToolLimit('element of a %s not decided' % self.name)
        if self.lazy is None:
            raise ToolLimit('element of a %s nothing is known about' % self.name)
        p = self.lazy(eng, st, o, idx)
        self.put(eng, st, o, idx, p)
        return p

    def shrink(self, eng, st, o, n):
        """drop the elements from index n on"""
        keep = []
        for i, p in self.listed(st, o):
            if eng.valid(st, ult(i, n)):
                keep.append((i, p))
            elif eng.feasible(st, ult(i, n)):
                raise ToolLimit('element of a %s not decided' % self.name)
        c = {k: v for k, v in st.mem[o].cells.items() if k < 16}
        st.mem[o] = st.mem[o].with_cells(c)
        self.set_size(eng, st, o, n)
        for i, p in keep:
            self.put(eng, st, o, i, p)

    def behead(self, eng, st, o):
        """drop the first element"""
        lo = self.low(st, o)
        keep = []
        for i, p in self.listed(st, o):
            if eng.valid(st, eq(i, lo)):
                continue
            if eng.feasible(st, eq(i, lo)):
                raise ToolLimit('element of a %s not decided' % self.name)
            keep.append((i, p))
        st.mem[o] = st.mem[o].with_cells({k: v for k, v in st.mem[o].cells.items() if k < 16})
        eng.setv_raw(st, Ptr(self.end(st, o).obj, 8), 8, add(lo, 1))
        for i, p in keep:
            self.put(eng, st, o, i, p)

    def end(self, st, o):
        return st.mem[o].cells[8][1]

    def it(self, st, o, idx, eng):
        """iterator to position idx <= size"""
        e = eq(idx, self.top(st, o))
        if eng.valid(st, e):
            return self.end(st, o)
        q = Ptr(o, 0, (), idx, 0)
        if not eng.feasible(st, e):
            return q
        return ite(e, self.end(st, o), q)

    def pos(self, eng, st, it):
        """(storage, index) of an iterator"""
        if isinstance(it, PIte):
            (o, i), (o2, j) = self.pos(eng, st, it.a), self.pos(eng, st, it.b)
            if o != o2:
                raise ToolLimit('iterator %r' % (it,))
            return o, ite(it.c, i, j)
        if not isinstance(it, Ptr):
            raise ToolLimit('iterator %r' % (it,))
        ob = st.mem.get(it.obj)
        if ob is not None and ob.name == self.name + ' end':
            o = ob.cells[0][1].obj
            return o, self.top(st, o)
        if it.idx is None or ob is None or ob.name != self.name:
            raise ToolLimit('iterator %r' % (it,))
        return it.obj, it.idx

    # --- contracts
    def _find(self, mod, name, d):
        m = parse_method(d, self.container)
        if m:
            return self._method(mod, m)
        for c in ('std::_List_iterator', 'std::_List_const_iterator'):
            m = parse_method(d, c)
            if m and self.container == 'std::list':
                return self._iter(m)
        return None

    def _iter(self, m):
        targs, meth, mt, args, const = m
        L = self
        if meth in ('operator*', 'operator->'):
            def f(eng, st, a, ins):
                o, i = L.pos(eng, st, eng.load(st, a[0], ('ptr',)))
                return L.elem(eng, st, o, i)
            return f
        if meth in ('operator++', 'operator--'):
            def f(eng, st, a, ins):
                it = eng.load(st, a[0], ('ptr',))
                o, i = L.pos(eng, st, it)
                if meth == 'operator++':
                    eng.oblige(st, ult(i, L.top(st, o)), 'no increment of the end iterator in ' + eng.where(), 'memory')
                    n = L.it(st, o, add(i, 1), eng)
                else:
                    eng.oblige(st, ult(L.low(st, o), i), 'no decrement of the first iterator in ' + eng.where(), 'memory')
                    n = Ptr(o, 0, (), sub(i, 1), 0)
                eng.store(st, a[0], ('ptr',), n)
                return it if args == 'int' else a[0]
            return f
        return None

    def new(self, eng, st, mod, T, args, tys):
        """element object constructed from arguments"""
        p = Ptr(eng.new_obj(st, None, 'element'))
        if self.construct is not None:
            r = self.construct(eng, st, p, T, args, tys)
            if r is not None:
                return p, r
        e = elt_of(mod, T, self.schema)
        if T.startswith('std::vector<'):
            if not args:
                ve = elt_of(mod, split_targs(T[len('std::vector<'):-1])[0], self.schema)
                vec_init(eng, st, p, s_empty(ve))
            elif len(args) == 1 and tys[0].rstrip('&').replace(' const', '') == T:
                vec_init(eng, st, p, vec_seq(eng, st, args[0]))
            else:
                raise ToolLimit('construction of %s' % T)
        elif e is not None and e.kind in 'ip':
            if not args:
                eng.setv_raw(st, p, e.w // 8, 0)
            elif len(args) == 1:
                eng.setv_raw(st, p, e.w // 8, eng.load(st, args[0], ('ptr',) if e.kind == 'p' else ('i', e.w)))
            else:
                raise ToolLimit('construction of %s' % T)
        else:
            raise ToolLimit('construction of %s' % T)
        return p, [st]

    def _method(self, mod, m):
        targs, meth, mt, args, const = m
        A = split_targs(args)
        L = self
        T = targs[0]

        def append(eng, st, a, tys):
            p, sts = L.new(eng, st, mod, T, a[1:], tys)
            out = []
            for s in sts:
                o = L.storage(eng, s, a[0])
                n = L.top(s, o)
                L.put(eng, s, o, n, p)
                L.set_size(eng, s, o, add(n, 1))
                out.append((s, p))
            return out
        if meth == self.name and not A:
            return lambda eng, st, a, ins: L.init(eng, st, a[0]) and None
        if meth == self.name and len(A) == 2 and A[0] == 'unsigned long' and 'allocator' in A[1]:
            def f(eng, st, a, ins):
                if not isc(a[1]) or a[1] > 4:
                    raise ToolLimit('%s of symbolic size' % L.container)
                L.init(eng, st, a[0])
                sts = [st]
                for _ in range(a[1]):
                    sts = [s2 for s in sts for s2, v in append(eng, s, a[:1], [])]
                return [(s, None) for s in sts]
            return f
        if meth == '~' + self.name:
            return lambda eng, st, a, ins: None
        if meth in ('emplace_back', 'push_back'):
            tys = split_targs(args)
            if meth == 'push_back':
                tys = [T]
            return lambda eng, st, a, ins: [(s, p if meth == 'emplace_back' else None) for s, p in append(eng, st, a, tys)]
        if meth == 'size':
            return lambda eng, st, a, ins: L.size(st, L.storage(eng, st, a[0]))
        if meth == 'empty':
            return lambda eng, st, a, ins: eq(L.size(st, L.storage(eng, st, a[0])), 0)
        if meth in ('operator[]', 'at'):
            return lambda eng, st, a, ins: (lambda o: L.elem(eng, st, o, add(L.low(st, o), a[1])))(L.storage(eng, st, a[0]))
        if meth == 'front':
            return lambda eng, st, a, ins: (lambda o: L.elem(eng, st, o, L.low(st, o)))(L.storage(eng, st, a[0]))
        if meth == 'back':
            def f(eng, st, a, ins):
                o = L.storage(eng, st, a[0])
                return L.elem(eng, st, o, sub(L.top(st, o), 1))
            return f
        if meth == 'pop_back':
            def f(eng, st, a, ins):
                o = L.storage(eng, st, a[0])
                eng.oblige(st, ult(0, L.size(st, o)), 'pop_back of a non-empty %s in %s' % (L.name, eng.where()), 'memory')
                L.shrink(eng, st, o, sub(L.top(st, o), 1))
            return f
        if meth == 'pop_front':
            def f(eng, st, a, ins):
                o = L.storage(eng, st, a[0])
                eng.oblige(st, ult(0, L.size(st, o)), 'pop_front of a non-empty %s in %s' % (L.name, eng.where()), 'memory')
                L.behead(eng, st, o)
            return f
        if meth == 'clear':
            return lambda eng, st, a, ins: (lambda o: L.shrink(eng, st, o, L.low(st, o)))(L.storage(eng, st, a[0]))
        if meth == 'resize' and len(A) == 1:
            def f(eng, st, a, ins):
                o = L.storage(eng, st, a[0])
                if not eng.valid(st, ule(a[1], L.size(st, o))):
                    raise ToolLimit('growing resize of a ' + L.name)
                L.shrink(eng, st, o, add(L.low(st, o), a[1]))
            return f
        if self.name == 'list':
            if meth in ('begin', 'cbegin'):
                def f(eng, st, a, ins):
                    return (lambda o: L.it(st, o, L.low(st, o), eng))(L.storage(eng, st, a[0]))
                return f
            if meth in ('end', 'cend'):
                return lambda eng, st, a, ins: L.end(st, L.storage(eng, st, a[0]))
            if meth == 'erase' and len(A) == 2:
                def f(eng, st, a, ins):
                    o, i = L.pos(eng, st, a[1])
                    o2, j = L.pos(eng, st, a[2])
                    if o != o2 or not eng.valid(st, eq(j, L.top(st, o))):
                        raise ToolLimit('erase within a list')
                    L.shrink(eng, st, o, i)
                    return L.end(st, o)
                return f
            if meth == 'erase' and len(A) == 1:
                def f(eng, st, a, ins):
                    o, i = L.pos(eng, st, a[1])
                    eng.oblige(st, b_and(ule(L.low(st, o), i), ult(i, L.top(st, o))), 'erase of an element in ' + eng.where(), 'memory')
                    if eng.valid(st, eq(i, sub(L.top(st, o), 1))):
                        L.shrink(eng, st, o, i)
                        return L.end(st, o)
                    if not eng.valid(st, eq(i, L.low(st, o))):
                        raise ToolLimit('erase within a list')
                    L.behead(eng, st, o)
                    return L.it(st, o, L.low(st, o), eng)
                return f
        raise ToolLimit('%s::%s(%s)' % (self.container, meth, args))
