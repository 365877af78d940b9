"""Contracts of std::forward_list (a sequence of node addresses; iterators are positions in it)."""
import z3
from .val import *
from . import val as V
from .stl import parse_method, split_targs, vec_ptr, velem, PTRELT, set_storage

NEG1 = (1 << 64) - 1


class ForwardList:
    """std::forward_list<T>: the list object holds a pointer to a storage object whose cell 0 is the sequence of the
    addresses of the elements. emplace_front makes a node at a fresh address; erase_after destroys one element.
    Addresses of the other elements never change."""

    def __init__(self, T, on_new, on_del):
        self.T = T; self.on_new = on_new; self.on_del = on_del
        self.cache = {}

    def find(self, mod, name, dem):
        if name not in self.cache:
            self.cache[name] = self._find(mod, name, dem)
        return self.cache[name]

    def st_ptr(self, eng, st, p):
        v = eng.load(st, p, ('ptr',))
        if not isinstance(v, (Ptr, PIte)):
            raise ToolLimit('forward_list behind %r' % (v,))
        return v

    def init(self, eng, st, p, seq):
        o = eng.new_obj(st, None, 'forward_list')
        eng.setv_raw(st, Ptr(o), 8, seq)
        eng.setv_raw(st, p, 8, Ptr(o))
        return o

    def _find(self, mod, name, dem):
        if 'orward_list' not in dem and '_Fwd_list' not in dem:
            return None
        m = parse_method(dem, 'std::forward_list')
        if m and m[0][0] == self.T:
            return self._list(m)
        for c in ('std::_Fwd_list_iterator', 'std::_Fwd_list_const_iterator'):
            m = parse_method(dem, c)
            if m and m[0][0] == self.T:
                return self._iter(m)
        return None

    def _iter(self, m):
        targs, meth, mt, args, const = m
        A = split_targs(args)

        def elem(eng, st, it):
            s = eng.cellv(st, Ptr(it.obj, it.off))
            eng.bounds(st, s, it.idx)
            return s.at(it.idx)
        if meth in ('operator*', 'operator->'):
            def f(eng, st, a, ins):
                it = eng.load(st, a[0], ('ptr',))
                r = None
                for c, q in reversed(eng.live_alts(st, it, 'list iterator')):
                    x = elem(eng, st, q)
                    r = x if r is None else ite(c, x, r)
                return r
            return f
        if meth == 'operator++':
            def f(eng, st, a, ins):
                it = eng.load(st, a[0], ('ptr',))
                if not isinstance(it, Ptr):
                    raise ToolLimit('list iterator %r' % (it,))
                s = eng.cellv(st, Ptr(it.obj, it.off))
                eng.oblige(st, ult(add(it.idx, 1), add(s.len, 1)), 'no increment of the end iterator in ' + eng.where(), 'memory')
                eng.store(st, a[0], ('ptr',), Ptr(it.obj, it.off, (), add(it.idx, 1), 0))
                return a[0] if not A else it
            return f
        return None

    def _list(self, m):
        targs, meth, mt, args, const = m
        A = split_targs(args)
        L = self

        def seq(eng, st, p):
            return eng.getv(st, L.st_ptr(eng, st, p))

        def it(eng, st, p, i):
            s = L.st_ptr(eng, st, p)
            if not isinstance(s, Ptr):
                raise ToolLimit('forward_list')
            return Ptr(s.obj, s.off, (), i, 0)
        if meth == 'forward_list' and not A:
            return lambda eng, st, a, ins: L.init(eng, st, a[0], s_empty(PTRELT)) and None
        if meth == '~forward_list':
            return lambda eng, st, a, ins: L.on_del(eng, st, seq(eng, st, a[0]))
        if meth in ('before_begin', 'cbefore_begin'):
            return lambda eng, st, a, ins: it(eng, st, a[0], NEG1)
        if meth in ('begin', 'cbegin'):
            return lambda eng, st, a, ins: it(eng, st, a[0], 0)
        if meth in ('end', 'cend'):
            return lambda eng, st, a, ins: it(eng, st, a[0], seq(eng, st, a[0]).len)
        if meth == 'empty':
            return lambda eng, st, a, ins: eq(seq(eng, st, a[0]).len, 0)
        if meth in ('front',):
            def f(eng, st, a, ins):
                s = seq(eng, st, a[0])
                eng.bounds(st, s, 0)
                return s.at(0)
            return f
        if meth in ('emplace_front', 'push_front'):
            def f(eng, st, a, ins):
                c = L.on_new(eng, st)
                p = L.st_ptr(eng, st, a[0])
                eng.setv(st, p, s_cat(SList(PTRELT, [c]), eng.getv(st, p)))
                return c if meth == 'emplace_front' else None
            return f
        if meth in ('emplace_after', 'insert_after') and len(A) == 2 and 'size_t' not in args and 'initializer' not in args:
            def f(eng, st, a, ins):
                i = a[1]
                p = L.st_ptr(eng, st, a[0])
                if not isinstance(i, Ptr) or i.idx is None or not isinstance(p, Ptr) or i.obj != p.obj:
                    raise ToolLimit('list iterator %r' % (i,))
                s = eng.getv(st, p)
                eng.oblige(st, ult(add(i.idx, 1), add(s.len, 1)), 'insertion point in the list in ' + eng.where(), 'memory')
                c = L.on_new(eng, st)
                eng.setv(st, p, s_insert(s, add(i.idx, 1), SList(PTRELT, [c])))
                return Ptr(p.obj, p.off, (), add(i.idx, 1), 0)
            return f
        if meth == 'pop_front':
            def f(eng, st, a, ins):
                p = L.st_ptr(eng, st, a[0])
                s = eng.getv(st, p)
                eng.bounds(st, s, 0)
                L.on_del(eng, st, SList(PTRELT, [s.at(0)]))
                eng.setv(st, p, s_erase(s, 0, 1))
            return f
        if meth == 'clear':
            def f(eng, st, a, ins):
                p = L.st_ptr(eng, st, a[0])
                L.on_del(eng, st, eng.getv(st, p))
                eng.setv(st, p, s_empty(PTRELT))
            return f
        if meth == 'erase_after' and len(A) == 1:
            def f(eng, st, a, ins):
                i = a[1]
                p = L.st_ptr(eng, st, a[0])
                if not isinstance(i, Ptr) or i.idx is None or not isinstance(p, Ptr) or i.obj != p.obj:
                    raise ToolLimit('list iterator %r' % (i,))
                s = eng.getv(st, p)
                j = add(i.idx, 1)
                eng.bounds(st, s, j)
                L.on_del(eng, st, SList(PTRELT, [s.at(j)]))
                eng.setv(st, p, s_erase(s, j, 1))
                return Ptr(p.obj, p.off, (), j, 0)
            return f
        raise ToolLimit('std::forward_list::%s(%s)' % (meth, args))
