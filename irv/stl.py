"""Contracts of the C++ standard library (trusted: libstdc++) over abstract sequences.

A vector object is one 24-byte cell holding the pointer to its storage, an object whose cell 0
is the abstract sequence of elements; iterators are element pointers into the storage."""
import re
import z3
from .val import *
from . import val as V

VEC = r'std::vector<'


def split_targs(s):
    """'A, B<C, D>' -> ['A', 'B<C, D>']"""
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<([{':
            d += 1
        elif ch in '>)]}':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def parse_method(dem, tmpl):
    """demangled method of class template std::<tmpl><...>: (targs, method, method targs, args, const) or None"""
    i = dem.find(tmpl + '<')
    while i >= 0:
        # prefix must be empty or a return type
        j = i + len(tmpl)
        d = 0
        k = j
        while k < len(dem):
            if dem[k] == '<':
                d += 1
            elif dem[k] == '>':
                d -= 1
                if d == 0:
                    break
            k += 1
        rest = dem[k + 1:]
        pre = dem[:i]
        if rest.startswith('::') and balanced(pre):
            targs = split_targs(dem[j + 1:k])
            rest = rest[2:]
            m = re.match(r'(operator\[\]|operator\(\)|operator=|operator==|operator!=|operator\+\+|operator\+=|operator--|operator->|operator\*|operator bool|~?\w+)', rest)
            if not m:
                return None
            meth = m.group(1)
            r = rest[len(meth):]
            mt = ''
            if r.startswith('<'):
                d = 0
                for q, ch in enumerate(r):
                    if ch == '<':
                        d += 1
                    elif ch == '>':
                        d -= 1
                        if d == 0:
                            break
                mt = r[1:q]
                r = r[q + 1:]
            if not r.startswith('('):
                return None
            const = r.endswith(' const')
            args = r[1:-7] if const else r[1:-1]
            if not balanced(args):
                return None
            return targs, meth, mt, args, const
        i = dem.find(tmpl + '<', i + 1)
    return None


def complete(s):
    return s.count('<') == s.count('>') and s.count('(') == s.count(')')


def balanced(s):
    d = 0
    for ch in s:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
            if d < 0:
                return False
    return d == 0


def elt_of(mod, T, schema):
    T = T.strip()
    if T.endswith('*'):
        return PTRELT
    w = {'unsigned char': 8, 'char': 8, 'signed char': 8, 'bool': 8, 'unsigned short': 16, 'short': 16, 'unsigned int': 32, 'int': 32,
         'unsigned long': 64, 'long': 64, 'unsigned long long': 64}.get(T)
    if w:
        return Elt('i', w)
    if schema is not None and T in schema.msgs:
        n = 'class.' + T
        return Elt('msg', 64, T, mod.sizeof(('named', n)) if n in mod.types else 64)
    for pre in ('struct.', 'class.'):
        if pre + T in mod.types:
            t = mod.resolve(('named', pre + T))
            sz = mod.sizeof(t)
            return Elt('agg', sz * 8, ('named', pre + T), sz)
    return None


# ---------------------------------------------------------------- sequences behind pointers
def seq_of(eng, st, p):
    """the sequence an element pointer points into"""
    if isinstance(p, PIte):
        return ite(p.c, seq_of(eng, st, p.a), seq_of(eng, st, p.b))
    if isinstance(p, int) and p == 0:
        return None
    if not isinstance(p, Ptr) or p.idx is None:
        raise ToolLimit('not an element pointer: %r in %s' % (p, eng.where()))
    v = eng.cellv(st, p)
    for s in p.path:
        v = eng.step(v, s)
    return v


def pdist(eng, st, a, b):
    """number of elements from a to b"""
    d = eng.pdiff(st, b, a)
    if isinstance(d, PDiff):
        return d.n
    return d


def read_range(eng, st, a, b, elt=None):
    if isinstance(a, PIte) or isinstance(b, PIte):
        al = eng.live_alts(st, a, 'range') if not isinstance(a, Ptr) else [(1, a)]
        bl = eng.live_alts(st, b, 'range') if not isinstance(b, Ptr) else [(1, b)]
        r = None
        for c, x in al:
            for d, y in bl:
                if not isinstance(x, Ptr) or not isinstance(y, Ptr) or x.obj != y.obj:
                    continue
                s = read_range(eng, st, x, y, elt)
                r = s if r is None else s_ite(tob(b_and(c, d)), s, r)
        if r is None:
            raise ToolLimit('range of unrelated pointers')
        return r
    if isinstance(a, Ptr) and a.idx is not None:
        s = seq_of(eng, st, a)
        n = pdist(eng, st, a, b)
        eng.oblige(st, b_and(ule(a.idx, s.len), ule(n, sub(s.len, a.idx))), 'range within the sequence in ' + eng.where(), 'memory')
        return s_slice(s, a.idx, n)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and isc(a.off) and isc(b.off):
        # plain array
        o = st.mem[a.obj]
        els = []
        off = a.off
        while off < b.off:
            c = o.cells.get(off)
            if c is None:
                raise ToolLimit('range over plain memory')
            els.append(c[1])
            sz = c[0]
            off += sz
        if elt is None:
            sz = o.cells[a.off][0] if els else 8
            elt = PTRELT if els and isptr(els[0]) else Elt('i', sz * 8)
        return SList(elt, els)
    if isinstance(a, int) and isinstance(b, int) and a == 0 and b == 0 and elt is not None:
        return s_empty(elt)
    raise ToolLimit('range %r %r' % (a, b))


def range_of(eng, st, a, b, ty, elt=None):
    """range given by iterators of type ty"""
    if ty.startswith('std::reverse_iterator<'):
        # reverse iterators are passed in memory and hold the position behind theirs
        x, y = [eng.load(st, q, ('ptr',)) for q in (a, b)]
        return SRev(read_range(eng, st, y, x, elt))
    return read_range(eng, st, a, b, elt)


def write_range(eng, st, d, t):
    """overwrite elements starting at d by sequence t; returns the end pointer"""
    if isinstance(d, PIte):
        raise ToolLimit('range write through alternatives')
    if isinstance(d, Ptr) and d.idx is not None:
        s = seq_of(eng, st, d)
        n = t.len
        eng.oblige(st, b_and(ule(d.idx, s.len), ule(n, sub(s.len, d.idx))), 'range write within the sequence in ' + eng.where(), 'memory')
        end = add(d.idx, n)
        ns = s_cat(s_cat(s_slice(s, 0, d.idx), t), s_slice(s, end, sub(s.len, end)))
        eng.setv(st, Ptr(d.obj, d.off, d.path), ns)
        return Ptr(d.obj, d.off, d.path, end, 0)
    if isinstance(d, Ptr) and isc(d.off) and isc(t.len):
        off = d.off
        for i in range(t.len):
            eng.store1(st, Ptr(d.obj, off), t.elt.stride, t.at(i))
            off += t.elt.stride
        return Ptr(d.obj, off)
    raise ToolLimit('range write to %r' % (d,))


# ---------------------------------------------------------------- vectors
def vec_init(eng, st, p, seq, name='vec'):
    o = eng.new_obj(st, None, name)
    st.mem[o] = Obj_cells(eng, st.mem[o], seq)
    eng.setv_raw(st, p, 24, Ptr(o, 0))
    return o


def Obj_cells(eng, o, seq):
    c = dict(o.cells)
    c[0] = (8, seq)
    return o.with_cells(c)


def vec_ptr(eng, st, p):
    """storage pointer of the vector at p"""
    if isinstance(p, PIte):
        al = eng.live_alts(st, p, 'vector')
        r = None
        for c, q in reversed(al):
            v = vec_ptr(eng, st, q)
            r = v if r is None else ite(c, v, r)
        return r
    if not isinstance(p, Ptr):
        raise ToolLimit('vector behind %r in %s' % (p, eng.where()))
    if p.idx is not None:
        v = eng.getv(st, p)
        if isinstance(v, (Ptr, PIte)):
            return v
        raise ToolLimit('vector inside of an element')
    c = st.mem[p.obj].cells.get(p.off) if isc(p.off) else None
    if c is None or c[0] != 24:
        if not isc(p.off):
            # symbolic offset: select among vectors in the object
            r = None
            for k, cell in sorted(st.mem[p.obj].cells.items(), reverse=True):
                if cell[0] == 24 and eng.feasible(st, eq(p.off, k)):
                    r = cell[1] if r is None else ite(eq(p.off, k), cell[1], r)
            if r is not None:
                return r
        raise ToolLimit('no vector at %r in %s' % (p, eng.where()))
    return c[1]


def vec_seq(eng, st, p):
    s = vec_ptr(eng, st, p)
    return eng.getv(st, s)


def vec_set(eng, st, p, seq):
    s = vec_ptr(eng, st, p)
    eng.setv(st, s, seq)


def velem(s, i):
    if isinstance(s, PIte):
        return ite(s.c, velem(s.a, i), velem(s.b, i))
    return Ptr(s.obj, s.off, s.path, i, 0)


def argval(eng, st, a, e, byref=True):
    """element value from an argument (reference or value)"""
    if e.kind == 'msg':
        return eng.getv(st, a)
    if e.kind == 'agg':
        return eng.load(st, a, e.name)
    if byref:
        return eng.load(st, a, ('ptr',) if e.kind == 'p' else ('i', e.w))
    return a


def zero_of(e):
    if e.kind == 'msg':
        return MsgVal(e.name)
    if e.kind == 'agg':
        raise ToolLimit('value-initialised aggregate elements')
    return 0


class StlContracts:
    def __init__(self, schema):
        self.schema = schema
        self.cache = {}
        self.extra = []       # [(predicate or regex, handler)]

    def find(self, mod, name, dem):
        if name in self.cache:
            return self.cache[name]
        h = self._find(mod, name, dem)
        self.cache[name] = h
        return h

    def _find(self, mod, name, dem):
        if dem.startswith('operator new(unsigned long)') or name in ('_Znwm',):
            def f(eng, st, a, ins):
                return Ptr(eng.new_obj(st, a[0] if isc(a[0]) else None, 'heap'))
            return f
        if name.startswith('_ZdlPv'):
            return lambda eng, st, a, ins: None
        if 'std::' not in dem:
            return None
        m = parse_method(dem, 'std::vector')
        if m:
            return self._vector(mod, m, dem)
        m = parse_method(dem, 'std::initializer_list')
        if m:
            return None
        return self._algo(mod, dem)

    # ------------------------------------------------------------ std::vector
    def _vector(self, mod, m, dem):
        targs, meth, mt, args, const = m
        T = targs[0]
        e = elt_of(mod, T, self.schema)
        if e is None:
            return None
        A = split_targs(args)
        n = len(A)

        def seq(eng, st, p):
            return vec_seq(eng, st, p)
        isit = lambda s: '__normal_iterator' in s

        if meth == 'vector':
            if n == 0 or (n == 1 and 'std::allocator' in A[0] and 'std::vector' not in A[0] and 'initializer' not in A[0]):
                return lambda eng, st, a, ins: vec_init(eng, st, a[0], s_empty(e)) and None
            if A[0].startswith('std::vector') and A[0].endswith('&&'):
                def f(eng, st, a, ins):
                    src = vec_ptr(eng, st, a[1])
                    set_storage(eng, st, a[0], src)
                    o = eng.new_obj(st, None, 'vec')
                    st.mem[o] = Obj_cells(eng, st.mem[o], s_empty(e))
                    set_storage(eng, st, a[1], Ptr(o))
                return f
            if A[0].startswith('std::vector'):
                return lambda eng, st, a, ins: vec_init(eng, st, a[0], seq(eng, st, a[1])) and None
            if A[0] == 'unsigned long' and (n == 1 or 'std::allocator' in A[1]) and not (n > 1 and '&' in A[1] and 'allocator' not in A[1]):
                def f(eng, st, a, ins):
                    vec_init(eng, st, a[0], const_seq(e, a[1], zero_of(e)))
                return f
            if A[0] == 'unsigned long':
                def f(eng, st, a, ins):
                    vec_init(eng, st, a[0], const_seq(e, a[1], argval(eng, st, a[2], e)))
                return f
            if 'initializer_list' in A[0]:
                def f(eng, st, a, ins):
                    vec_init(eng, st, a[0], read_array(eng, st, a[1], a[2], e))
                return f
            if n >= 2:
                def f(eng, st, a, ins):
                    vec_init(eng, st, a[0], range_of(eng, st, a[1], a[2], A[0], e))
                return f
            return None
        if meth == '~vector':
            return lambda eng, st, a, ins: None
        if meth == 'operator=':
            if A[0].endswith('&&'):
                def f(eng, st, a, ins):
                    same = ptr_eq(a[0], a[1])
                    o = eng.new_obj(st, None, 'vec')
                    st.mem[o] = Obj_cells(eng, st.mem[o], s_empty(e))
                    src = vec_ptr(eng, st, a[1])
                    if not (isc(same)):
                        raise ToolLimit('possibly aliasing vector assignment')
                    if not same:
                        set_storage(eng, st, a[0], src)
                    set_storage(eng, st, a[1], Ptr(o))
                    return a[0]
                return f
            if 'initializer_list' in A[0]:
                def f(eng, st, a, ins):
                    vec_set(eng, st, a[0], read_array(eng, st, a[1], a[2], e))
                    return a[0]
                return f

            def f(eng, st, a, ins):
                vec_set(eng, st, a[0], seq(eng, st, a[1]))
                return a[0]
            return f
        if meth == 'swap':
            return lambda eng, st, a, ins: vswap(eng, st, a[0], a[1])
        if meth in ('begin', 'cbegin', 'data'):
            return lambda eng, st, a, ins: velem(vec_ptr(eng, st, a[0]), 0)
        if meth in ('end', 'cend'):
            def f(eng, st, a, ins):
                p = vec_ptr(eng, st, a[0])
                return vend(eng, st, p)
            return f
        if meth == 'size':
            return lambda eng, st, a, ins: seq(eng, st, a[0]).len
        if meth == 'capacity':
            return lambda eng, st, a, ins: capacity(eng, st, seq(eng, st, a[0]).len)
        if meth == 'empty':
            return lambda eng, st, a, ins: eq(seq(eng, st, a[0]).len, 0)
        if meth in ('reserve', 'shrink_to_fit'):
            return lambda eng, st, a, ins: None
        if meth == 'clear':
            return lambda eng, st, a, ins: vec_set(eng, st, a[0], s_empty(e))
        if meth == 'resize':
            def f(eng, st, a, ins):
                s = seq(eng, st, a[0])
                k = a[1]
                v = argval(eng, st, a[2], e) if n > 1 else zero_of(e)
                g = ule(k, s.len)
                if not isc(g):
                    if eng.valid(st, g):
                        g = 1
                    elif eng.valid(st, b_not(g)):
                        g = 0
                if isc(g):
                    r = s_slice(s, 0, k) if g else s_cat(s, const_seq(e, sub(k, s.len), v))
                else:
                    r = SIte(g, s_slice(s, 0, k), s_cat(s, const_seq(e, sub(k, s.len), v)))
                    r.len = k
                vec_set(eng, st, a[0], r)
            return f
        if meth == 'push_back' or (meth == 'emplace_back' and n == 1):
            ae = A[0]

            def f(eng, st, a, ins):
                s = seq(eng, st, a[0])
                v = conv_arg(eng, st, a[1], ae, e)
                vec_set(eng, st, a[0], s_append(s, v))
                if meth == 'emplace_back':
                    return velem_ref(eng, st, vec_ptr(eng, st, a[0]), s.len, e)
            return f
        if meth == 'emplace_back' and n == 0:
            def f(eng, st, a, ins):
                s = seq(eng, st, a[0])
                vec_set(eng, st, a[0], s_append(s, zero_of(e)))
                return velem_ref(eng, st, vec_ptr(eng, st, a[0]), s.len, e)
            return f
        if meth == 'pop_back':
            def f(eng, st, a, ins):
                s = seq(eng, st, a[0])
                eng.oblige(st, b_not(eq(s.len, 0)), 'pop_back on a non-empty vector in ' + eng.where(), 'memory')
                vec_set(eng, st, a[0], s_slice(s, 0, sub(s.len, 1)))
            return f
        if meth in ('back', 'front'):
            def f(eng, st, a, ins):
                s = seq(eng, st, a[0])
                eng.oblige(st, b_not(eq(s.len, 0)), '%s on a non-empty vector in %s' % (meth, eng.where()), 'memory')
                return velem_ref(eng, st, vec_ptr(eng, st, a[0]), sub(s.len, 1) if meth == 'back' else 0, e)
            return f
        if meth in ('operator[]', 'at'):
            def f(eng, st, a, ins):
                s = seq(eng, st, a[0])
                c = ult(a[1], s.len)
                if not (isc(c) and c):
                    eng.oblige(st, c, 'vector index in bounds in ' + eng.where(), 'memory')
                return velem_ref(eng, st, vec_ptr(eng, st, a[0]), a[1], e)
            return f
        if meth in ('erase', '_M_erase'):
            def f(eng, st, a, ins):
                p = vec_ptr(eng, st, a[0])
                s = eng.getv(st, p)
                i = index_in(eng, st, p, a[1])
                k = pdist(eng, st, a[1], a[2]) if n > 1 else 1
                eng.oblige(st, b_and(ule(i, s.len), ule(k, sub(s.len, i))), 'erase within the vector in ' + eng.where(), 'memory')
                eng.setv(st, p, s_erase(s, i, k))
                return a[1]
            return f
        if meth in ('insert', 'emplace', '_M_range_insert'):
            if n == 2 and 'initializer_list' not in A[1]:
                ae = A[1]

                def f(eng, st, a, ins):
                    p = vec_ptr(eng, st, a[0])
                    s = eng.getv(st, p)
                    i = index_in(eng, st, p, a[1])
                    eng.oblige(st, ule(i, s.len), 'insert position within the vector in ' + eng.where(), 'memory')
                    v = conv_arg(eng, st, a[2], ae, e)
                    eng.setv(st, p, s_insert(s, i, SList(e, [v])))
                    return a[1]
                return f
            if n == 3 and meth == 'insert' or n == 4 and meth == '_M_range_insert':
                def f(eng, st, a, ins):
                    p = vec_ptr(eng, st, a[0])
                    s = eng.getv(st, p)
                    i = index_in(eng, st, p, a[1])
                    eng.oblige(st, ule(i, s.len), 'insert position within the vector in ' + eng.where(), 'memory')
                    if A[1] == 'unsigned long':
                        t = const_seq(e, a[2], argval(eng, st, a[3], e))
                    else:
                        t = range_of(eng, st, a[2], a[3], A[1], e)
                    eng.setv(st, p, s_insert(s, i, t))
                    return a[1]
                return f
            return None
        if meth == 'assign':
            if A[0] == 'unsigned long':
                return lambda eng, st, a, ins: vec_set(eng, st, a[0], const_seq(e, a[1], argval(eng, st, a[2], e)))
            if n == 2:
                return lambda eng, st, a, ins: vec_set(eng, st, a[0], range_of(eng, st, a[1], a[2], A[0], e))
            return None
        if meth in ('rbegin', 'rend', 'crbegin', 'crend'):
            return None

        def f(eng, st, a, ins):
            raise ToolLimit('std::vector::' + meth)
        return f

    # ------------------------------------------------------------ algorithms
    def _algo(self, mod, dem):
        # function templates only: "ret std::name<targs>(args)"
        for m in re.finditer(r'(?:^| )std::(?:_V2::)?(\w+)<', dem):
            if balanced(dem[:m.start()]) and complete(dem[:m.start()]):
                break
        else:
            return None
        i = m.start(1)
        name = m.group(1)
        j = i + len(name)
        d = 0
        for k in range(j, len(dem)):
            if dem[k] == '<':
                d += 1
            elif dem[k] == '>':
                d -= 1
                if d == 0:
                    break
        rest = dem[k + 1:]
        if not rest.startswith('('):
            return None
        targs = split_targs(dem[j + 1:k])
        A = split_targs(rest[1:-1])
        n = len(A)
        itlike = lambda s: '__normal_iterator' in s or (s.endswith('*') and '&' not in s) or 'RepeatedPtrIterator' in s or 'RepeatedIterator' in s
        if name == 'swap' and n == 2 and A[0].startswith('std::vector') and 'std::array' not in A[0][:10]:
            return lambda eng, st, a, ins: vswap(eng, st, a[0], a[1])
        if name in ('copy', 'move') and n == 3 and itlike(A[0]) and 'back_insert_iterator' in A[2]:
            def f(eng, st, a, ins):
                vp = a[2]
                s = vec_seq(eng, st, vp)
                vec_set(eng, st, vp, s_cat(s, range_of(eng, st, a[0], a[1], A[0])))
                return vp
            return f
        rev = lambda s: s.startswith('std::reverse_iterator<') and itlike(s)
        if any(rev(x) for x in A):
            if name in ('copy', 'move') and n == 3 and rev(A[0]) and not rev(A[2]) and itlike(A[2]):
                def f(eng, st, a, ins):
                    return write_range(eng, st, a[2], range_of(eng, st, a[0], a[1], A[0]))
                return f
            return None
        if name in ('copy', 'move') and n == 3 and itlike(A[0]) and itlike(A[2]):
            def f(eng, st, a, ins):
                return write_range(eng, st, a[2], read_range(eng, st, a[0], a[1]))
            return f
        if name == 'copy_n' and n == 3 and itlike(A[0]) and itlike(A[2]):
            def f(eng, st, a, ins):
                s = seq_of(eng, st, a[0])
                k = a[1]
                e = a[0]
                end = Ptr(e.obj, e.off, e.path, add(e.idx, sext(k, 32, 64) if not isc(k) and k.size() == 32 else k), 0)
                return write_range(eng, st, a[2], read_range(eng, st, a[0], end))
            return f
        if name in ('copy_backward', 'move_backward') and n == 3 and itlike(A[0]) and itlike(A[2]):
            def f(eng, st, a, ins):
                t = read_range(eng, st, a[0], a[1])
                if not isinstance(a[2], Ptr) or a[2].idx is None:
                    raise ToolLimit('std::' + name)
                d = Ptr(a[2].obj, a[2].off, a[2].path, sub(a[2].idx, t.len), 0)
                eng.oblige(st, ule(t.len, a[2].idx), 'range write within the sequence in ' + eng.where(), 'memory')
                write_range(eng, st, d, t)
                return d
            return f
        if name == 'reverse_copy' and n == 3 and itlike(A[0]) and itlike(A[2]):
            def f(eng, st, a, ins):
                return write_range(eng, st, a[2], SRev(read_range(eng, st, a[0], a[1])))
            return f
        if name == 'reverse' and n == 2 and itlike(A[0]):
            def f(eng, st, a, ins):
                write_range(eng, st, a[0], SRev(read_range(eng, st, a[0], a[1])))
            return f
        if name == 'rotate' and n == 3 and itlike(A[0]):
            def f(eng, st, a, ins):
                x = read_range(eng, st, a[0], a[1])
                y = read_range(eng, st, a[1], a[2])
                write_range(eng, st, a[0], s_cat(y, x))
                return velem(Ptr(a[0].obj, a[0].off, a[0].path), add(a[0].idx, y.len)) if isinstance(a[0], Ptr) and a[0].idx is not None else POISON
            return f
        if name == 'fill' and n == 3 and itlike(A[0]):
            def f(eng, st, a, ins):
                s = seq_of(eng, st, a[0])
                k = pdist(eng, st, a[0], a[1])
                write_range(eng, st, a[0], const_seq(s.elt, k, argval(eng, st, a[2], s.elt)))
            return f
        if name in ('distance',) and n == 2 and itlike(A[0]):
            return lambda eng, st, a, ins: pdist(eng, st, a[0], a[1])
        if name == 'count' and n == 3 and itlike(A[0]):
            return None
        return None


def conv_arg(eng, st, a, ty, e):
    """argument given as a reference of type ty converted to an element"""
    t = ty.replace('const', '').replace('&', '').strip()
    if e.kind in ('msg', 'agg'):
        v = argval(eng, st, a, e)
        return v
    w = {'unsigned char': 8, 'char': 8, 'signed char': 8, 'bool': 8, 'unsigned short': 16, 'short': 16, 'unsigned int': 32, 'int': 32,
         'unsigned long': 64, 'long': 64}.get(t)
    if '&' not in ty:
        return a
    if w is None and e.kind == 'i':
        w = e.w
    if e.kind == 'p' or w == e.w:
        return argval(eng, st, a, e)
    v = eng.load(st, a, ('i', w))
    if w > e.w:
        return trunc(v, w, e.w)
    return sext(v, w, e.w) if t in ('char', 'signed char', 'short', 'int', 'long') else zext(v, w, e.w)


def index_in(eng, st, p, it):
    """index of iterator it in the storage p"""
    if isinstance(it, PIte) or isinstance(p, PIte):
        d = eng.pdiff(st, it, velem(p, 0))
        return d.n if isinstance(d, PDiff) else d
    if not isinstance(it, Ptr) or it.obj != p.obj or it.idx is None:
        raise ToolLimit('iterator of another container in ' + eng.where())
    return it.idx


def velem_ref(eng, st, s, i, e):
    if e.kind in ('msg',):
        if isinstance(s, PIte):
            return ite(s.c, velem_ref(eng, st, s.a, i, e), velem_ref(eng, st, s.b, i, e))
        return Ptr(s.obj, s.off, s.path + (i,))
    return velem(s, i)


def vend(eng, st, p):
    if isinstance(p, PIte):
        return ite(p.c, vend(eng, st, p.a), vend(eng, st, p.b))
    return velem(p, eng.getv(st, p).len)


def capacity(eng, st, n):
    c = eng.fresh('cap', 64)
    st.assume(z3.And(z3.UGE(c, bv(n, 64)), z3.ULT(c, bv(1 << 60, 64))))
    return c


def const_seq(e, n, v):
    if isc(n) and n <= 64:
        return SList(e, [v] * n)
    return SBase(e, 'const', n, lambda i: v)


def set_storage(eng, st, p, s):
    if isinstance(p, PIte):
        for c, q in eng.live_alts(st, p, 'vector'):
            old = vec_ptr(eng, st, q)
            set_storage(eng, st, q, ite(c, s, old))
        return
    if not isc(p.off):
        for k, cell in list(st.mem[p.obj].cells.items()):
            if cell[0] == 24 and eng.feasible(st, eq(p.off, k)):
                eng.setv_raw(st, Ptr(p.obj, k), 24, ite(eq(p.off, k), s, cell[1]))
        return
    eng.setv_raw(st, p, 24, s)


def vswap(eng, st, a, b):
    x, y = vec_ptr(eng, st, a), vec_ptr(eng, st, b)
    set_storage(eng, st, a, y)
    if isinstance(a, PIte) or isinstance(b, PIte) or not (isc(a.off) and isc(b.off)):
        # b may be the same vector as a: then x == y
        set_storage(eng, st, b, x)
        return
    set_storage(eng, st, b, x)


def read_array(eng, st, p, n, e):
    if not isc(n):
        raise ToolLimit('initializer list of symbolic length')
    els = []
    for i in range(n):
        q = eng.padd(st, p, i * e.stride)
        els.append(argval(eng, st, q, e))
    return SList(e, els)


class Chain:
    """first contract that answers"""
    def __init__(self, *cs):
        self.cs = cs

    def find(self, mod, name, dem):
        for c in self.cs:
            h = c.find(mod, name, dem)
            if h is not None:
                return h
        return None


class Named:
    """contracts selected by predicates over the demangled name"""
    def __init__(self, rules):
        self.rules = [(re.compile(r) if isinstance(r, str) else r, h) for r, h in rules]
        self.cache = {}

    def find(self, mod, name, dem):
        if name in self.cache:
            return self.cache[name]
        r = None
        for p, h in self.rules:
            if (p.search(dem) if hasattr(p, 'search') else p(dem)):
                r = h
                break
        self.cache[name] = r
        return r
