"""Protocol buffer messages: schema read from the .proto files, abstract records, and the
contracts of the generated accessors (trusted: protoc and the protobuf runtime)."""
import os
import re
import z3
from .val import *
from . import val as V

SCAL = {'int32': 32, 'sint32': 32, 'uint32': 32, 'int64': 64, 'sint64': 64, 'uint64': 64, 'fixed32': 32,
        'fixed64': 64, 'bool': 1}


class Field:
    __slots__ = ('name', 'type', 'kind', 'w', 'rep', 'num', 'oneof', 'cls', 'ptype')

    def __repr__(self):
        return 'Field(%s %s %s)' % (self.name, self.kind, self.cls or self.w)


class Msg:
    def __init__(self, cls):
        self.cls = cls
        self.fields = {}
        self.oneofs = {}


class Schema:
    def __init__(self, protodir):
        self.msgs = {}
        self.enums = {}
        self.values = {}
        self.eng = None
        self.memo = {}
        raw = []
        for f in sorted(os.listdir(protodir)):
            if f.endswith('.proto'):
                self._parse(open(os.path.join(protodir, f)).read(), raw)
        for cls, scope, name, ty, rep, num, oneof in raw:
            m = self.msgs[cls]
            fd = Field()
            fd.name = name.lower(); fd.rep = rep; fd.num = num; fd.oneof = oneof; fd.cls = None; fd.ptype = ty
            fd.type = ty
            if ty in SCAL:
                fd.kind = 'bool' if ty == 'bool' else 'int'
                fd.w = SCAL[ty]
            elif ty in ('string', 'bytes'):
                fd.kind = 'str'; fd.w = 64
            else:
                r = self._resolve(scope, ty)
                if r in self.enums:
                    fd.kind = 'int'; fd.w = 32
                else:
                    fd.kind = 'msg'; fd.w = 64; fd.cls = r
            m.fields[fd.name] = fd
            if oneof:
                m.oneofs.setdefault(oneof, []).append(fd)

    def _parse(self, text, raw):
        text = re.sub(r'/\*.*?\*/', ' ', text, flags=re.S)
        text = re.sub(r'//[^\n]*', ' ', text)
        toks = re.findall(r'"[^"]*"|[A-Za-z_][\w.]*|\.[A-Za-z_][\w.]*|\d+|[{}\[\]()=;,<>-]', text)
        i = 0
        pkg = []

        def block(i, path, oneof):
            while i < len(toks):
                t = toks[i]
                if t == '}':
                    return i + 1
                if t == ';':
                    i += 1
                elif t in ('syntax', 'import', 'option', 'reserved'):
                    while toks[i] != ';':
                        i += 1
                    i += 1
                elif t == 'package':
                    pkg[:] = toks[i + 1].split('.')
                    i += 3
                elif t == 'message' and toks[i + 2] == '{':
                    p = path + [toks[i + 1]]
                    cls = '::'.join(pkg + ['_'.join(p)])
                    self.msgs[cls] = Msg(cls)
                    i = block(i + 3, p, None)
                elif t == 'enum' and toks[i + 2] == '{':
                    p = path + [toks[i + 1]]
                    cls = '::'.join(pkg + ['_'.join(p)])
                    vals = {}
                    i += 3
                    while toks[i] != '}':
                        if toks[i] in ('option', 'reserved'):
                            while toks[i] != ';':
                                i += 1
                            i += 1
                            continue
                        n = toks[i]
                        j = i + 2
                        s = 1
                        if toks[j] == '-':
                            s = -1; j += 1
                        vals[n] = s * int(toks[j])
                        while toks[j] != ';':
                            j += 1
                        i = j + 1
                    i += 1
                    self.enums[cls] = vals
                    self.values.update(vals)
                elif t == 'oneof':
                    i = block(i + 3, path, toks[i + 1])
                else:
                    rep = False
                    if t in ('repeated', 'optional'):
                        rep = t == 'repeated'
                        i += 1
                    ty = toks[i]
                    name = toks[i + 1]
                    num = int(toks[i + 3])
                    while toks[i] != ';':
                        i += 1
                    i += 1
                    cls = '::'.join(pkg + ['_'.join(path)])
                    raw.append((cls, (list(pkg), list(path)), name, ty, rep, num, oneof))
            return i
        block(0, [], None)

    def _resolve(self, scope, ty):
        pkg, path = scope
        parts = [x for x in ty.split('.') if x]
        for n in range(len(path), -1, -1):
            c = '::'.join(pkg + ['_'.join(path[:n] + parts)])
            if c in self.msgs or c in self.enums:
                return c
        for n in range(len(pkg), -1, -1):
            for k in range(len(parts)):
                c = '::'.join(pkg[:n] + parts[:k] + ['_'.join(parts[k:])])
                if c in self.msgs or c in self.enums:
                    return c
        raise Exception('type %s in %s' % (ty, scope))

    # ------------------------------------------------------------ records
    def fld(self, t, k):
        f = self.msgs[t].fields.get(k)
        if f is None:
            raise ToolLimit('field %s of %s' % (k, t))
        return f

    def keys(self, t):
        m = self.msgs[t]
        return list(m.fields) + [('case', o) for o in m.oneofs]

    def width(self, t, k):
        if isinstance(k, tuple):
            return 32
        return self.fld(t, k).w

    def elt(self, f):
        if f.kind == 'msg':
            return Elt('msg', 64, f.cls, 8)
        if f.kind == 'str':
            return Elt('str', 64, None, 8)
        if f.kind == 'bool':
            return Elt('i', 8, None, 1)
        return Elt('i', f.w, None, f.w // 8)

    def default(self, f):
        if f.rep:
            return s_empty(self.elt(f))
        if f.kind == 'msg':
            m = MsgVal(f.cls)
            return m if f.oneof else (0, m)
        if f.kind == 'str':
            return StrVal(0)
        return 0

    def ax(self, a):
        if self.eng is not None:
            self.eng.axioms.append(a)

    def _uf(self, name, args, srt):
        if not args:
            return z3.Const(name, srt)
        return z3.Function(name, *([z3.BitVecSort(64)] * len(args)), srt)(*[bv(a, 64) for a in args])

    def rawget(self, m, k):
        v = m.f.get(k)
        if v is not None:
            return v
        if m.src is None:
            if isinstance(k, tuple):
                return 0
            return self.default(self.fld(m.t, k))
        key = (m.t, k, m.src[0], tuple(a if isc(a) else ('e', a.get_id()) for a in m.src[1]),
               None if len(m.src) < 3 or m.src[2] is None else m.src[2].get_id())
        r = self.memo.get(key)
        if r is None or r[2] is not self.eng:
            r = (self._sym(m, k), m, self.eng)
            self.memo[key] = r
        return r[0]

    def _sym(self, m, k):
        prefix, args = m.src[0], m.src[1]
        g = m.src[2] if len(m.src) > 2 else None
        g = 1 if g is None else g
        if isinstance(k, tuple):
            o = k[1]
            n = prefix + '.case_' + o
            c = self._uf(n, args, z3.BitVecSort(32))
            nums = [0] + [f.num for f in self.msgs[m.t].oneofs[o]]
            self.ax(z3.Or(*[c == x for x in nums]))
            return ite(g, c, 0, 32)
        f = self.fld(m.t, k)
        if f.oneof:
            g = b_and(g, eq(self.rawget(m, ('case', f.oneof)), f.num, 32))
        n = prefix + '.' + k
        if f.rep:
            ln = self._uf(n + '#len', args, z3.BitVecSort(64))
            self.ax(z3.ULT(ln, bv(1 << 31, 64)))
            ln = ite(g, ln, 0, 64)
            e = self.elt(f)
            if f.kind == 'msg':
                fn = lambda i: MsgVal(f.cls, None, (n, tuple(args) + (i,), None))
            elif f.kind == 'str':
                fn = lambda i: StrVal(self._uf(n, tuple(args) + (i,), z3.BitVecSort(64)))
            elif f.kind == 'bool':
                def fn(i):
                    return simp(z3.If(self._uf(n, tuple(args) + (i,), z3.BoolSort()), bv(1, 8), bv(0, 8)))
            else:
                fn = lambda i: self._uf(n, tuple(args) + (i,), z3.BitVecSort(f.w))
            return SBase(e, n, ln, fn)
        if f.kind == 'msg':
            if f.oneof:
                return MsgVal(f.cls, None, (n, args, None if isc(g) and g else tob(g)))
            p = b_and(g, self._uf(n + '?', args, z3.BoolSort()))
            return (p, MsgVal(f.cls, None, (n, args, tob(p))))
        if f.kind == 'str':
            return StrVal(ite(g, self._uf(n, args, z3.BitVecSort(64)), 0, 64))
        v = self._uf(n, args, z3.BoolSort() if f.w == 1 else z3.BitVecSort(f.w))
        return ite(g, v, 0, f.w)

    def sub(self, m, s):
        """value at a path step (presence stripped)"""
        v = self.rawget(m, s)
        if isinstance(v, tuple):
            return v[1]
        return v

    def setsub(self, m, s, nv):
        f = self.fld(m.t, s)
        if f.kind == 'msg' and not f.rep and not f.oneof:
            return m.setk(s, (self.rawget(m, s)[0], nv))
        return m.setk(s, nv)

    # ------------------------------------------------------------ operations
    def get(self, m, k):
        return self.sub(m, k)

    def case(self, m, o):
        return self.rawget(m, ('case', o))

    def has(self, m, k):
        f = self.fld(m.t, k)
        if f.oneof:
            return eq(self.case(m, f.oneof), f.num, 32)
        v = self.rawget(m, k)
        if isinstance(v, tuple):
            return v[0]
        raise ToolLimit('has_%s' % k)

    def clear_oneof(self, m, o):
        for f in self.msgs[m.t].oneofs[o]:
            m = m.setk(f.name, self.default(f))
        return m.setk(('case', o), 0)

    def select(self, m, f):
        """make oneof member f the active one (value kept when it already is)"""
        cur = eq(self.case(m, f.oneof), f.num, 32)
        old = self.rawget(m, f.name)
        # a message built here holds the default in every member that is not the active one
        if not (isc(cur) and cur) and m.src is not None:
            dflt = self.default(f)
            old = ite(cur, old, dflt, f.w) if not isc(cur) else dflt
        m2 = self.clear_oneof(m, f.oneof)
        return m2.setk(f.name, old).setk(('case', f.oneof), f.num)

    def set(self, m, k, v):
        f = self.fld(m.t, k)
        if f.oneof:
            m = self.clear_oneof(m, f.oneof).setk(('case', f.oneof), f.num)
        if f.kind == 'msg' and not f.rep and not f.oneof and not isinstance(v, tuple):
            v = (1, v)
        return m.setk(k, v)

    def make(self, cls, **kw):
        """record literal for specifications"""
        if cls not in self.msgs:
            c = [x for x in self.msgs if x.split('::')[-1] == cls and not x.startswith('YGOpen::Proto::Room')]
            if len(c) != 1:
                raise Exception('message %s: %s' % (cls, c))
            cls = c[0]
        m = MsgVal(cls)
        for k, v in kw.items():
            f = self.fld(cls, k)
            if f.rep and not isinstance(v, Seq):
                v = SList(self.elt(f), v)
            m = self.set(m, k, v)
        return m

    def cls(self, name):
        c = [x for x in self.msgs if x.endswith('::' + name)]
        if len(c) != 1:
            raise Exception('message %s: %s' % (name, c))
        return c[0]

    def symbolic(self, cls, name, args=()):
        if cls not in self.msgs:
            cls = self.cls(cls)
        return MsgVal(cls, None, (name, tuple(args), None))


# ---------------------------------------------------------------- contracts
RX = re.compile(r'^(?:[^()]*? )?(YGOpen::Proto::[A-Za-z0-9_:]*?)::(~?\w+|operator=)(<.*>)?\((.*)\)( const)?$')


class PbContracts:
    def __init__(self, schema):
        self.s = schema
        self.cache = {}
        # class -> method -> handler factory
        self.classes = {}

    def find(self, mod, name, dem):
        if name in self.cache:
            return self.cache[name]
        h = self._find(mod, name, dem.replace('[abi:cxx11]', ''))
        self.cache[name] = h
        return h

    def _find(self, mod, name, dem):
        s = self.s
        if dem.startswith('google::protobuf::') or 'google::protobuf::' in dem:
            h = self._runtime(mod, dem)
            if h is not None:
                return h
        m = RX.match(dem)
        if not m:
            return None
        cls, meth, tmpl, args, const = m.groups()
        if cls not in s.msgs:
            return None
        return self._method(mod, cls, meth, tmpl, args, const)

    def _new(self, mod, cls):
        for n in ('class.' + cls, 'struct.' + cls):
            if n in mod.types:
                return mod.sizeof(('named', n))
        return 64

    def _method(self, mod, cls, meth, tmpl, args, const):
        s = self.s
        M = s.msgs[cls]
        base = cls.split('::')[-1]
        size = self._new(mod, cls)

        def A0(eng, st, a):
            return eng.getv(st, a[0])

        if meth == base:
            if args.startswith(cls + ' const&'):
                def f(eng, st, a, ins):
                    eng.setv(st, a[0], eng.getv(st, a[1]), size)
                return f
            if args.startswith(cls + '&&'):
                def f(eng, st, a, ins):
                    v = eng.getv(st, a[1])
                    eng.setv(st, a[1], MsgVal(cls))
                    eng.setv(st, a[0], v, size)
                return f

            def f(eng, st, a, ins):
                eng.setv(st, a[0], MsgVal(cls), size)
            return f
        if meth == '~' + base:
            return lambda eng, st, a, ins: None
        if meth in ('CopyFrom', 'operator=') and not args.endswith('&&'):
            def f(eng, st, a, ins):
                eng.setv(st, a[0], eng.getv(st, a[1]), size)
                return a[0]
            return f
        if meth == 'operator=':
            def f(eng, st, a, ins):
                v = eng.getv(st, a[1])
                same = ptr_eq(a[0], a[1])
                if not (isc(same) and same):
                    eng.setv(st, a[1], MsgVal(cls))
                    eng.setv(st, a[0], v, size)
                return a[0]
            return f
        if meth in ('Swap', 'InternalSwap') or (meth == 'swap'):
            def f(eng, st, a, ins):
                x, y = eng.getv(st, a[0]), eng.getv(st, a[1])
                eng.setv(st, a[0], y, size)
                eng.setv(st, a[1], x, size)
            return f
        if meth == 'Clear':
            def f(eng, st, a, ins):
                eng.setv(st, a[0], MsgVal(cls))
            return f
        if meth == 'MergeFrom':
            raise_ = True

            def f(eng, st, a, ins):
                v = eng.getv(st, a[0])
                if v.src is None and not v.f:
                    eng.setv(st, a[0], eng.getv(st, a[1]))
                    return
                raise ToolLimit('MergeFrom')
            return f
        if meth in ('default_instance', 'internal_default_instance'):
            def f(eng, st, a, ins):
                o = eng.new_obj(st, size, 'default ' + cls)
                eng.setv(st, Ptr(o), MsgVal(cls), size)
                return Ptr(o)
            return f
        if meth in ('GetArena', 'GetArenaForAllocation', 'GetOwningArena'):
            return lambda eng, st, a, ins: 0

        mm = re.match(r'^(_internal_has|_internal_set|_internal_mutable|_internal_add|_internal|set_has|set|mutable|has|clear|add|release|set_allocated|unsafe_arena_set_allocated)_(\w+)$', meth)
        # longest match on field names first
        cands = []
        if meth in M.fields:
            cands.append(('get', meth))
        elif meth.rstrip('_') in M.fields and meth.endswith('_'):
            cands.append(('get', meth.rstrip('_')))
        for pre, op in (('_internal_has_', 'has'), ('_internal_set_', 'set'), ('_internal_mutable_', 'mutable'), ('_internal_add_', 'add'),
                        ('_internal_', 'get'), ('set_has_', 'sethas'), ('set_allocated_', 'tool'), ('unsafe_arena_set_allocated_', 'tool'),
                        ('release_', 'tool'), ('unsafe_arena_release_', 'tool'), ('set_', 'set'), ('mutable_', 'mutable'), ('has_', 'has'), ('clear_has_', 'clear'), ('clear_', 'clear'), ('add_', 'add')):
            if meth.startswith(pre):
                n = meth[len(pre):]
                if n in M.fields:
                    cands.append((op, n))
                elif n in M.oneofs and op in ('clear', 'has'):
                    cands.append((op + '1', n))
                elif n.endswith('_size') and n[:-5] in M.fields:
                    cands.append(('size', n[:-5]))
                elif n.endswith('_') and n[:-1] in M.fields:
                    cands.append((op, n[:-1]))
        if meth.endswith('_size') and meth[:-5] in M.fields:
            cands.append(('size', meth[:-5]))
        if meth.endswith('_case') and meth[:-5] in M.oneofs:
            cands.append(('case', meth[:-5]))
        if not cands:
            if meth in ('GetMetadata', 'SharedCtor', 'SharedDtor', 'SetCachedSize'):
                return lambda eng, st, a, ins: None

            def f(eng, st, a, ins):
                raise ToolLimit('protobuf function %s::%s' % (cls, meth))
            return f
        op, n = cands[0]
        if op == 'tool':
            def f(eng, st, a, ins):
                raise ToolLimit('protobuf function %s::%s' % (cls, meth))
            return f
        if op == 'case':
            return lambda eng, st, a, ins: s.case(A0(eng, st, a), n)
        if op == 'clear1':
            def f(eng, st, a, ins):
                eng.setv(st, a[0], s.clear_oneof(A0(eng, st, a), n))
            return f
        if op == 'has1':
            return lambda eng, st, a, ins: b_not(eq(s.case(A0(eng, st, a), n), 0, 32))
        fd = M.fields[n]
        if op == 'sethas':
            def f(eng, st, a, ins):
                eng.setv(st, a[0], s.select(A0(eng, st, a), fd))
            return f
        if op == 'size':
            return lambda eng, st, a, ins: trunc(s.get(A0(eng, st, a), n).len, 64, 32)
        if op == 'has':
            return lambda eng, st, a, ins: s.has(A0(eng, st, a), n)
        if op == 'get':
            nargs = 0 if not args else len(args.split(','))
            if fd.rep and nargs == 1:
                if fd.kind in ('msg', 'str'):
                    def f(eng, st, a, ins):
                        i = sext(a[1], 32, 64)
                        eng.bounds(st, s.get(A0(eng, st, a), n), i)
                        return submsg(a[0], n, i)
                    return f

                def f(eng, st, a, ins):
                    i = sext(a[1], 32, 64)
                    q = s.get(A0(eng, st, a), n)
                    eng.bounds(st, q, i)
                    v = q.at(i)
                    return trunc(v, 8, 1) if fd.kind == 'bool' else v
                return f
            if fd.rep or fd.kind in ('msg', 'str'):
                return lambda eng, st, a, ins: submsg(a[0], n)
            return lambda eng, st, a, ins: s.get(A0(eng, st, a), n)
        if op == 'set':
            if fd.rep:
                if fd.kind in ('msg',):
                    return None

                def f(eng, st, a, ins):
                    m = A0(eng, st, a)
                    q = s.get(m, n)
                    i = sext(a[1], 32, 64)
                    eng.bounds(st, q, i)
                    v = a[2]
                    if fd.kind == 'bool':
                        v = zext(v, 1, 8)
                    if fd.kind == 'str':
                        v = strarg(eng, st, a[2:], tmpl, args)
                    eng.setv(st, a[0], m.setk(n, s_update(q, i, v)))
                return f
            if fd.kind == 'str':
                def f(eng, st, a, ins):
                    eng.setv(st, a[0], s.set(A0(eng, st, a), n, strarg(eng, st, a[1:], tmpl, args)))
                return f

            def f(eng, st, a, ins):
                v = a[1]
                eng.setv(st, a[0], s.set(A0(eng, st, a), n, v))
            return f
        if op == 'mutable':
            nargs = 0 if not args else len(args.split(','))
            if fd.rep:
                if nargs == 1:
                    def f(eng, st, a, ins):
                        i = sext(a[1], 32, 64)
                        eng.bounds(st, s.get(A0(eng, st, a), n), i)
                        return submsg(a[0], n, i)
                    return f
                return lambda eng, st, a, ins: submsg(a[0], n)
            if fd.kind == 'msg':
                def f(eng, st, a, ins):
                    m = A0(eng, st, a)
                    if fd.oneof:
                        m = s.select(m, fd)
                    else:
                        m = m.setk(n, (1, s.rawget(m, n)[1]))
                    eng.setv(st, a[0], m)
                    return submsg(a[0], n)
                return f

            def f(eng, st, a, ins):
                return submsg(a[0], n)
            return f
        if op == 'add':
            if fd.kind == 'msg':
                def f(eng, st, a, ins):
                    m = A0(eng, st, a)
                    q = s.get(m, n)
                    i = q.len
                    eng.setv(st, a[0], m.setk(n, s_append(q, MsgVal(fd.cls))))
                    return submsg(a[0], n, i)
                return f

            def f(eng, st, a, ins):
                m = A0(eng, st, a)
                q = s.get(m, n)
                if fd.kind == 'str':
                    v = strarg(eng, st, a[1:], tmpl, args)
                else:
                    v = a[1]
                    if fd.kind == 'bool':
                        v = zext(v, 1, 8)
                eng.setv(st, a[0], m.setk(n, s_append(q, v)))
            return f
        if op == 'clear':
            def f(eng, st, a, ins):
                m = A0(eng, st, a)
                if fd.oneof:
                    c = s.has(m, n)
                    if isc(c):
                        if c:
                            m = s.clear_oneof(m, fd.oneof)
                    else:
                        m = msg_ite(c, s.clear_oneof(m, fd.oneof), m)
                else:
                    m = m.setk(n, s.default(fd))
                eng.setv(st, a[0], m)
            return f
        return None

    # ------------------------------------------------------------ runtime classes
    def _runtime(self, mod, dem):
        s = self.s
        m = re.match(r'^(YGOpen::Proto::[\w:]+)\* google::protobuf::(?:Arena|MessageLite)::(?:CreateMaybeMessage|Create|CreateMessage|CreateMessageInternal|DoCreateMessage)<(YGOpen::Proto::[\w:]+)', dem)
        if m and m.group(2) in s.msgs:
            cls = m.group(2)
            size = self._new(mod, cls)

            def f(eng, st, a, ins):
                o = eng.new_obj(st, size, cls.split('::')[-1])
                eng.setv(st, Ptr(o), MsgVal(cls), size)
                return Ptr(o)
            return f
        m = re.match(r'^google::protobuf::internal::RepeatedIterator<(.+?)>::(operator\*|operator->|operator\+\+)\((.*)\)( const)?$', dem)
        if m:
            def f(eng, st, a, ins):
                it = eng.load(st, a[0], ('ptr',))
                if m.group(2) != 'operator++':
                    return it
                if not isinstance(it, Ptr) or it.idx is None:
                    raise ToolLimit('iterator of a repeated field')
                eng.store(st, a[0], ('ptr',), Ptr(it.obj, it.off, it.path, add(it.idx, 1), it.inner))
                return it if m.group(3) else a[0]
            return f
        m = re.match(r'^(?:[^()]*? )?google::protobuf::(RepeatedPtrField|RepeatedField)<(.+?)>::(~?\w+|operator\[\]|operator=)(<.*>)?\((.*)\)( const)?$', dem)
        if m:
            return self._repeated(m.group(1) == 'RepeatedPtrField', m.group(2), m.group(3), m.group(4), m.group(5), m.group(6), dem)
        return None

    def _repeated(self, isptr_, ty, meth, tmpl, args, const, dem):
        s = self.s
        base = 'RepeatedPtrField' if isptr_ else 'RepeatedField'

        def S(eng, st, p):
            v = eng.getv(st, p)
            if not isinstance(v, Seq):
                raise ToolLimit('repeated field')
            return v

        def it(p, i):
            return Ptr(p.obj, p.off, p.full(), i, 0) if isinstance(p, Ptr) else ite(p.c, it(p.a, i), it(p.b, i))

        def elref(p, i):
            q = Ptr(p.obj, p.off, p.full() + (i,)) if isptr_ else Ptr(p.obj, p.off, p.full(), i, 0)
            return q

        if meth in ('size',):
            return lambda eng, st, a, ins: trunc(S(eng, st, a[0]).len, 64, 32)
        if meth == 'empty':
            return lambda eng, st, a, ins: eq(S(eng, st, a[0]).len, 0)
        if meth in ('begin', 'cbegin', 'data', 'mutable_data'):
            if isptr_ and meth in ('data', 'mutable_data'):
                return None
            return lambda eng, st, a, ins: it(a[0], 0)
        if meth in ('end', 'cend'):
            return lambda eng, st, a, ins: it(a[0], S(eng, st, a[0]).len)
        if meth in ('Get', 'operator[]', 'at', 'Mutable'):
            def f(eng, st, a, ins):
                i = sext(a[1], 32, 64)
                eng.bounds(st, S(eng, st, a[0]), i)
                return elref(a[0], i)
            return f
        if meth == 'Add':
            if not args:
                def f(eng, st, a, ins):
                    q = S(eng, st, a[0])
                    z = MsgVal(q.elt.name) if q.elt.kind == 'msg' else (StrVal(0) if q.elt.kind == 'str' else 0)
                    eng.setv(st, a[0], s_append(q, z))
                    return elref(a[0], q.len)
                return f
            if ',' not in args:
                def f(eng, st, a, ins):
                    q = S(eng, st, a[0])
                    if q.elt.kind == 'msg':
                        v = eng.getv(st, a[1])
                    elif q.elt.kind == 'str':
                        v = eng.getv(st, a[1])
                    elif args.endswith('&'):
                        v = eng.load(st, a[1], ('i', q.elt.w))
                    else:
                        v = a[1]
                    eng.setv(st, a[0], s_append(q, v))
                return f

            def f(eng, st, a, ins):
                from . import stl
                q = S(eng, st, a[0])
                eng.setv(st, a[0], s_cat(q, stl.read_range(eng, st, a[1], a[2])))
            return f
        if meth == 'Resize' and not isptr_:
            def f(eng, st, a, ins):
                q = S(eng, st, a[0])
                n = a[1]
                v = eng.load(st, a[2], ('i', q.elt.w))
                if not isc(n) or n > 16:
                    raise ToolLimit('Resize to a length that is not a small constant')
                eng.setv(st, a[0], SList(q.elt, [v if isc(q.len) and q.len <= i else ite(ult(i, q.len), q.at(i), v, q.elt.w) for i in range(n)]))
            return f
        if meth == 'Reserve':
            return lambda eng, st, a, ins: None
        if meth == 'Clear':
            def f(eng, st, a, ins):
                eng.setv(st, a[0], s_empty(S(eng, st, a[0]).elt))
            return f
        if meth in ('CopyFrom', 'operator=') and not args.endswith('&&'):
            def f(eng, st, a, ins):
                eng.setv(st, a[0], S(eng, st, a[1]))
                return a[0]
            return f
        if meth in ('operator=',):
            def f(eng, st, a, ins):
                q = S(eng, st, a[1])
                eng.setv(st, a[1], s_empty(q.elt))
                eng.setv(st, a[0], q)
                return a[0]
            return f
        if meth == 'MergeFrom':
            def f(eng, st, a, ins):
                eng.setv(st, a[0], s_cat(S(eng, st, a[0]), S(eng, st, a[1])))
            return f
        if meth in ('Swap', 'InternalSwap'):
            def f(eng, st, a, ins):
                x, y = S(eng, st, a[0]), S(eng, st, a[1])
                eng.setv(st, a[0], y)
                eng.setv(st, a[1], x)
            return f
        if meth == 'RemoveLast':
            def f(eng, st, a, ins):
                q = S(eng, st, a[0])
                eng.oblige(st, b_not(eq(q.len, 0)), 'RemoveLast on a non-empty field in ' + eng.where(), 'memory')
                eng.setv(st, a[0], s_slice(q, 0, sub(q.len, 1)))
            return f
        if meth == 'DeleteSubrange':
            def f(eng, st, a, ins):
                q = S(eng, st, a[0])
                eng.setv(st, a[0], s_erase(q, sext(a[1], 32, 64), sext(a[2], 32, 64)))
            return f
        if meth == 'SwapElements':
            def f(eng, st, a, ins):
                q = S(eng, st, a[0])
                i, j = sext(a[1], 32, 64), sext(a[2], 32, 64)
                x, y = q.at(i), q.at(j)
                eng.setv(st, a[0], s_update(s_update(q, i, y), j, x))
            return f
        if meth == 'Set':
            def f(eng, st, a, ins):
                q = S(eng, st, a[0])
                i = sext(a[1], 32, 64)
                eng.bounds(st, q, i)
                eng.setv(st, a[0], s_update(q, i, eng.load(st, a[2], ('i', q.elt.w))))
            return f
        if meth.startswith('~'):
            return lambda eng, st, a, ins: None

        return None


def submsg(p, *steps):
    if isinstance(p, PIte):
        return ite(p.c, submsg(p.a, *steps), submsg(p.b, *steps))
    if not isinstance(p, Ptr):
        raise ToolLimit('member of %r' % (p,))
    return Ptr(p.obj, p.off, p.full() + steps)


def strarg(eng, st, a, tmpl, args):
    v = a[0]
    x = eng.getv(st, v)
    if isinstance(x, StrVal):
        return x
    raise ToolLimit('string argument')
