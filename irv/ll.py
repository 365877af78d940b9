"""Textual LLVM IR (clang/LLVM 18, opaque pointers) parser.

Module text comes straight from clang on every run; functions are parsed on
demand.  Types are tuples: ('i', n) ('ptr',) ('arr', n, T) ('struct', (T..), packed)
('named', name) ('void',) ('float', bits) ('fn',) ('meta',) ('label',)
"""
import re, subprocess

TOK = re.compile(r'''
 (?P<ws>[\s]+)
|(?P<cmt>;[^\n]*)
|(?P<cstr>c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*")
|(?P<loc>%"(?:[^"\\]|\\.)*"|%[-a-zA-Z$._0-9]+)
|(?P<glob>@"(?:[^"\\]|\\.)*"|@[-a-zA-Z$._0-9]+)
|(?P<meta>![-a-zA-Z$._0-9]*)
|(?P<attr>\#\d+)
|(?P<str>"(?:[^"\\]|\\.)*")
|(?P<comdat>\$"(?:[^"\\]|\\.)*"|\$[-a-zA-Z$._0-9]+)
|(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
|(?P<dots>\.\.\.)
|(?P<word>[a-zA-Z_][a-zA-Z0-9_.]*)
|(?P<p>[()\[\]{}<>,=*:|])
''', re.X)


class ParseError(Exception):
    pass


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise ParseError('token: ' + s[i:i + 60])
        k = m.lastgroup
        i = m.end()
        if k in ('ws', 'cmt'):
            continue
        out.append((k, m.group()))
    return out


VOID = ('void',)
PTR = ('ptr',)
I1, I8, I16, I32, I64 = (('i', n) for n in (1, 8, 16, 32, 64))

PARAM_ATTRS = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'readnone',
               'writeonly', 'returned', 'immarg', 'inreg', 'nofree', 'nest', 'swiftself', 'noext', 'allocptr', 'writable', 'dead_on_unwind'}


class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def acc(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if self.peek() != v:
            raise ParseError('expected %r got %r in %s' % (v, self.t[self.i:self.i + 8], ' '.join(x[1] for x in self.t)[:300]))
        self.i += 1

    # ---- types
    def type(self):
        w = self.next()
        if w == 'void':
            t = VOID
        elif w == 'ptr':
            t = PTR
            if self.acc('addrspace'):
                self.exp('('); self.next(); self.exp(')')
        elif re.fullmatch(r'i\d+', w):
            t = ('i', int(w[1:]))
        elif w in ('float', 'double', 'half', 'x86_fp80', 'fp128'):
            t = ('float', {'float': 32, 'double': 64, 'half': 16, 'x86_fp80': 128, 'fp128': 128}[w])
        elif w == 'metadata':
            t = ('meta',)
        elif w == 'label':
            t = ('label',)
        elif w == 'token':
            t = ('token',)
        elif w == 'opaque':
            t = ('opaque',)
        elif w == '[':
            n = int(self.next()); self.exp('x'); e = self.type(); self.exp(']')
            t = ('arr', n, e)
        elif w == '{':
            t = self.struct_body(False)
        elif w == '<':
            if self.peek() == '{':
                self.next()
                t = self.struct_body(True)
                self.exp('>')
            else:
                n = int(self.next()); self.exp('x'); e = self.type(); self.exp('>')
                t = ('vec', n, e)
        elif w.startswith('%'):
            t = ('named', w[1:].strip('"'))
        else:
            raise ParseError('type %r' % w)
        while self.peek() == '(' and t != PTR and False:
            pass
        return t

    def struct_body(self, packed):
        el = []
        if not self.acc('}'):
            while True:
                el.append(self.type())
                if self.acc('}'):
                    break
                self.exp(',')
        return ('struct', tuple(el), packed)

    def skip_attrs(self):
        while True:
            w = self.peek()
            if w is None:
                return
            if w in PARAM_ATTRS:
                self.i += 1
            elif w == 'align':
                self.i += 1
                if self.acc('('):
                    self.next(); self.exp(')')
                else:
                    self.next()
            elif w in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'elementtype', 'inalloca', 'preallocated', 'nofpclass', 'range', 'initializes', 'captures'):
                self.i += 1
                self.balanced()
            else:
                return

    def balanced(self):
        self.exp('(')
        d = 1
        while d:
            w = self.next()
            if w == '(':
                d += 1
            elif w == ')':
                d -= 1

    # ---- values: ('loc',name) ('glob',name) ('int',n) ('null',) ('undef',) ('zero',) ('agg',[(ty,v)]) ('cstr',bytes) ('ce',op,...)
    def value(self, ty):
        k = self.kind()
        w = self.next()
        if k == 'loc':
            return ('loc', w[1:].strip('"'))
        if k == 'glob':
            return ('glob', w[1:].strip('"'))
        if k == 'num':
            if ty and ty[0] == 'float':
                return ('fp', float(w))
            return ('int', int(w))
        if k == 'hex':
            return ('fp', w)
        if w == 'true':
            return ('int', 1)
        if w == 'false':
            return ('int', 0)
        if w == 'null':
            return ('null',)
        if w in ('undef', 'poison'):
            return ('undef',)
        if w == 'zeroinitializer':
            return ('zero',)
        if k == 'cstr':
            return ('cstr', unesc(w[2:-1]))
        if w == '{' or w == '[' or w == '<':
            end = {'{': '}', '[': ']', '<': '>'}[w]
            packed = False
            if w == '<' and self.peek() == '{':
                self.next(); end = '}'; packed = True
            el = []
            if not self.acc(end):
                while True:
                    t = self.type()
                    el.append((t, self.value(t)))
                    if self.acc(end):
                        break
                    self.exp(',')
            if packed:
                self.exp('>')
            return ('agg', el)
        if w == 'getelementptr':
            self.acc('inbounds')
            self.exp('(')
            bt = self.type(); self.exp(',')
            ops = []
            while True:
                self.acc('inrange')
                t = self.type()
                ops.append((t, self.value(t)))
                if self.acc(')'):
                    break
                self.exp(',')
            return ('ce_gep', bt, ops)
        if w in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.exp('(')
            t = self.type(); v = self.value(t); self.exp('to'); t2 = self.type(); self.exp(')')
            return ('ce_cast', w, t, v, t2)
        if w in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            while self.peek() in ('nsw', 'nuw'):
                self.i += 1
            self.exp('(')
            t = self.type(); a = self.value(t); self.exp(','); t2 = self.type(); b = self.value(t2); self.exp(')')
            return ('ce_bin', w, t, a, b)
        if w == 'splat':
            self.exp('(')
            t = self.type(); v = self.value(t); self.exp(')')
            return ('splat', v)
        if w == 'asm':
            while self.kind() in ('str',) or self.peek() in ('sideeffect', 'alignstack', ','):
                self.i += 1
            return ('asm',)
        raise ParseError('value %r in %s' % (w, ' '.join(x[1] for x in self.t)[:300]))

    def tval(self):
        t = self.type()
        self.skip_attrs()
        if t == ('meta',):
            # swallow metadata operand
            d = 0
            while self.peek() is not None and not (d == 0 and self.peek() in (',', ')')):
                if self.peek() in '([{':
                    d += 1
                if self.peek() in ')]}':
                    d -= 1
                self.i += 1
            return t, ('undef',)
        return t, self.value(t)


def unesc(s):
    out = bytearray()
    i = 0
    b = s.encode('latin1')
    while i < len(b):
        if b[i] == 0x5c:
            if b[i + 1] == 0x5c:
                out.append(0x5c); i += 2
            else:
                out.append(int(b[i + 1:i + 3], 16)); i += 3
        else:
            out.append(b[i]); i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text')

    def __init__(self, op, dst, ty, a, text):
        self.op = op; self.dst = dst; self.ty = ty; self.a = a; self.text = text

    def __repr__(self):
        return self.text


class Function:
    def __init__(self, name, mod, ret, params, body):
        self.name = name; self.mod = mod; self.ret = ret; self.params = params  # [(ty, name)]
        self._body = body
        self._blocks = None

    @property
    def is_decl(self):
        return self._body is None

    @property
    def blocks(self):
        if self._blocks is None:
            self._parse()
        return self._blocks

    def _parse(self):
        lines = self._body.split('\n')
        blocks = {}
        order = []
        cur = None
        i = 0
        auto = None
        while i < len(lines):
            ln = lines[i]
            i += 1
            s = ln.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+):', ln)
            if m:
                cur = m.group(1).strip('"')
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                # unnamed entry block gets the number after the params
                cur = str(len(self.params))
                blocks[cur] = []
                order.append(cur)
            if s.startswith('switch') and '[' in s and ']' not in s:
                while ']' not in s.split('[', 1)[1]:
                    s += ' ' + lines[i].strip()
                    i += 1
            if re.search(r'\binvoke\b', s) and i < len(lines) and lines[i].strip().startswith('to label'):
                s += ' ' + lines[i].strip()
                i += 1
            if 'landingpad' in s:
                while i < len(lines) and lines[i].strip().split(' ')[0] in ('cleanup', 'catch', 'filter'):
                    s += ' ' + lines[i].strip()
                    i += 1
            blocks[cur].append(parse_instr(s, self.mod))
        self._blocks = blocks
        self.order = order
        self.entry = order[0]

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return [t.a[0]] if len(t.a) == 1 else [t.a[1], t.a[2]]
        if t.op == 'switch':
            return [t.a[2]] + [x[1] for x in t.a[3]]
        if t.op == 'invoke':
            return [t.a[4]]
        return []

    def analyse(self):
        """dominators and natural loops: header -> set(blocks)"""
        if hasattr(self, 'loops'):
            return
        self.blocks
        n = self.order
        preds = {b: [] for b in n}
        # reachable
        seen = []
        st = [self.entry]
        ss = set(st)
        post = []
        def dfs(b):
            stack = [(b, iter(self.succs(b)))]
            visited = {b}
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in visited:
                        visited.add(y)
                        stack.append((y, iter(self.succs(y))))
                        break
                else:
                    post.append(x)
                    stack.pop()
        dfs(self.entry)
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        for b in rpo:
            for s in self.succs(b):
                preds[s].append(b)
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == self.entry:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in self.succs(b):
                if dom(s, b):
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(preds[x])
        self.loops = loops
        self.rpo_index = idx
        self.preds = preds


FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}


def parse_instr(s, mod):
    p = P(tokenize(s), mod)
    dst = None
    if p.kind() == 'loc' and p.peek(1) == '=':
        dst = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'ret':
        t = p.type()
        if t == VOID:
            return Instr('ret', None, VOID, None, s)
        return Instr('ret', None, t, p.value(t), s)
    if op == 'br':
        if p.acc('label'):
            return Instr('br', None, None, (p.next()[1:].strip('"'),), s)
        t = p.type()
        c = p.value(t)
        p.exp(','); p.exp('label'); a = p.next()[1:].strip('"')
        p.exp(','); p.exp('label'); b = p.next()[1:].strip('"')
        return Instr('br', None, None, (c, a, b), s)
    if op == 'switch':
        t = p.type(); v = p.value(t); p.exp(','); p.exp('label'); d = p.next()[1:].strip('"')
        p.exp('[')
        cases = []
        while not p.acc(']'):
            ct = p.type(); cv = p.value(ct); p.exp(','); p.exp('label')
            cases.append((cv[1], p.next()[1:].strip('"')))
        return Instr('switch', None, t, (t, v, d, cases), s)
    if op == 'unreachable':
        return Instr('unreachable', None, None, None, s)
    if op == 'resume':
        return Instr('unreachable', None, None, None, s)
    if op == 'alloca':
        p.acc('inalloca')
        t = p.type()
        n = None
        if p.acc(',') and p.peek() != 'align':
            nt = p.type(); n = p.value(nt)
        return Instr('alloca', dst, PTR, (t, n), s)
    if op == 'load':
        p.acc('atomic'); p.acc('volatile')
        t = p.type(); p.exp(','); pt = p.type(); return Instr('load', dst, t, p.value(pt), s)
    if op == 'store':
        p.acc('atomic'); p.acc('volatile')
        t = p.type(); v = p.value(t); p.exp(','); pt = p.type()
        return Instr('store', None, t, (v, p.value(pt)), s)
    if op == 'getelementptr':
        p.acc('inbounds')
        bt = p.type(); p.exp(',')
        ops = []
        while True:
            t = p.type()
            ops.append((t, p.value(t)))
            if not p.acc(','):
                break
            if p.kind() == 'meta':
                break
        return Instr('gep', dst, PTR, (bt, ops), s)
    if op in ('call', 'invoke'):
        while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc') or p.peek() in PARAM_ATTRS or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
            if p.peek() in PARAM_ATTRS or p.peek() in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range', 'nofpclass'):
                p.skip_attrs()
            else:
                p.i += 1
        rt = p.type()
        if p.peek() == '(':  # function type given
            p.balanced()
        callee = p.value(PTR)
        p.exp('(')
        args = []
        if not p.acc(')'):
            while True:
                args.append(p.tval())
                if p.acc(')'):
                    break
                p.exp(',')
        if op == 'invoke':
            while p.peek() != 'to':
                p.i += 1
            p.exp('to'); p.exp('label'); nd = p.next()[1:].strip('"')
            return Instr('invoke', dst, rt, (rt, callee, args, None, nd), s)
        return Instr('call', dst, rt, (rt, callee, args), s)
    if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
        fl = set()
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            fl.add(p.next())
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Instr('bin', dst, t, (op, a, b, fl), s)
    if op == 'icmp':
        pr = p.next()
        t = p.type(); a = p.value(t); p.exp(','); b = p.value(t)
        return Instr('icmp', dst, I1, (pr, t, a, b), s)
    if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext', 'fptrunc'):
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            p.i += 1
        t = p.type(); v = p.value(t); p.exp('to'); t2 = p.type()
        return Instr('cast', dst, t2, (op, t, v), s)
    if op == 'select':
        while p.peek() in FMF:
            p.i += 1
        t = p.type(); c = p.value(t); p.exp(','); t1 = p.type(); a = p.value(t1); p.exp(','); t2 = p.type(); b = p.value(t2)
        return Instr('select', dst, t1, (c, a, b), s)
    if op == 'phi':
        while p.peek() in FMF:
            p.i += 1
        t = p.type()
        inc = []
        while True:
            p.exp('['); v = p.value(t); p.exp(','); b = p.next()[1:].strip('"'); p.exp(']')
            inc.append((v, b))
            if not p.acc(','):
                break
            if p.kind() == 'meta':
                break
        return Instr('phi', dst, t, inc, s)
    if op == 'extractvalue':
        t = p.type(); v = p.value(t)
        ix = []
        while p.acc(','):
            if p.kind() == 'meta':
                break
            ix.append(int(p.next()))
        return Instr('extractvalue', dst, t, (v, ix), s)
    if op == 'insertvalue':
        t = p.type(); v = p.value(t); p.exp(','); t2 = p.type(); e = p.value(t2)
        ix = []
        while p.acc(','):
            ix.append(int(p.next()))
        return Instr('insertvalue', dst, t, (v, t2, e, ix), s)
    if op == 'freeze':
        t = p.type(); return Instr('freeze', dst, t, p.value(t), s)
    if op in ('fcmp', 'fadd', 'fsub', 'fmul', 'fdiv', 'fneg'):
        return Instr('float', dst, None, None, s)
    if op in ('landingpad', 'atomicrmw', 'cmpxchg', 'fence', 'va_arg', 'extractelement', 'insertelement', 'shufflevector'):
        return Instr('unsupported', dst, None, op, s)
    raise ParseError('instr ' + s)


class Module:
    def __init__(self, text):
        self.text = text
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self._scan()
        self._demangle()
        self._sz = {}

    def _scan(self):
        lines = self.text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln.startswith('%') and ' = type ' in ln:
                a, b = ln.split(' = type ', 1)
                self.types[a[1:].strip().strip('"')] = b
            elif ln.startswith('@'):
                name = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)', ln).group(1).strip('"')
                self.globals[name] = ln
            elif ln.startswith('define ') or ln.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', ln)
                name = m.group(1).strip('"')
                if ln.startswith('define'):
                    j = i + 1
                    while lines[j] != '}':
                        j += 1
                    self.funcs[name] = (ln, '\n'.join(lines[i + 1:j]))
                    i = j
                else:
                    self.funcs[name] = (ln, None)
            i += 1

    def _demangle(self):
        names = list(self.funcs) + [g for g in self.globals]
        r = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True, check=True)
        dem = r.stdout.split('\n')
        self.dem = dict(zip(names, dem))
        self.bydem = {}
        for k, v in self.dem.items():
            self.bydem.setdefault(v, k)

    def func(self, name):
        f = self.funcs.get(name)
        if f is None:
            return None
        if isinstance(f, tuple):
            f = self._mkfunc(name, *f)
            self.funcs[name] = f
        return f

    def _mkfunc(self, name, head, body):
        i = head.index('@')
        pre = head[:i]
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', head)
        # params
        p = P(tokenize(head[m.end() - 1:]), self)
        p.exp('(')
        params = []
        if not p.acc(')'):
            while True:
                if p.acc('...'):
                    p.exp(')')
                    break
                t = p.type()
                sret = p.peek() == 'sret'
                p.skip_attrs()
                nm = None
                if p.kind() == 'loc':
                    nm = p.next()[1:].strip('"')
                else:
                    nm = str(len(params))
                params.append((t, nm))
                if p.acc(')'):
                    break
                p.exp(',')
        toks = pre.split()
        # return type: parse from tokens after linkage words
        pt = P(tokenize(pre), self)
        ret = VOID
        while pt.i < len(pt.t):
            w = pt.peek()
            if w in ('define', 'declare', 'linkonce_odr', 'dso_local', 'internal', 'private', 'weak', 'weak_odr', 'hidden', 'protected',
                     'external', 'available_externally', 'fastcc', 'unnamed_addr', 'local_unnamed_addr', 'extern_weak', 'dllimport', 'default') or w in PARAM_ATTRS:
                pt.i += 1
            elif w in ('align', 'dereferenceable', 'dereferenceable_or_null', 'range'):
                pt.skip_attrs()
            else:
                ret = pt.type()
                break
        return Function(name, self, ret, params, body)

    # ---- layout
    def resolve(self, t):
        if t[0] == 'named':
            r = self.types[t[1]]
            if isinstance(r, str):
                if r.strip() == 'opaque':
                    r = ('opaque',)
                else:
                    r = P(tokenize(r), self).type()
                self.types[t[1]] = r
            return r
        return t

    def size_align(self, t):
        v = self._sz.get(t)
        if v is None:
            v = self._size_align(t)
            self._sz[t] = v
        return v

    def _size_align(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            s = 1
            while s * 8 < n:
                s *= 2
            return s, min(s, 16)
        if k == 'ptr':
            return 8, 8
        if k == 'float':
            return t[1] // 8, t[1] // 8
        if k == 'arr':
            s, a = self.size_align(t[2])
            return s * t[1], a
        if k == 'vec':
            s, a = self.size_align(t[2])
            return s * t[1], s * t[1]
        if k == 'named':
            return self.size_align(self.resolve(t))
        if k == 'struct':
            o = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if not t[2]:
                    o = (o + a - 1) // a * a
                    al = max(al, a)
                o += s
            if not t[2]:
                o = (o + al - 1) // al * al
            return o, al
        raise ParseError('size of %r' % (t,))

    def sizeof(self, t):
        return self.size_align(t)[0]

    def field_off(self, t, i):
        t = self.resolve(t)
        o = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if not t[2]:
                o = (o + a - 1) // a * a
            if j == i:
                return o, e
            o += s
        raise ParseError('field')

    def global_init(self, name):
        ln = self.globals[name]
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\s*=\s*', ln)
        p = P(tokenize(ln[m.end():]), self)
        is_const = False
        while p.i < len(p.t):
            w = p.peek()
            if w in ('constant', 'global'):
                is_const = w == 'constant'
                p.i += 1
                break
            if w == 'alias':
                return None, None, False
            p.i += 1
        t = p.type()
        if p.peek() in (None, ',') or p.peek() == 'comdat':
            return t, None, is_const
        if 'external' in ln.split('=')[1].split()[:3]:
            return t, None, is_const
        return t, p.value(t), is_const
