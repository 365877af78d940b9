"""Verification-condition generator over LLVM IR.

Executes the IR clang makes from the current sources symbolically, function by function:
calls with a contract use the contract, all others are inlined; paths are joined at control
flow joins; loops whose trip count is not concrete are replaced by an inductive summary which
is checked at an arbitrary iteration (loop.py).  Every obligation goes to z3.
"""
import time
import z3
from . import ll
from .val import *
from . import val as V


class Obj:
    __slots__ = ('size', 'cells', 'kind', 'name', 'init', 'arr')

    def __init__(self, size, cells=None, kind='mem', name='', init='poison', arr=None):
        self.size = size; self.cells = cells if cells is not None else {}
        self.kind = kind; self.name = name; self.init = init; self.arr = arr

    def with_cells(self, c):
        return Obj(self.size, c, self.kind, self.name, self.init, self.arr)


def arr_byte(arr, off):
    """byte of an input buffer; bytes at a constant distance from a named offset are symbols of their own:
    a generalisation (what holds for unrelated bytes holds for those of one buffer)"""
    if isinstance(off, z3.ExprRef):
        e, d = off, 0
        if e.decl().kind() == z3.Z3_OP_BADD and e.num_args() == 2 and z3.is_bv_value(e.arg(0)):
            d, e = e.arg(0).as_long(), e.arg(1)
        if z3.is_const(e) and e.decl().name().startswith('end of part'):
            return z3.BitVec('buffer[%s + %d]' % (e.decl().name(), d), 8)
    return z3.Select(arr, bv(off, 64))


class State:
    __slots__ = ('mem', 'pc', 'ghost', 'facts')

    def __init__(self):
        self.mem = {}; self.pc = []; self.ghost = {}; self.facts = []

    def copy(self):
        s = State()
        s.mem = dict(self.mem); s.pc = list(self.pc); s.ghost = dict(self.ghost); s.facts = list(self.facts)
        return s

    def assume(self, c):
        if isinstance(c, int):
            if not c:
                self.pc.append(z3.BoolVal(False))
            return self
        self.pc.append(c)
        return self


class Ob:
    __slots__ = ('name', 'status', 'pc', 'cond', 'model', 'kind', 'dt', 'exact')

    def __init__(self, name, kind, status, pc=None, cond=None, model=None, dt=0, exact=True):
        self.name = name; self.kind = kind; self.status = status
        self.pc = pc; self.cond = cond; self.model = model; self.dt = dt; self.exact = exact

    def __repr__(self):
        return '<%s %s %s>' % (self.status, self.kind, self.name)


class Engine:
    Ob = Ob

    def __init__(self, mod, contracts, query_ms=20000):
        self.mod = mod
        self.contracts = contracts      # object with .find(mangled, demangled) -> handler or None
        self.oid = 0
        self.nsym = 0
        self.ns = ''                    # name space of symbols: the enclosing generic iteration
        self.obs = []                   # obligations
        self.axioms = []                # facts about symbols, instantiated when the symbol is made
        self.loops = []                 # indices of the enclosing generic iterations
        self.solver_time = 0.0
        self.queries = 0
        self.query_ms = query_ms
        self.cache = {}
        self.keep = []
        self.symcache = {}
        self.gobj = {}
        self.mutable = set()
        self.gstate = {}
        self.depth = 0
        self.fnstack = []
        self.exact = True
        self.inlined = set()
        self.used_contracts = set()
        self.deadline = None
        self.stats = {'loops_summarised': 0, 'loops_unrolled': 0}

    # ------------------------------------------------------------ symbols
    def uid(self):
        self.nsym += 1
        return '%s%d' % (self.ns, self.nsym)

    def fresh(self, name, w):
        """fresh symbol, a function of the enclosing generic loop iterations. w: bits or 1 for Bool"""
        n = '%s!%s' % (name, self.uid())
        srt = z3.BoolSort() if w == 1 else z3.BitVecSort(w)
        if not self.loops:
            return z3.Const(n, srt)
        f = z3.Function(n, *([z3.BitVecSort(64)] * len(self.loops)), srt)
        return f(*self.loops)

    def new_obj(self, st, size, name='', **kw):
        self.oid += 1
        st.mem[self.oid] = Obj(size, name=name, **kw)
        return self.oid

    # ------------------------------------------------------------ solver
    def _check(self, fs, need_model=False):
        if self.deadline is not None and time.time() > self.deadline:
            raise ToolLimit('time budget of the check exhausted')
        fs = [f for f in fs if not z3.is_true(f)]
        for f in fs:
            if z3.is_false(f):
                return z3.unsat, None
        key = (frozenset(f.get_id() for f in fs), len(self.axioms))
        if key in self.cache:
            r = self.cache[key]
            if not need_model or r[0] != z3.sat or r[1] is not None:
                return r
        t = time.time()
        # first only the facts connected to the last formula (the goal) through symbols; the others
        # cannot contribute to a refutation unless they are contradictory themselves
        rel = self.relevant(fs)
        s = z3.Solver()
        s.set('timeout', self.query_ms)
        for f in rel:
            s.add(f)
        r = s.check()
        if r == z3.unknown and self.bitblast:
            s = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'simplify', 'bit-blast', 'sat').solver()
            s.set('timeout', 60 * self.query_ms)
            for f in rel:
                s.add(f)
            r = s.check()
        elif r == z3.unknown:
            # once more from another seed
            s = z3.Solver()
            s.set('timeout', self.query_ms)
            s.set('random_seed', 7)
            for f in rel:
                s.add(f)
            r = s.check()
        m = None
        if r == z3.sat and need_model:
            s = z3.Solver()
            s.set('timeout', self.query_ms)
            for a in self.axioms:
                s.add(a)
            for f in fs:
                s.add(f)
            r = s.check()
            m = s.model() if r == z3.sat else None
        d = time.time() - t
        self.solver_time += d
        self.queries += 1
        if d > 2 and self.verbose:
            print('   slow query %.1fs %s in %s' % (d, r, self.fnstack[-1:] ), flush=True)
        self.keep.append(fs)
        self.cache[key] = (r, m)
        return r, m

    def syms(self, f):
        i = f.get_id()
        v = self.symcache.get(i)
        if v is not None:
            return v[1]
        out = set()
        seen = set()
        todo = [f]
        while todo:
            e = todo.pop()
            j = e.get_id()
            if j in seen:
                continue
            seen.add(j)
            w = self.symcache.get(j)
            if w is not None:
                out |= w[1]
                continue
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(e.decl().name())
                todo.extend(e.children())
        out = frozenset(out)
        self.symcache[i] = (f, out)
        return out

    def relevant(self, fs):
        fs = list(fs)
        if not fs:
            return fs
        rest = fs[:-1] + self.axioms
        cur = set(self.syms(fs[-1]))
        out = [fs[-1]]
        pend = [(f, self.syms(f)) for f in rest]
        change = True
        while change:
            change = False
            nxt = []
            for f, y in pend:
                if not y or not y.isdisjoint(cur):
                    out.append(f)
                    if not y <= cur:
                        cur |= y
                        change = True
                else:
                    nxt.append((f, y))
            pend = nxt
        return out

    verbose = False
    name_off = None       # names for joined offsets into the input buffer
    arr_const = {}        # known bytes of the input buffer
    loop_rule = None      # loop_rule(fn, header, state, registers): the contract of a loop, or None
    cut = None            # loop contract hook, called at loop heads: cut(fn, header, iteration, state, registers)
    bitblast = False      # retry undecided queries by eager reduction to SAT

    def feasible(self, st, c=None):
        if isinstance(c, int):
            if not c:
                return False
            c = None
        fs = st.pc + ([c] if c is not None else [])
        r, _ = self._check(fs)
        return r != z3.unsat

    def valid(self, st, c):
        """is c implied (i1)?"""
        if isinstance(c, int):
            return bool(c)
        r, _ = self._check(st.pc + [z3.Not(c)])
        return r == z3.unsat

    def oblige(self, st, c, name, kind='check'):
        """prove c on this path; record; continue under c. Returns True when proved."""
        if isinstance(c, int):
            if c:
                self.obs.append(Ob(name, kind, 'discharged'))
                return True
            nc = z3.BoolVal(True)
        else:
            nc = z3.Not(c)
        t = time.time()
        r, m = self._check(st.pc + [nc], need_model=True)
        dt = time.time() - t
        if r == z3.unsat:
            self.obs.append(Ob(name, kind, 'discharged', dt=dt))
            return True
        if r == z3.sat:
            self.obs.append(Ob(name, kind, 'failed', list(st.pc), c, m, dt, self.exact))
        else:
            self.obs.append(Ob(name, kind, 'unknown', list(st.pc), c, None, dt, self.exact))
        st.assume(c)
        return False

    # ------------------------------------------------------------ values
    def const(self, st, v, ty):
        k = v[0]
        if k == 'int':
            if ty[0] == 'i':
                return v[1] & mask(ty[1])
            return v[1]
        if k == 'null':
            return 0
        if k == 'undef':
            if ty is not None and ty[0] in ('struct', 'named', 'arr'):
                return self.agg_fill(ty, POISON)
            return POISON
        if k == 'zero':
            return self.agg_fill(ty, 0)
        if k == 'glob':
            return self.global_ptr(st, v[1])
        if k == 'agg':
            return tuple(self.const(st, x, t) for t, x in v[1])
        if k == 'cstr':
            return tuple(v[1])
        if k == 'ce_gep':
            bt, ops = v[1], v[2]
            base = self.const(st, ops[0][1], ops[0][0])
            return self.gep(st, base, bt, [(t, self.const(st, x, t)) for t, x in ops[1:]])
        if k == 'ce_cast':
            return self.cast(st, v[1], v[2], self.const(st, v[3], v[2]), v[4])
        if k == 'ce_bin':
            return self.binop(st, v[1], v[2], self.const(st, v[3], v[2]), self.const(st, v[4], v[2]), ())
        raise ToolLimit('constant %r' % (v[0],))

    def agg_fill(self, ty, x):
        t = self.mod.resolve(ty) if ty[0] == 'named' else ty
        if t[0] == 'struct':
            return tuple(self.agg_fill(e, x) for e in t[1])
        if t[0] == 'arr':
            return tuple(self.agg_fill(t[2], x) for _ in range(t[1]))
        return x

    def global_ptr(self, st, name):
        if name in self.mod.funcs:
            return FnPtr(name)
        oid = self.gobj.get(name)
        if oid is None:
            self.oid += 1
            oid = self.oid
            self.gobj[name] = oid
            if name not in self.mod.globals:
                raise ToolLimit('global ' + name)
            ty, init, const = self.mod.global_init(name)
            o = Obj(self.mod.sizeof(ty) if ty else 8, name='@' + name)
            if not const and init is not None:
                self.mutable.add(name)
            if init is not None and ty is not None:
                if not const:
                    o.init = 'poison'
                    tmp = State()
                    tmp.mem[oid] = o
                    self.store(tmp, Ptr(oid), ty, self.const(st, init, ty))
                    o = tmp.mem[oid]
                else:
                    tmp = State()
                    tmp.mem[oid] = o
                    self.store(tmp, Ptr(oid), ty, self.const(st, init, ty))
                    o = tmp.mem[oid]
            self.gstate[oid] = o
        if oid not in st.mem:
            st.mem[oid] = self.gstate[oid]
        return Ptr(oid)

    def ev(self, st, regs, v, ty):
        if v[0] == 'loc':
            try:
                return regs[v[1]]
            except KeyError:
                raise ToolLimit('value %%%s not available in %s' % (v[1], self.fnstack[-1] if self.fnstack else '?'))
        return self.const(st, v, ty)

    # ------------------------------------------------------------ pointers
    def alts(self, p):
        """pointer value -> list of (cond i1, pointer)"""
        if isinstance(p, PIte):
            r = []
            for c, q in self.alts(p.a):
                r.append((b_and(p.c, c), q))
            n = b_not(p.c)
            for c, q in self.alts(p.b):
                r.append((b_and(n, c), q))
            return r
        return [(1, p)]

    def live_alts(self, st, p, what='memory access'):
        """alternatives that are feasible; obligation that no null / wild alternative is"""
        if isinstance(p, Ptr):
            return [(1, p)]
        out = []
        for c, q in self.alts(p):
            if isinstance(q, Ptr):
                if self.feasible(st, c):
                    out.append((c, q))
            else:
                if isinstance(q, Poison):
                    if self.feasible(st, c):
                        raise ToolLimit('use of an indeterminate pointer')
                    continue
                if isinstance(q, int) and q == 0:
                    self.oblige(st, b_not(c), 'no null dereference in %s (%s)' % (self.where(), what), 'memory')
                    continue
                if self.feasible(st, c):
                    raise ToolLimit('%s through %r in %s' % (what, q, self.where()))
        if not out:
            raise Infeasible()
        if len(out) == 1:
            out = [(1, out[0][1])]
        return out

    def where(self):
        return self.fnstack[-1] if self.fnstack else '?'

    def gep(self, st, p, bt, idx):
        """idx: [(ty, value)]"""
        if isinstance(p, PIte):
            return ite(p.c, self.gep(st, p.a, bt, idx), self.gep(st, p.b, bt, idx))
        # first index scaled by sizeof(bt)
        esz = self.mod.sizeof(bt)
        t0, v0 = idx[0]
        if t0[1] < 64 and not isc(v0):
            v0 = sext(v0, t0[1], 64)
        elif isc(v0) and t0[1] < 64:
            v0 = sext(v0, t0[1], 64)
        rest = 0
        t = bt
        restsym = None
        for ty, v in idx[1:]:
            rt = self.mod.resolve(t)
            if rt[0] == 'struct':
                o, t = self.mod.field_off(rt, v)
                rest += o
            elif rt[0] == 'arr':
                t = rt[2]
                s = self.mod.sizeof(t)
                if isc(v):
                    vv = v if v < (1 << (ty[1] - 1)) else v - (1 << ty[1])
                    rest += vv * s
                else:
                    x = mul(sext(v, ty[1], 64) if ty[1] < 64 else v, s)
                    restsym = x if restsym is None else add(restsym, x)
            else:
                raise ToolLimit('gep into %r' % (rt,))
        if isinstance(v0, PDiff):
            v0 = mul(v0.n, v0.stride)
        if isinstance(p, Poison):
            return POISON
        if isinstance(p, Ptr):
            if p.idx is not None:
                stride = self.stride_of(st, p)
                if restsym is None:
                    if isc(v0):
                        sv = v0 if v0 < (1 << 63) else v0 - (1 << 64)
                        tot = sv * esz + rest + (p.inner if isc(p.inner) else 0)
                        if not isc(p.inner):
                            raise ToolLimit('symbolic inner offset')
                        q, r = divmod(tot, stride)
                        return Ptr(p.obj, p.off, p.path, add(p.idx, q & mask(64)), r)
                    if esz % stride == 0 and rest == 0:
                        return Ptr(p.obj, p.off, p.path, add(p.idx, mul(v0, esz // stride)), p.inner)
                    if esz % stride == 0:
                        q, r = divmod(rest + p.inner, stride)
                        return Ptr(p.obj, p.off, p.path, add(p.idx, add(mul(v0, esz // stride), q & mask(64))), r)
                    if esz == 1:
                        q = self.exact_div(v0, stride)
                        if q is not None:
                            return Ptr(p.obj, p.off, p.path, add(p.idx, q), p.inner)
                raise ToolLimit('pointer arithmetic on elements in ' + self.where())
            d = mul(v0, esz)
            d = add(d, rest & mask(64))
            if restsym is not None:
                d = add(d, restsym)
            if isc(d) and d == 0:
                return p
            if p.path:
                raise ToolLimit('pointer arithmetic inside of a message')
            return Ptr(p.obj, add(p.off, d), p.path, None, 0)
        if isinstance(p, int) and p == 0:
            if isc(v0) and v0 == 0 and rest == 0 and restsym is None:
                return 0
            d = add(mul(v0, esz), rest & mask(64))
            return d if isc(d) else POISON
        if isinstance(p, FnPtr):
            raise ToolLimit('gep on function')
        # raw address
        d = add(mul(v0, esz), rest & mask(64))
        return add(p, d)

    def exact_div(self, v, s):
        if isc(v):
            sv = v if v < (1 << 63) else v - (1 << 64)
            if sv % s == 0:
                return (sv // s) & mask(64)
            return None
        # k*s patterns
        q = simp(z3.UDiv(v, bv(s, 64)))
        if is1(simpb(bv(q, 64) * s == v)):
            return q
        if z3.is_app_of(v, z3.Z3_OP_BMUL) and v.num_args() == 2 and z3.is_bv_value(v.arg(0)) and v.arg(0).as_long() % s == 0:
            return mul(v.arg(1), v.arg(0).as_long() // s)
        sh = s.bit_length() - 1
        if (1 << sh) == s:
            lo = simp(z3.Extract(sh - 1, 0, v))
            if isc(lo) and lo == 0:
                # value is x << sh : recover x when it is Concat(Extract(63-sh..0,x), 0)
                if z3.is_app_of(v, z3.Z3_OP_CONCAT):
                    ch = v.children()
                    hi = ch[0] if len(ch) == 2 else None
                    if hi is not None and z3.is_app_of(hi, z3.Z3_OP_EXTRACT) and hi.arg(0).size() == 64 and hi.params()[1] == 0:
                        return hi.arg(0)
                    if hi is not None:
                        return simp(z3.ZeroExt(sh, hi))
        return None

    def stride_of(self, st, p):
        s = self.cellv(st, p)
        for step in p.path:
            s = self.step(s, step)
        if not isinstance(s, Seq):
            raise ToolLimit('element pointer into %r' % (s,))
        return s.elt.stride

    # ------------------------------------------------------------ abstract values in memory
    def cellv(self, st, p):
        o = st.mem.get(p.obj)
        if o is None:
            raise ToolLimit('dangling object')
        if not isc(p.off):
            raise ToolLimit('symbolic offset to an abstract value')
        c = o.cells.get(p.off)
        if c is None:
            if o.name.startswith('end of '):
                self.oblige(st, 0, 'what is beyond the %s is not read in %s' % (o.name, self.where()), 'memory')
                raise Infeasible()
            raise ToolLimit('no value at %s+%s in %s' % (o.name, p.off, self.where()))
        return c[1]

    def step(self, v, s):
        if isinstance(v, MsgVal):
            return V.SCHEMA.sub(v, s)
        if isinstance(v, Seq):
            return v.at(s)
        raise ToolLimit('path into %r' % (v,))

    def getv(self, st, p):
        """abstract value (message, sequence, int) a Ptr designates"""
        if isinstance(p, PIte):
            return ite(p.c, self.getv(st, p.a), self.getv(st, p.b))
        if not isinstance(p, Ptr):
            if isinstance(p, int) and p == 0:
                self.oblige(st, 0, 'the object read is there (no null) in ' + self.where(), 'memory')
                raise Infeasible()
            raise ToolLimit('abstract value behind %r in %s' % (p, self.where()))
        v = self.cellv(st, p)
        for s in p.full():
            v = self.step(v, s)
        return v

    def setv(self, st, p, nv, size=None):
        if isinstance(p, PIte):
            for c, q in self.live_alts(st, p):
                old = self.getv(st, q)
                self.setv(st, q, ite(c, nv, old))
            return
        o = st.mem.get(p.obj)
        if o is None:
            raise ToolLimit('dangling object')
        path = p.full()
        cells = dict(o.cells)
        if path:
            c = cells.get(p.off)
            if c is None:
                raise ToolLimit('no value to update')
            v = self.upd(c[1], path, nv)
            sz = c[0]
        else:
            v = nv
            c = cells.get(p.off)
            sz = size if size is not None else (c[0] if c else 1)
            if c is None or c[0] != sz:
                self.clear_range(cells, p.off, sz)
        cells[p.off] = (sz, v)
        st.mem[p.obj] = o.with_cells(cells)

    def setv_raw(self, st, p, size, v):
        """store an abstract value as one cell of the given size"""
        if isinstance(p, PIte):
            for c, q in self.live_alts(st, p):
                old = st.mem[q.obj].cells[q.off][1]
                self.setv_raw(st, q, size, ite(c, v, old))
            return
        if not isinstance(p, Ptr):
            raise ToolLimit('abstract store through %r' % (p,))
        if p.idx is not None or p.path:
            self.setv(st, p, v)
            return
        o = st.mem[p.obj]
        cells = dict(o.cells)
        c = cells.get(p.off)
        if c is None or c[0] != size:
            self.clear_range(cells, p.off, size)
        cells[p.off] = (size, v)
        st.mem[p.obj] = o.with_cells(cells)

    def upd(self, v, path, nv):
        if not path:
            return nv
        s = path[0]
        if isinstance(v, MsgVal):
            return V.SCHEMA.setsub(v, s, self.upd(V.SCHEMA.sub(v, s), path[1:], nv))
        if isinstance(v, Seq):
            return s_update(v, s, self.upd(v.at(s), path[1:], nv))
        raise ToolLimit('update of %r' % (v,))

    def clear_range(self, cells, off, n):
        for o2 in list(cells):
            sz = cells[o2][0]
            if o2 < off + n and off < o2 + sz:
                v = cells[o2][1]
                del cells[o2]
                if o2 < off or o2 + sz > off + n:
                    # keep the bytes outside
                    if isinstance(v, (int, z3.BitVecRef)) :
                        for i in range(sz):
                            if not (off <= o2 + i < off + n):
                                cells[o2 + i] = (1, byte_of(v, i, sz * 8))
                    elif isinstance(v, Poison):
                        for i in range(sz):
                            if not (off <= o2 + i < off + n):
                                cells[o2 + i] = (1, POISON)
                    else:
                        raise ToolLimit('partial overwrite of %r' % (v,))

    # ------------------------------------------------------------ load / store
    def load(self, st, p, ty):
        t = self.mod.resolve(ty) if ty[0] == 'named' else ty
        if t[0] in ('struct', 'arr'):
            r = []
            if t[0] == 'struct':
                for i in range(len(t[1])):
                    o, e = self.mod.field_off(t, i)
                    r.append(self.load(st, self.padd(st, p, o), e))
            else:
                s = self.mod.sizeof(t[2])
                for i in range(t[1]):
                    r.append(self.load(st, self.padd(st, p, i * s), t[2]))
            return tuple(r)
        w = 64 if t[0] == 'ptr' else t[1]
        n = self.mod.sizeof(t)
        al = self.live_alts(st, p, 'load')
        v = None
        for c, q in reversed(al):
            x = self.load1(st, q, t, n, w, c)
            v = x if v is None else ite(c, x, v, w)
        return v

    def padd(self, st, p, n):
        if n == 0:
            return p
        return self.gep(st, p, ('i', 8), [(('i', 64), n & mask(64))])

    def load1(self, st, p, t, n, w, cond=1):
        o = st.mem.get(p.obj)
        if o is None:
            raise ToolLimit('load from a dead object in ' + self.where())
        if o.kind == 'arr':
            return self.load_arr(st, o, p, n, cond)
        if p.idx is not None:
            s = self.cellv(st, p)
            for x in p.path:
                s = self.step(s, x)
            self.bounds(st, s, p.idx, cond)
            e = s.elt
            if e.kind == 'msg':
                if t[0] == 'ptr' and p.inner == 0:
                    return p.sub()  if False else Ptr(p.obj, p.off, p.path + (p.idx,))
                raise ToolLimit('raw load from a message')
            if p.inner == 0 and n == e.stride:
                return s.at(p.idx)
            if e.kind == 'i' and e.stride == 1 and n > 1 and p.inner == 0:
                self.bounds(st, s, add(p.idx, n - 1), cond)
                return concat_le([s.at(add(p.idx, i)) for i in range(n)])
            raise ToolLimit('load at offset %s of an element' % (p.inner,))
        if p.path:
            raise ToolLimit('raw load inside of a message')
        off = p.off
        if isc(off):
            return self.load_cell(st, o, off, n, w, t)
        # symbolic offset into an ordinary object
        cands, o = self.sym_cells(st, p.obj, off, n, cond)
        if not cands:
            raise ToolLimit('symbolic load')
        self.oblige(st, b_imp(cond, b_or(*[eq(off, k) for k in cands])), 'array index in bounds in ' + self.where(), 'memory')
        v = None
        for k in reversed(cands):
            x = o.cells[k][1]
            v = x if v is None else ite(eq(off, k), x, v, w)
        return v

    def sym_cells(self, st, obj, off, n, cond):
        """the cells of n bytes that a symbolic offset may denote; memory of a known size is divided into such cells first"""
        o = st.mem[obj]
        if isc(o.size) and n in (1, 2, 4, 8) and o.size // n <= 64:
            ks = [k for k in range(0, o.size - n + 1, n) if self.feasible(st, b_and(cond, eq(off, k)))]
            for k in ks:
                o = st.mem[obj]
                c = o.cells.get(k)
                if c is not None and c[0] == n:
                    continue
                try:
                    v = self.load_cell(st, o, k, n, 8 * n, ('i', 8 * n))
                except ToolLimit:
                    continue
                if isc(v) or isinstance(v, (z3.BitVecRef, Poison)):
                    self.setv_raw(st, Ptr(obj, k), n, v)
            o = st.mem[obj]
            cands = [k for k in ks if k in o.cells and o.cells[k][0] == n]
            if n > 1 and self.feasible(st, b_and(cond, b_not(eq((off & (n - 1)), 0)))):
                raise ToolLimit('symbolic offset without alignment')
            return cands, o
        cands = sorted(k for k, c in o.cells.items() if c[0] == n)
        return [k for k in cands if self.feasible(st, b_and(cond, eq(off, k)))], o

    def bounds(self, st, s, i, cond=1):
        c = ult(i, s.len)
        if isc(c) and c:
            return
        self.oblige(st, b_imp(cond, c), 'element index in bounds in ' + self.where(), 'memory')

    def load_cell(self, st, o, off, n, w, t):
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            v = c[1]
            if isinstance(v, (Seq, MsgVal)):
                raise ToolLimit('raw load of an abstract value in ' + self.where())
            if t[0] == 'i' and w < n * 8 and not isinstance(v, Poison):
                return trunc(v, n * 8, w)
            return v
        if isc(o.size) and off + n > o.size or off < 0:
            self.oblige(st, 0, 'access within object %s in %s' % (o.name, self.where()), 'memory')
            raise Infeasible()
        bs = []
        for i in range(n):
            b = None
            c = o.cells.get(off + i)
            if c is not None and c[0] == 1:
                b = c[1]
            else:
                for k, (sz, v) in o.cells.items():
                    if k <= off + i < k + sz:
                        if isinstance(v, (int, z3.BitVecRef, z3.BoolRef)):
                            b = byte_of(v, off + i - k, sz * 8)
                        elif isinstance(v, Poison):
                            b = POISON
                        else:
                            raise ToolLimit('partial load of %r in %s' % (v, self.where()))
                        break
            if b is None:
                if o.init == 'zero':
                    b = 0
                else:
                    b = POISON
            bs.append(b)
        if all(isinstance(b, Poison) for b in bs):
            return POISON
        # padding and other bytes that were never written hold any value
        bs = [self.fresh('uninitialised', 8) if isinstance(b, Poison) else b for b in bs]
        v = concat_le(bs)
        if t[0] == 'i' and w < n * 8:
            return trunc(v, n * 8, w)
        return v

    def load_arr(self, st, o, p, n, cond):
        off = p.off
        if n == 1 and isc(off) and off in self.arr_const:
            return self.arr_const[off]
        hook = getattr(self, 'on_read', None)
        if hook is not None:
            hook(self, st, o, off, n, cond)
        bs = [arr_byte(o.arr, add(off, i)) for i in range(n)]
        return simp(z3.Concat(*reversed(bs))) if n > 1 else simp(bs[0])

    def store(self, st, p, ty, v):
        t = self.mod.resolve(ty) if ty[0] == 'named' else ty
        if t[0] == 'struct':
            for i in range(len(t[1])):
                o, e = self.mod.field_off(t, i)
                self.store(st, self.padd(st, p, o), e, v[i])
            return
        if t[0] == 'arr':
            s = self.mod.sizeof(t[2])
            for i in range(t[1]):
                self.store(st, self.padd(st, p, i * s), t[2], v[i])
            return
        n = self.mod.sizeof(t)
        if t[0] == 'i' and t[1] < n * 8:
            v = zext(v, t[1], n * 8) if not isinstance(v, Poison) else v
        al = self.live_alts(st, p, 'store')
        for c, q in al:
            self.store1(st, q, n, v, c)

    def store1(self, st, p, n, v, cond=1):
        o = st.mem.get(p.obj)
        if o is None:
            raise ToolLimit('store to a dead object')
        if o.kind == 'arr':
            raise ToolLimit('store to the input buffer')
        if p.idx is not None:
            s = self.cellv(st, p)
            for x in p.path:
                s = self.step(s, x)
            e = s.elt
            if e.kind == 'i' and e.stride == 1 and n > 1:
                self.bounds(st, s, p.idx, cond)
                self.bounds(st, s, add(p.idx, n - 1), cond)
                for i in range(n):
                    b = byte_of(v, i, n * 8)
                    j = add(p.idx, i)
                    s = s_update(s, j, b if isc(cond) else ite(cond, b, s.at(j), 8))
                self.setv(st, Ptr(p.obj, p.off, p.path), s)
                return
            if p.inner != 0 or n != e.stride:
                raise ToolLimit('partial store to an element')
            self.bounds(st, s, p.idx, cond)
            nv = v if isc(cond) else ite(cond, v, s.at(p.idx), e.w)
            self.setv(st, Ptr(p.obj, p.off, p.path), s_update(s, p.idx, nv))
            return
        if p.path:
            raise ToolLimit('raw store inside of a message')
        off = p.off
        cells = dict(o.cells)
        if isc(off):
            if isc(o.size) and (off < 0 or off + n > o.size):
                self.oblige(st, 0, 'access within object %s in %s' % (o.name, self.where()), 'memory')
                raise Infeasible()
            c = cells.get(off)
            if not isc(cond):
                old = self.load_cell(st, o, off, n, n * 8, ('i', n * 8))
                v = ite(cond, v, old, n * 8)
            if c is None or c[0] != n:
                self.clear_range(cells, off, n)
            cells[off] = (n, v)
        else:
            cands, o = self.sym_cells(st, p.obj, off, n, cond)
            cells = dict(o.cells)
            if not cands:
                raise ToolLimit('symbolic store')
            self.oblige(st, b_imp(cond, b_or(*[eq(off, k) for k in cands])), 'array index in bounds in ' + self.where(), 'memory')
            for k in cands:
                cells[k] = (n, ite(b_and(cond, eq(off, k)), v, cells[k][1], n * 8))
        st.mem[p.obj] = o.with_cells(cells)

    def memcpy(self, st, d, s, n):
        if not isc(n):
            raise ToolLimit('memcpy of symbolic size in ' + self.where())
        if n == 0:
            return
        dl = self.live_alts(st, d, 'memcpy'); sl = self.live_alts(st, s, 'memcpy')
        if len(dl) != 1 or len(sl) != 1:
            raise ToolLimit('memcpy through alternatives')
        d, s = dl[0][1], sl[0][1]
        so = st.mem[s.obj]
        if so.kind == 'arr' or s.idx is not None or d.idx is not None or not isc(s.off) or not isc(d.off):
            if n in (1, 2, 4, 8):
                v = self.load(st, s, ('i', 8 * n))
                self.store(st, d, ('i', 8 * n), v)
                return
            raise ToolLimit('memcpy of %d bytes' % n)
        do = st.mem[d.obj]
        new = {}
        for k, (sz, v) in so.cells.items():
            if k >= s.off and k + sz <= s.off + n:
                new[k - s.off + d.off] = (sz, v)
            elif k < s.off + n and s.off < k + sz:
                for i in range(sz):
                    if s.off <= k + i < s.off + n:
                        new[k + i - s.off + d.off] = (1, byte_of(v, i, sz * 8) if not isinstance(v, Poison) else v)
        cells = dict(do.cells)
        self.clear_range(cells, d.off, n)
        if so.init == 'zero':
            cov = set()
            for k, (sz, v) in new.items():
                cov.update(range(k, k + sz))
            for i in range(d.off, d.off + n):
                if i not in cov:
                    new[i] = (1, 0)
        cells.update(new)
        st.mem[d.obj] = do.with_cells(cells)

    def memset(self, st, d, b, n):
        if not isc(n):
            raise ToolLimit('memset of symbolic size')
        dl = self.live_alts(st, d, 'memset')
        d = dl[0][1]
        if len(dl) != 1 or d.idx is not None or not isc(d.off) or not isc(b):
            raise ToolLimit('memset')
        o = st.mem[d.obj]
        cells = dict(o.cells)
        self.clear_range(cells, d.off, n)
        i = 0
        while i < n:
            w = 8
            while w > n - i or (d.off + i) % w:
                w //= 2
            cells[d.off + i] = (w, int.from_bytes(bytes([b]) * w, 'little'))
            i += w
        st.mem[d.obj] = o.with_cells(cells)

    # ------------------------------------------------------------ scalar operations
    def toint(self, v, w):
        if isinstance(v, PDiff):
            return mul(v.n, v.stride)
        if isinstance(v, (PInt,)):
            raise ToolLimit('integer value of a pointer in ' + self.where())
        return v

    def binop(self, st, op, ty, a, b, fl):
        w = ty[1]
        if isinstance(a, Poison) or isinstance(b, Poison):
            return POISON
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                return self.pdiff(st, a.p, b.p)
            if op == 'add':
                p, n = (a, b) if isinstance(a, PInt) else (b, a)
                return PInt(self.padd_sym(st, p.p, n))
            if op == 'sub' and isinstance(a, PInt) and isc(b):
                return PInt(self.padd_sym(st, a.p, (-b) & mask(64)))
            if op == 'and' and isinstance(a, PInt) and isinstance(a.p, FnPtr) and isc(b) and b == 1:
                return 0        # functions are at even addresses; the bit marks virtual members
            raise ToolLimit('pointer arithmetic %s in %s' % (op, self.where()))
        if isinstance(a, PDiff):
            if op in ('sdiv', 'udiv') and isc(b) and b == a.stride:
                return a.n
            if op in ('ashr', 'lshr') and isc(b) and (1 << b) == a.stride:
                return a.n
            if op == 'mul' and isc(b) and (a.stride * b) & mask(64) == 1:
                return a.n
        a = self.toint(a, w); b = self.toint(b, w)
        if isptr(a) or isptr(b):
            raise ToolLimit('arithmetic on pointers')
        if w == 1:
            A, B = a, b
            if op == 'and':
                return b_and(A, B) if not (isinstance(A, z3.BoolRef) and isinstance(B, z3.BoolRef)) else simpb(z3.And(A, B))
            if op == 'or':
                return b_or(A, B) if not (isinstance(A, z3.BoolRef) and isinstance(B, z3.BoolRef)) else simpb(z3.Or(A, B))
            if op in ('xor', 'add', 'sub'):
                if isc(A) and isc(B):
                    return A ^ B
                return simpb(z3.Xor(tob(A), tob(B)))
            raise ToolLimit('i1 ' + op)
        m = mask(w)
        if isc(a) and isc(b):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'add':
                return (a + b) & m
            if op == 'sub':
                return (a - b) & m
            if op == 'mul':
                return (a * b) & m
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op in ('shl', 'lshr', 'ashr'):
                if b >= w:
                    self.oblige(st, 0, 'shift amount below the width in ' + self.where(), 'arith')
                    raise Infeasible()
                return (a << b) & m if op == 'shl' else (a >> b if op == 'lshr' else (sa >> b) & m)
            if b == 0:
                self.oblige(st, 0, 'no division by zero in ' + self.where(), 'arith')
                raise Infeasible()
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            return (sa - q * sb) & m
        if op == 'and':
            if isc(a) and a == 0 or isc(b) and b == 0:
                return 0
        x, y = bv(a, w), bv(b, w)
        if op == 'add':
            return simp(x + y)
        if op == 'sub':
            return simp(x - y)
        if op == 'mul':
            return simp(x * y)
        if op == 'and':
            return simp(x & y)
        if op == 'or':
            return simp(x | y)
        if op == 'xor':
            return simp(x ^ y)
        if op in ('shl', 'lshr', 'ashr'):
            if not (isc(b) and b < w):
                self.oblige(st, simpb(z3.ULT(y, bv(w, w))), 'shift amount below the width in ' + self.where(), 'arith')
            return simp(x << y if op == 'shl' else (z3.LShR(x, y) if op == 'lshr' else x >> y))
        if not isc(b):
            self.oblige(st, simpb(y != 0), 'no division by zero in ' + self.where(), 'arith')
        if op == 'udiv':
            return simp(z3.UDiv(x, y))
        if op == 'urem':
            return simp(z3.URem(x, y))
        if op == 'sdiv':
            return simp(x / y)
        if op == 'srem':
            return simp(z3.SRem(x, y))
        raise ToolLimit(op)

    def padd_sym(self, st, p, n):
        n = n if not isinstance(n, PDiff) else n
        if isinstance(n, PDiff):
            return Ptr(p.obj, p.off, p.path, add(p.idx, n.n), p.inner)
        return self.gep(st, p, ('i', 8), [(('i', 64), n)])

    def pdiff(self, st, a, b):
        if isinstance(a, PIte):
            return self.dite(a.c, self.pdiff(st, a.a, b), self.pdiff(st, a.b, b))
        if isinstance(b, PIte):
            return self.dite(b.c, self.pdiff(st, a, b.a), self.pdiff(st, a, b.b))
        if isinstance(a, int) and isinstance(b, int):
            return (a - b) & mask(64)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj and len(a.path) == len(b.path):
            if a.idx is not None and b.idx is not None:
                if isc(a.inner) and isc(b.inner) and a.inner == b.inner:
                    s = self.stride_of(st, a)
                    if s == 1:
                        return sub(a.idx, b.idx)
                    return PDiff(sub(a.idx, b.idx), s)
            elif a.idx is None and b.idx is None:
                return sub(a.off, b.off)
        raise ToolLimit('difference of unrelated pointers in ' + self.where())

    def dite(self, c, a, b):
        if isinstance(a, PDiff) and isinstance(b, PDiff) and a.stride == b.stride:
            return PDiff(ite(c, a.n, b.n, 64), a.stride)
        return ite(c, self.toint(a, 64), self.toint(b, 64), 64)

    def icmp(self, st, pr, ty, a, b):
        if isinstance(a, Poison) or isinstance(b, Poison):
            return POISON
        if isinstance(a, PInt) or isinstance(b, PInt):
            a = a.p if isinstance(a, PInt) else a
            b = b.p if isinstance(b, PInt) else b
            ty = ('ptr',)
        if isinstance(a, PDiff) or isinstance(b, PDiff):
            if isinstance(a, PDiff) and isinstance(b, PDiff) and a.stride == b.stride:
                a, b = a.n, b.n
            elif isinstance(a, PDiff) and isc(b):
                sb = b - (1 << 64) if b >> 63 else b
                if sb % a.stride == 0:
                    a, b = a.n, (sb // a.stride) & mask(64)
                else:
                    a = self.toint(a, 64)
            else:
                a = self.toint(a, 64); b = self.toint(b, 64)
        if ty[0] == 'ptr' or isptr(a) or isptr(b):
            if pr in ('eq', 'ne'):
                r = ptr_eq(a, b, self.base_of)
                return r if pr == 'eq' else b_not(r)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
                if a.idx is not None and b.idx is not None:
                    x, y = a.idx, b.idx
                elif a.idx is None and b.idx is None:
                    x, y = a.off, b.off
                else:
                    raise ToolLimit('pointer order')
                return self.icmp(st, pr.replace('u', 's', 1), ('i', 64), x, y)
            if isptr(a) or isptr(b):
                raise ToolLimit('order of unrelated pointers in ' + self.where())
            ty = ('i', 64)
        w = ty[1]
        if w == 1:
            r = simpb(tob(a) == tob(b)) if not (isc(a) and isc(b)) else (1 if a == b else 0)
            if pr == 'eq':
                return r
            if pr == 'ne':
                return b_not(r)
            raise ToolLimit('i1 compare')
        if isc(a) and isc(b):
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            r = {'eq': a == b, 'ne': a != b, 'ult': a < b, 'ule': a <= b, 'ugt': a > b, 'uge': a >= b,
                 'slt': sa < sb, 'sle': sa <= sb, 'sgt': sa > sb, 'sge': sa >= sb}[pr]
            return 1 if r else 0
        x, y = bv(a, w), bv(b, w)
        if pr == 'eq':
            return eq(x, y, w)
        if pr == 'ne':
            return b_not(eq(x, y, w))
        f = {'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
             'slt': lambda p, q: p < q, 'sle': lambda p, q: p <= q, 'sgt': lambda p, q: p > q, 'sge': lambda p, q: p >= q}[pr]
        return simpb(f(x, y))

    def base_of(self, p):
        raise ToolLimit('address of an object compared with a raw address in ' + self.where())

    def cast(self, st, op, t, v, t2):
        if isinstance(v, Poison):
            return POISON
        if op in ('zext', 'sext', 'trunc') and isinstance(v, (PInt, PDiff)):
            v = self.toint(v, 64)
        if op == 'zext':
            return zext(v, t[1], t2[1])
        if op == 'sext':
            return sext(v, t[1], t2[1])
        if op == 'trunc':
            return trunc(v, t[1], t2[1])
        if op == 'ptrtoint':
            if isinstance(v, (Ptr, PIte, FnPtr)):
                return PInt(v)
            return v if t2[1] == 64 else trunc(v, 64, t2[1])
        if op == 'inttoptr':
            if isinstance(v, PInt):
                return v.p
            return v
        if op in ('bitcast', 'addrspacecast'):
            return v
        raise ToolLimit('cast ' + op)

    # ------------------------------------------------------------ merging
    def merge_states(self, items, types=None):
        """items: [(st, regs)] -> merged list (one element when possible); types: register types"""
        if len(items) <= 1:
            return items
        out = [items[0]]
        for it in items[1:]:
            try:
                out[-1] = self.merge2(out[-1], it, types or {})
            except ToolLimit:
                out.append(it)
        return out

    def merge2(self, A, B, types):
        a, ra = A
        b, rb = B
        i = 0
        n = min(len(a.pc), len(b.pc))
        while i < n and (a.pc[i] is b.pc[i] or a.pc[i].eq(b.pc[i])):
            i += 1
        sa, sb = a.pc[i:], b.pc[i:]
        ib = {f.get_id() for f in sb}
        common = [f for f in sa if f.get_id() in ib]
        if common:
            ic = {f.get_id() for f in common}
            sa = [f for f in sa if f.get_id() not in ic]
            sb = [f for f in sb if f.get_id() not in ic]
        ca = z3.And(*sa) if len(sa) > 1 else (sa[0] if sa else None)
        cb = z3.And(*sb) if len(sb) > 1 else (sb[0] if sb else None)
        if ca is None or cb is None:
            # identical or weaker prefix: states must not differ
            raise ToolLimit('merge without distinguishing condition')
        c = sa[0] if (len(sa) >= 1 and len(sb) >= 1 and is1(simpb(sa[0] == z3.Not(sb[0])))) else ca
        st = State()
        st.pc = a.pc[:i] + common
        if not (len(sa) == 1 and len(sb) == 1 and is1(simpb(sa[0] == z3.Not(sb[0])))):
            if c is not ca:
                # c decides the side; the remaining facts hold conditionally
                for f in sa[1:]:
                    st.pc.append(z3.Implies(c, f))
                nc = z3.Not(c)
                for f in sb[1:]:
                    st.pc.append(z3.Implies(nc, f))
            else:
                st.pc.append(z3.Or(ca, cb))
        # facts
        fa = [f for f in a.facts]
        st.facts = [f for f in fa if any(f is g for g in b.facts)]
        extra = [(f, c) for f in fa if not any(f is g for g in b.facts)] + [(f, z3.Not(c)) for f in b.facts if not any(f is g for g in fa)]
        for f, g in extra:
            st.facts.append(f.guarded(g))
        for o in set(a.mem) | set(b.mem):
            x, y = a.mem.get(o), b.mem.get(o)
            if x is None or y is None:
                st.mem[o] = x if y is None else y
            elif x is y:
                st.mem[o] = x
            else:
                st.mem[o] = self.merge_obj(c, x, y)
        for g in set(a.ghost) | set(b.ghost):
            x, y = a.ghost.get(g), b.ghost.get(g)
            if x is y:
                st.ghost[g] = x
            elif x is None or y is None:
                raise ToolLimit('ghost merge')
            else:
                st.ghost[g] = ite(c, x, y, 64)
        regs = {}
        for r in ra:
            if r in rb:
                x, y = ra[r], rb[r]
                regs[r] = x if x is y else self.tite(c, x, y, types.get(r))
        if self.name_off is not None:
            self.name_offsets(st, regs, a, ra)
        return st, regs

    def name_offsets(self, st, regs, a, ra):
        """give joined offsets into an input buffer the names the specification has for them"""
        memo = {}

        def one(v):
            if isinstance(v, PIte):
                x, y = one(v.a), one(v.b)
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.obj == y.obj and x.obj in st.mem and st.mem[x.obj].kind == 'arr' \
                        and x.path == y.path and x.idx is None and y.idx is None and x.inner == y.inner:
                    return Ptr(x.obj, ite(v.c, x.off, y.off, 64), x.path, None, x.inner)
            return v

        def name(v):
            v = one(v)
            if isinstance(v, Ptr) and isinstance(v.off, z3.ExprRef) and v.obj in st.mem and st.mem[v.obj].kind == 'arr':
                i = v.off.get_id()
                if i not in memo:
                    memo[i] = self.name_off(self, st, v.off)
                if memo[i] is not v.off:
                    return Ptr(v.obj, memo[i], v.path, v.idx, v.inner)
            return v
        for r in list(regs):
            if regs[r] is not ra.get(r):
                regs[r] = name(regs[r])
        for o in list(st.mem):
            ob = st.mem[o]
            if ob is a.mem.get(o) or ob.kind == 'arr':
                continue
            new = None
            for k, (n, v) in ob.cells.items():
                w = name(v)
                if w is not v:
                    new = new or dict(ob.cells)
                    new[k] = (n, w)
            if new is not None:
                st.mem[o] = ob.with_cells(new)

    def tite(self, c, x, y, ty):
        """join of two register values of a known type"""
        if x is y:
            return x
        if isinstance(x, Poison) or isinstance(y, Poison):
            return POISON
        if isinstance(x, PDiff) or isinstance(y, PDiff):
            return self.dite(c, x, y)
        if isinstance(x, PInt) and isinstance(y, PInt):
            return PInt(ite(c, x.p, y.p))
        if isinstance(x, tuple) and isinstance(y, tuple):
            if ty is None:
                raise ToolLimit('join of aggregates')
            t = self.mod.resolve(ty) if ty[0] == 'named' else ty
            if t[0] == 'struct':
                return tuple(self.tite(c, p, q, e) for p, q, e in zip(x, y, t[1]))
            return tuple(self.tite(c, p, q, t[2]) for p, q in zip(x, y))
        if ty is None:
            if isc(x) and isc(y) and x != y:
                raise ToolLimit('join of literals of unknown width')
            return ite(c, x, y, 64)
        return ite(c, x, y, ty[1] if ty[0] == 'i' else 64)

    def merge_obj(self, c, x, y):
        if x.kind != y.kind or x.size is not y.size and not (isc(x.size) and isc(y.size) and x.size == y.size):
            raise ToolLimit('object merge')
        if x.name in ('list', 'deque') and set(x.cells) != set(y.cells):
            raise ToolLimit('merge of containers with different elements')
        cells = {}
        for k in set(x.cells) | set(y.cells):
            p, q = x.cells.get(k), y.cells.get(k)
            if p is q and p is not None:
                cells[k] = p
                continue
            if p is not None and q is not None and p[0] == q[0]:
                cells[k] = p if p[1] is q[1] else (p[0], self.cite(c, p[1], q[1], p[0] * 8))
                continue
            if p is None or q is None:
                z = p or q
                o = x if p is None else y
                if o.init == 'zero' and isinstance(z[1], (int, z3.BitVecRef)):
                    other = 0
                    cells[k] = (z[0], ite(c, z[1] if p else other, z[1] if q else other, z[0] * 8))
                else:
                    # absent on one side: indeterminate unless overlapping cells exist
                    src = o.cells
                    if any(k2 < k + z[0] and k < k2 + v2[0] for k2, v2 in src.items()):
                        raise ToolLimit('overlapping layout in merge')
                    cells[k] = (z[0], POISON)
                continue
            raise ToolLimit('cell layout differs in merge')
        return Obj(x.size, cells, x.kind, x.name, x.init, x.arr)

    def cite(self, c, a, b, w):
        return ite(c, a, b, w)

    # ------------------------------------------------------------ running
    def call(self, st, name, args):
        """call a function by mangled name: [(state, ret)]"""
        return self.call_fn(st, name, args, None)

    MAXDEPTH = 60

    def call_fn(self, st, name, args, ins):
        dem = self.mod.dem.get(name, name)
        h = self.contracts.find(self.mod, name, dem)
        if h is not None:
            self.used_contracts.add(dem)
            r = h(self, st, args, ins)
            if isinstance(r, list):
                return r
            return [(st, r)]
        fn = self.mod.func(name)
        if fn is None or fn.is_decl:
            raise ToolLimit('no contract for external function ' + dem)
        if self.depth > self.MAXDEPTH:
            raise ToolLimit('call depth')
        self.inlined.add(dem)
        return self.run(st, fn, args)

    def run(self, st, fn, args):
        fn.analyse()
        self.depth += 1
        self.fnstack.append(self.short(self.mod.dem.get(fn.name, fn.name)))
        try:
            regs = {}
            for (ty, n), v in zip(fn.params, args):
                regs[n] = v
            rets = []
            exits = self.region(fn, [(fn.entry, st, regs)], None, None, rets)
            assert not exits
            if len(rets) <= 1:
                return rets
            items = [(s, {'r': v}) for s, v in rets]
            m = self.merge_states(items, {'r': fn.ret})
            return [(s, simp_any(r.get('r'))) for s, r in m]
        finally:
            self.depth -= 1
            self.fnstack.pop()

    def short(self, d):
        i = d.find('(')
        return d if len(d) < 160 else d[:160] + '...'

    def region(self, fn, start, body, header, rets):
        """execute blocks of `body` (None: whole function); returns exits [(block, st, regs)];
        when header is given edges to it are collected with block==header as back edges."""
        pend = {}
        order = fn.rpo_index
        out = []

        def push(b, s, r):
            if body is not None and (b not in body or (b == header)):
                out.append((b, s, r))
            else:
                pend.setdefault(b, []).append((s, r))
        for b, s, r in start:
            pend.setdefault(b, []).append((s, r))
        first = True
        while pend:
            b = min(pend, key=lambda x: order[x])
            items = self.merge_states(pend.pop(b), self.regtypes(fn))
            for s, r in items:
                try:
                    if b in fn.loops and not (b == header and first):
                        for (b2, s2, r2) in self.loop(fn, b, s, r, rets):
                            push(b2, s2, r2)
                    else:
                        self.block(fn, b, s, r, push, rets)
                except Infeasible:
                    pass
            first = False
        return out

    def regtypes(self, fn):
        t = getattr(fn, '_regtypes', None)
        if t is None:
            t = {n: ty for ty, n in fn.params}
            for b in fn.order:
                for ins in fn.blocks[b]:
                    if ins.dst is None:
                        continue
                    if ins.op == 'extractvalue':
                        ty = ins.ty
                        for i in ins.a[1]:
                            ty = self.mod.resolve(ty) if ty[0] == 'named' else ty
                            ty = ty[1][i] if ty[0] == 'struct' else ty[2]
                        t[ins.dst] = ty
                    else:
                        t[ins.dst] = ins.ty
            fn._regtypes = t
        return t

    def loop(self, fn, header, st, regs, rets):
        from . import loop as L
        return L.run_loop(self, fn, header, st, regs, rets)

    def edge(self, fn, frm, to, st, regs, push):
        r = regs
        phis = []
        for ins in fn.blocks[to]:
            if ins.op != 'phi':
                break
            for v, b in ins.a:
                if b == frm:
                    phis.append((ins.dst, self.norm_reg(self.ev(st, regs, v, ins.ty), ins.ty)))
                    break
            else:
                raise ToolLimit('phi')
        if phis:
            r = dict(regs)
            for d, v in phis:
                r[d] = v
        push(to, st, r)

    def norm_reg(self, v, ty):
        return v

    def is_abort_block(self, fn, b):
        for ins in fn.blocks[b]:
            if ins.op == 'call' and ins.a[1][0] == 'glob' and ins.a[1][1] in ('__assert_fail', 'abort', '_ZSt9terminatev', '__clang_call_terminate', '_ZSt10unexpectedv', 'llvm.ubsantrap', 'llvm.trap'):
                return True
            if ins.op == 'unreachable':
                return True
        return False

    def block(self, fn, b, st, regs, push, rets):
        blk = fn.blocks[b]
        regs = dict(regs)
        work = [(0, st, regs)]
        while work:
            i, st, regs = work.pop()
            try:
                while True:
                    ins = blk[i]
                    i += 1
                    op = ins.op
                    if op == 'phi':
                        continue
                    if op in ('call', 'invoke'):
                        res = self.do_call(fn, st, regs, ins)
                        if op == 'invoke':
                            for s2, v in res:
                                r2 = regs if len(res) == 1 else dict(regs)
                                if ins.dst is not None:
                                    r2[ins.dst] = v
                                self.edge(fn, b, ins.a[4], s2, r2, push)
                            break
                        if len(res) == 1:
                            st, v = res[0]
                            if ins.dst is not None:
                                regs[ins.dst] = v
                            continue
                        for s2, v in res:
                            r2 = dict(regs)
                            if ins.dst is not None:
                                r2[ins.dst] = v
                            work.append((i, s2, r2))
                        break
                    if op == 'br':
                        self.do_br(fn, b, ins, st, regs, push)
                        break
                    if op == 'switch':
                        self.do_switch(fn, b, ins, st, regs, push)
                        break
                    if op == 'ret':
                        v = None if ins.a is None else self.ev(st, regs, ins.a, ins.ty)
                        rets.append((st, v))
                        break
                    if op == 'unreachable':
                        self.oblige(st, 0, 'unreachable code is not reached in ' + self.where(), 'reach')
                        break
                    self.simple(fn, st, regs, ins)
            except Infeasible:
                continue

    def do_br(self, fn, b, ins, st, regs, push):
        if len(ins.a) == 1:
            self.edge(fn, b, ins.a[0], st, regs, push)
            return
        c = self.ev(st, regs, ins.a[0], ('i', 1))
        if isinstance(c, Poison):
            raise ToolLimit('branch on an indeterminate value in ' + self.where())
        if isc(c):
            self.edge(fn, b, ins.a[1] if c else ins.a[2], st, regs, push)
            return
        c = tob(c)
        nc = z3.simplify(z3.Not(c))
        t = self.feasible(st, c)
        f = self.feasible(st, nc) if t else True
        for ok, tgt in ((t, ins.a[1]), (f, ins.a[2])):
            if not ok and self.is_abort_block(fn, tgt):
                self.obs.append(Ob('assertion in ' + self.where(), 'assert', 'discharged'))
        if t and f:
            s2 = st.copy()
            st.assume(c)
            s2.assume(nc)
            self.edge(fn, b, ins.a[1], st, dict(regs), push)
            self.edge(fn, b, ins.a[2], s2, dict(regs), push)
        elif t:
            self.edge(fn, b, ins.a[1], st, regs, push)
        elif f:
            self.edge(fn, b, ins.a[2], st, regs, push)

    def do_switch(self, fn, b, ins, st, regs, push):
        ty, v, d, cases = ins.a
        x = self.ev(st, regs, v, ty)
        if isinstance(x, Poison):
            raise ToolLimit('switch on an indeterminate value in ' + self.where())
        w = ty[1]
        if isc(x):
            for cv, tgt in cases:
                if (cv & mask(w)) == x:
                    self.edge(fn, b, tgt, st, regs, push)
                    return
            self.edge(fn, b, d, st, regs, push)
            return
        groups = {}
        for cv, tgt in cases:
            groups.setdefault(tgt, []).append(cv & mask(w))
        rest = []
        for tgt, cvs in groups.items():
            c = simpb(z3.Or(*[x == bv(cv, w) for cv in cvs])) if len(cvs) > 1 else simpb(x == bv(cvs[0], w))
            rest.append(b_not(c))
            if self.feasible(st, c):
                s2 = st.copy()
                s2.assume(c)
                r2 = dict(regs)
                self.edge(fn, b, tgt, s2, r2, push)
        c = simpb(z3.And(*[tob(r) for r in rest]))
        if self.feasible(st, c):
            st.assume(c)
            self.edge(fn, b, d, st, regs, push)

    def do_call(self, fn, st, regs, ins):
        rt, callee, args = ins.a[0], ins.a[1], ins.a[2]
        if callee[0] == 'asm':
            raise ToolLimit('inline assembly')
        if callee[0] == 'glob':
            name = callee[1]
            if name in ('llvm.ubsantrap', 'llvm.trap'):
                self.oblige(st, 0, 'code declared unreachable is not reached in ' + self.where(), 'reach')
                raise Infeasible()
            if name.startswith('llvm.'):
                av = [self.ev(st, regs, v, t) for t, v in args] if not name.startswith('llvm.dbg') else []
                return [(st, self.intrinsic(st, name, av, ins))]
            if name == '__assert_fail':
                msg = self.cstr(st, args[0][1])
                self.oblige(st, 0, 'assertion `%s` in %s' % (msg, self.where()), 'assert')
                raise Infeasible()
            if name in ('_ZSt9terminatev', 'abort', '__clang_call_terminate', '_ZSt21__glibcxx_assert_failPKciS0_S0_'):
                self.oblige(st, 0, '%s not reached in %s' % (name, self.where()), 'reach')
                raise Infeasible()
        av = []
        for t, v in args:
            x = self.ev(st, regs, v, t)
            av.append(x)
        if callee[0] != 'glob':
            f = self.ev(st, regs, callee, ll.PTR)
            al = self.alts(f)
            if len(al) == 1 and isinstance(al[0][1], FnPtr):
                return self.call_fn(st, al[0][1].name, av, ins)
            res = []
            for c, q in al:
                if isc(c) and not c or not self.feasible(st, c):
                    continue
                if not isinstance(q, FnPtr):
                    raise ToolLimit('call through %r' % (q,))
                s2 = st.copy().assume(c)
                res += self.call_fn(s2, q.name, list(av), ins)
            return res
        return self.call_fn(st, callee[1], av, ins)

    def cstr(self, st, v):
        try:
            p = self.const(st, v, ll.PTR)
            o = st.mem[p.obj]
            bs = []
            i = 0
            while True:
                c = self.load_cell(st, o, i, 1, 8, ('i', 8))
                if c == 0:
                    break
                bs.append(c)
                i += 1
            return bytes(bs).decode()
        except Exception:
            return '?'

    def intrinsic(self, st, name, a, ins):
        n = name.split('.')
        k = n[1]
        if k in ('dbg', 'lifetime', 'experimental', 'invariant', 'donothing', 'stackrestore', 'prefetch'):
            return None
        if k == 'stacksave':
            return 0
        if k == 'assume':
            return None
        if k in ('memcpy', 'memmove'):
            self.memcpy(st, a[0], a[1], a[2])
            return None
        if k == 'memset':
            self.memset(st, a[0], a[1], a[2])
            return None
        if k == 'expect':
            return a[0]
        if k == 'trap':
            self.oblige(st, 0, 'trap not reached in ' + self.where(), 'reach')
            raise Infeasible()
        w = ins.ty[1] if ins.ty and ins.ty[0] == 'i' else None
        if k == 'ctpop':
            x = a[0]
            if isc(x):
                return bin(x).count('1')
            if getattr(self, 'ctpop', None) is not None:
                return self.ctpop(bv(x, w), w)
            r = bv(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, x))
            return z3.simplify(r)
        if k in ('umin', 'umax', 'smin', 'smax'):
            c = self.icmp(st, {'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[k], ('i', w), a[0], a[1])
            return ite(c, a[0], a[1], w)
        if k in ('ctlz', 'cttz'):
            x = bv(a[0], w)
            r = bv(w, w)
            rng = range(w) if k == 'ctlz' else range(w - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, x) == 1, bv((w - 1 - i) if k == 'ctlz' else i, w), r)
            return simp(r)
        if k == 'abs':
            c = self.icmp(st, 'slt', ('i', w), a[0], 0)
            return ite(c, sub(0, a[0], w), a[0], w)
        if k == 'usub' and n[2] == 'sat':
            return ite(ult(a[0], a[1], w), 0, sub(a[0], a[1], w), w)
        if k == 'uadd' and n[2] == 'sat':
            s = add(a[0], a[1], w)
            return ite(ult(s, a[0], w), mask(w), s, w)
        if k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and n[2] == 'with':
            w = a[0].size() if not isc(a[0]) else (a[1].size() if not isc(a[1]) else int(n[-1][1:]))
            x, y = bv(a[0], w), bv(a[1], w)
            o = k[1:]
            r = {'add': x + y, 'sub': x - y, 'mul': x * y}[o]
            ex = z3.ZeroExt if k[0] == 'u' else z3.SignExt
            X, Y = ex(w, x), ex(w, y)
            R = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[o]
            return (simp(r), simpb(ex(w, r) != R))
        if k in ('fshl', 'fshr'):
            raise ToolLimit(name)
        if k == 'bswap':
            x = a[0]
            return concat_le([byte_of(x, i, w) for i in range(w // 8)][::-1])
        if k == 'is':
            return 0
        if k == 'objectsize':
            return mask(w)
        raise ToolLimit('intrinsic ' + name)

    def simple(self, fn, st, regs, ins):
        op = ins.op

        def E(v, t):
            x = self.ev(st, regs, v, t)
            return x
        if op == 'load':
            r = self.load(st, E(ins.a, ll.PTR), ins.ty)
        elif op == 'store':
            v, p = ins.a
            self.store(st, E(p, ll.PTR), ins.ty, E(v, ins.ty))
            return
        elif op == 'gep':
            bt, ops = ins.a
            r = self.gep(st, E(ops[0][1], ll.PTR), bt, [(t, E(v, t)) for t, v in ops[1:]])
        elif op == 'alloca':
            ty, n = ins.a
            cnt = 1
            if n is not None:
                cnt = self.const(st, n, ('i', 64)) if n[0] != 'loc' else E(n, ('i', 64))
            if not isc(cnt):
                raise ToolLimit('alloca of symbolic size')
            r = Ptr(self.new_obj(st, self.mod.sizeof(ty) * cnt, name='%s::%s' % (fn.name[:40], ins.dst)))
        elif op == 'bin':
            o, a, b, fl = ins.a
            r = self.binop(st, o, ins.ty, E(a, ins.ty), E(b, ins.ty), fl)
        elif op == 'icmp':
            pr, t, a, b = ins.a
            r = self.icmp(st, pr, t, E(a, t), E(b, t))
        elif op == 'cast':
            o, t, v = ins.a
            r = self.cast(st, o, t, E(v, t), ins.ty)
        elif op == 'select':
            c, a, b = ins.a
            cv = E(c, ('i', 1))
            if isinstance(cv, Poison):
                raise ToolLimit('select on an indeterminate value')
            if isc(cv):
                r = E(a if cv else b, ins.ty)
            else:
                x, y = E(a, ins.ty), E(b, ins.ty)
                if isinstance(x, (PDiff,)) or isinstance(y, PDiff):
                    r = self.dite(tob(cv), x, y)
                else:
                    r = ite(tob(cv), x, y, ins.ty[1] if ins.ty[0] == 'i' else 64)
        elif op == 'extractvalue':
            v, ix = ins.a
            r = E(v, ins.ty)
            for i in ix:
                if isinstance(r, Poison):
                    break
                r = r[i]
        elif op == 'insertvalue':
            v, t2, e, ix = ins.a
            agg = E(v, ins.ty)

            def put(a, ix, x):
                l = list(a)
                l[ix[0]] = x if len(ix) == 1 else put(l[ix[0]], ix[1:], x)
                return tuple(l)
            r = put(agg, ix, E(e, t2))
        elif op == 'freeze':
            r = E(ins.a, ins.ty)
        else:
            raise ToolLimit('instruction %s in %s' % (ins.text[:80], self.where()))
        regs[ins.dst] = r


def simp_any(v):
    if isinstance(v, z3.BitVecRef):
        return simp(v)
    if isinstance(v, z3.BoolRef):
        return simpb(v)
    return v
