"""Loops: concrete unrolling while the exit decision is concrete, otherwise an inductive
summary.  The summary states, for every location the loop changes, its value after k
iterations; it is accepted only after one iteration started from those values at an
arbitrary k has been shown to produce the values for k+1 (the loop invariant is inductive).
"""
import z3
from .val import *
from . import val as V

MAXIT = 140
MAXSYM = 12
ITERS = 1 << 32     # assumed bound on iteration counts (sizes are 32-bit quantities)


class LoopFact:
    """for all j < bound: fn(j)"""
    def __init__(self, bound, fn, guard=None):
        self.bound = bound; self.fn = fn; self.guard = guard

    def guarded(self, g):
        return LoopFact(self.bound, self.fn, g if self.guard is None else z3.And(g, self.guard))

    def inst(self, j):
        r = b_imp(ult(j, self.bound), self.fn(j))
        if self.guard is not None:
            r = b_imp(self.guard, r)
        return r

    def subst(self, k, c):
        f = self.fn
        return LoopFact(V._subst(self.bound, k, bv(c, 64)), lambda j: V._sub_fn(f, j, k, bv(c, 64)),
                        None if self.guard is None else z3.substitute(self.guard, (k, bv(c, 64))))


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (int, str)):
        return a == b
    if isinstance(a, z3.ExprRef):
        return a.eq(b)
    if isinstance(a, Ptr):
        return a.obj == b.obj and same(a.off, b.off) and same(a.path, b.path) and same(a.idx, b.idx) and same(a.inner, b.inner)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, SList):
        return len(a.els) == len(b.els) and all(same(x, y) for x, y in zip(a.els, b.els))
    if isinstance(a, SCat):
        return same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, MsgVal):
        return a.t == b.t and a.src is b.src and set(a.f) == set(b.f) and all(same(a.f[x], b.f[x]) for x in a.f)
    if isinstance(a, StrVal):
        return same(a.t, b.t)
    if isinstance(a, FnPtr):
        return a.name == b.name
    if isinstance(a, PIte):
        return same(a.c, b.c) and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, (PInt,)):
        return same(a.p, b.p)
    if isinstance(a, PDiff):
        return same(a.n, b.n) and a.stride == b.stride
    return False


# ------------------------------------------------------------ value differences
def vdiff(a, b, path, out):
    if same(a, b):
        return
    if isinstance(a, MsgVal) and isinstance(b, MsgVal) and a.t == b.t:
        for k in set(a.f) | set(b.f):
            x = V.SCHEMA.rawget(a, k); y = V.SCHEMA.rawget(b, k)
            vdiff(x, y, path + (('f', k),), out)
        return
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            vdiff(x, y, path + (('t', i),), out)
        return
    if isinstance(a, SList) and isinstance(b, SList) and len(a.els) == len(b.els) and a.elt.kind == 'msg':
        for i, (x, y) in enumerate(zip(a.els, b.els)):
            vdiff(x, y, path + (('l', i),), out)
        return
    if isinstance(a, SCat) and isinstance(b, SCat) and same(a.a, b.a) and a.elt.kind == 'msg' \
            and isinstance(a.b, SList) and isinstance(b.b, SList) and len(a.b.els) == len(b.b.els):
        for i, (x, y) in enumerate(zip(a.b.els, b.b.els)):
            vdiff(x, y, path + (('cb', i),), out)
        return
    out.append((path, a, b))


def vget(v, path):
    for k, x in path:
        if k == 'f':
            v = V.SCHEMA.rawget(v, x)
        elif k == 't':
            v = v[x]
        elif k == 'l':
            v = v.els[x]
        else:
            v = v.b.els[x]
    return v


def vset(v, path, nv):
    if not path:
        return nv
    k, x = path[0]
    if k == 'f':
        return v.setk(x, vset(V.SCHEMA.rawget(v, x), path[1:], nv))
    if k == 't':
        l = list(v); l[x] = vset(v[x], path[1:], nv)
        return tuple(l)
    if k == 'l':
        l = list(v.els); l[x] = vset(v.els[x], path[1:], nv)
        return SList(v.elt, l)
    l = list(v.b.els); l[x] = vset(v.b.els[x], path[1:], nv)
    return SCat(v.a, SList(v.elt, l))


def width_of(path, base_w, root):
    """width of the integer at path below a message"""
    w = base_w
    v = root
    for k, x in path:
        if k == 'f':
            w = V.SCHEMA.width(v.t, x)
            v = V.SCHEMA.rawget(v, x)
        elif k == 't':
            v = v[x]
            w = 1 if x == 0 else w
        elif k == 'l':
            v = v.els[x]
        else:
            v = v.b.els[x]
    return w


def state_diff(eng, s0, r0, s1, r1, phis, types):
    """locations changed: loc -> (v0, v1, w)"""
    out = {}
    for p in phis:
        if not same(r0[p], r1[p]):
            ty = types.get(p)
            out[('r', p, ())] = (r0[p], r1[p], ty[1] if ty and ty[0] == 'i' else 64)
    for o in s0.mem:
        a = s0.mem[o]; b = s1.mem.get(o)
        if b is None or a is b:
            continue
        for off in set(a.cells) | set(b.cells):
            x, y = a.cells.get(off), b.cells.get(off)
            if x is y:
                continue
            if x is None:
                if eng_overlap(a, off, y[0]):
                    raise ToolLimit('cell layout changes in a loop')
                out[('c', o, off, y[0], ())] = (POISON, y[1], y[0] * 8)
                continue
            if y is None and not eng_overlap(b, off, x[0]):
                # lost: overwritten by bytes that have no value, such as padding
                if x[1] is not POISON:
                    out[('c', o, off, x[0], ())] = (x[1], POISON, x[0] * 8)
                continue
            if y is None or x[0] != y[0]:
                raise ToolLimit('cell layout changes in a loop')
            d = []
            vdiff(x[1], y[1], (), d)
            for path, va, vb in d:
                out[('c', o, off, x[0], path)] = (va, vb, width_of(path, x[0] * 8, x[1]))
    for g in s0.ghost:
        a, b = s0.ghost[g], s1.ghost.get(g)
        if a is not b:
            d = []
            vdiff(a, b, (), d)
            for path, va, vb in d:
                out[('g', g, path)] = (va, vb, 64)
    return out


def eng_overlap(o, off, n):
    return any(k < off + n and off < k + c[0] for k, c in o.cells.items())


def get_loc(st, regs, loc):
    if loc[0] == 'r':
        return regs[loc[1]]
    if loc[0] == 'g':
        return vget(st.ghost[loc[1]], loc[2])
    c = st.mem[loc[1]].cells.get(loc[2])
    if c is None:
        return POISON
    return vget(c[1], loc[4])


def set_loc(st, regs, loc, v):
    if loc[0] == 'r':
        regs[loc[1]] = v
        return
    if loc[0] == 'g':
        st.ghost[loc[1]] = vset(st.ghost[loc[1]], loc[2], v)
        return
    o = st.mem[loc[1]]
    cells = dict(o.cells)
    c = cells.get(loc[2])
    cells[loc[2]] = (loc[3], vset(c[1], loc[4], v) if c is not None else v)
    st.mem[loc[1]] = o.with_cells(cells)


# ------------------------------------------------------------ shapes
class Affine:
    def __init__(self, v0, d, w):
        self.v0 = v0; self.d = d; self.w = w

    def at(self, eng, k):
        kk = k if self.w == 64 else (trunc(k, 64, self.w) if self.w < 64 else zext(k, 64, self.w))
        return add(self.v0, mul(kk, self.d, self.w), self.w)

    def check(self, eng, sk, st, vk, vb, k):
        if isinstance(vb, (Ptr, PIte, Seq, MsgVal, Poison, PInt, PDiff)):
            return False
        return eng.valid(st, eq(vb, self.at(eng, add(k, 1)), self.w))


class HintShape:
    """value given by a fold the specification declares"""
    def __init__(self, fn, w, name):
        self.fn = fn; self.w = w; self.name = name

    def at(self, eng, k):
        return self.fn(k)

    def check(self, eng, sk, st, vk, vb, k):
        if not isinstance(vb, (int, z3.BitVecRef)):
            return False
        return eng.valid(st, eq(vb, self.fn(add(k, 1)), self.w))


class APtr:
    """pointer whose element index or offset is an integer shape"""
    def __init__(self, p0, field, sh):
        self.p0 = p0; self.field = field; self.sh = sh

    def at(self, eng, k):
        p = self.p0
        x = self.sh.at(eng, k)
        return Ptr(p.obj, x, p.path, p.idx, p.inner) if self.field == 'off' else Ptr(p.obj, p.off, p.path, x, p.inner)

    def check(self, eng, sk, st, vk, vb, k):
        e = ptr_eq(vb, self.at(eng, add(k, 1))) if isinstance(vb, (Ptr, PIte)) else 0
        return eng.valid(st, e)


class Append:
    def __init__(self, s0):
        self.s0 = s0; self.hole = Hole(); self.m = 1; self.lenf = None

    def at(self, eng, k):
        if isc(k) and k == 0:
            return self.s0
        ln = None
        if self.m is None:
            ln = self.lenf(k)
        return s_cat_raw(self.s0, SFlat(self.s0.elt, k, self.hole, self.m, None, ln))

    def check(self, eng, sk, st, vk, vb, k):
        x = strip_prefix(vb, vk)
        if x is None:
            return False
        m = x.len if isc(x.len) else None
        if m != self.m:
            if self.m is not None and m is None or self.m is None:
                if self.m is None and m is not None:
                    pass
                if self.m is not None:
                    self.m = None
                    self.mk_len(eng, k)
                    return 'again'
            else:
                self.m = m
                return 'again'
        self.hole.k = k
        self.hole.val = x
        if self.m is None:
            eng.axioms.append(self.lenf(bv(0, 64)) == 0)
            l = x.len
            st_fact = self.lenf(k + 1) == self.lenf(k) + bv(l, 64)
            self.step = (k, st_fact)
        return True

    def mk_len(self, eng, k):
        n = 'len!%s' % eng.uid()
        f = z3.Function(n, *([z3.BitVecSort(64)] * (len(eng.loops) + 1)), z3.BitVecSort(64))
        ls = list(eng.loops)
        self.lenf = lambda j: f(*ls, bv(j, 64))


class Pop:
    def __init__(self, s0, d, front):
        self.s0 = s0; self.d = d; self.front = front

    def at(self, eng, k):
        n = mul(k, self.d)
        return s_slice(self.s0, n, sub(self.s0.len, n)) if self.front else s_slice(self.s0, 0, sub(self.s0.len, n))

    def check(self, eng, sk, st, vk, vb, k):
        want = self.at(eng, add(k, 1))
        if isinstance(vb, SSlice) and isinstance(want, SSlice) and vb.s is want.s:
            return eng.valid(st, b_and(eq(vb.lo, want.lo), eq(vb.len, want.len)))
        return False


class Stride:
    def __init__(self, s0, start, w):
        self.s0 = s0; self.start = start; self.w = w; self.hole = Hole()

    def at(self, eng, k):
        return SStride(self.s0, self.start, self.w, k, self.hole)

    def check(self, eng, sk, st, vk, vb, k):
        ch = upd_chain(vb, vk)
        if ch is None or len(ch) != self.w:
            return False
        base = add(self.start, mul(k, self.w))
        vals = [None] * self.w
        for i, v in ch:
            for t in range(self.w):
                if vals[t] is None and eng.valid(st, eq(i, add(base, t))):
                    vals[t] = v
                    break
            else:
                return False
        self.hole.k = k
        self.hole.val = SList(self.s0.elt, vals)
        return True


class Last:
    """value of the previous iteration; while it is not known an opaque symbol"""
    def __init__(self, v0, w):
        self.v0 = v0; self.w = w; self.val = None; self.k = None; self.sym = None

    def at(self, eng, k):
        if self.val is None:
            if isinstance(self.v0, (int, z3.ExprRef)):
                if self.sym is None:
                    self.sym = eng.fresh('prev', self.w)
                return self.sym
            return POISON
        if isinstance(self.v0, Poison):
            return POISON
        return ite(eq(k, 0), self.v0, subst(self.val, self.k, sub(k, 1)), self.w)

    def check(self, eng, sk, st, vk, vb, k):
        if self.val is None:
            if self.sym is not None and mentions(vb, self.sym):
                return False
            self.val = vb; self.k = k
            return 'again'
        if same(vb, self.val):
            return True
        if isinstance(vb, (int, z3.BitVecRef, z3.BoolRef)) and isinstance(self.val, (int, z3.BitVecRef, z3.BoolRef)):
            if eng.valid(st, eq(vb, self.val, self.w)):
                return True
        if isinstance(self.v0, Poison):
            self.val = vb
            return True
        self.n = getattr(self, 'n', 0) + 1
        if self.n > 3:
            return False
        self.val = vb
        return 'again'


class Fold:
    """unconstrained function of the iteration with F(0) = v0; the step is a fact at the last iteration"""
    def __init__(self, eng, v0, w):
        n = 'fold!%s' % eng.uid()
        self.w = w; self.v0 = v0
        f = z3.Function(n, *([z3.BitVecSort(64)] * (len(eng.loops) + 1)), z3.BoolSort() if w == 1 else z3.BitVecSort(w))
        ls = list(eng.loops)
        self.f = lambda j: f(*ls, bv(j, 64))
        self.step = None

    def at(self, eng, k):
        if isc(k) and k == 0:
            return self.v0
        return ite(eq(k, 0), self.v0, self.f(k), self.w)

    def check(self, eng, sk, st, vk, vb, k):
        if not isinstance(vb, (int, z3.BitVecRef, z3.BoolRef)):
            return False
        x = self.f(add(k, 1))
        self.step = (k, (x == (tob(vb) if self.w == 1 else bv(vb, self.w))))
        return True


class Dead:
    """value the engine cannot describe; using it is a tool limit"""
    def at(self, eng, k):
        return POISON

    def check(self, eng, sk, st, vk, vb, k):
        return True


def mentions(v, sym):
    if isinstance(v, z3.ExprRef):
        seen = set()
        todo = [v]
        while todo:
            e = todo.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if e.eq(sym):
                return True
            todo.extend(e.children())
        return False
    if isinstance(v, (int, str, Poison, FnPtr)) or v is None:
        return False
    if isinstance(v, tuple):
        return any(mentions(x, sym) for x in v)
    if isinstance(v, Ptr):
        return mentions(v.off, sym) or mentions(v.path, sym) or mentions(v.idx, sym)
    if isinstance(v, PIte):
        return mentions(v.c, sym) or mentions(v.a, sym) or mentions(v.b, sym)
    return False


def s_cat_raw(a, b):
    return SCat(a, b) if not (isc(a.len) and a.len == 0) else b


def strip_prefix(s, pre):
    """s == pre ++ X structurally: X or None"""
    if same(s, pre):
        return s_empty(s.elt)
    ps, pp = V._parts(s), V._parts(pre)
    pp = [x for x in pp if not (isc(x.len) and x.len == 0)]
    ps = [x for x in ps if not (isc(x.len) and x.len == 0)]
    i = 0
    while i < len(pp):
        if i >= len(ps):
            return None
        if same(ps[i], pp[i]):
            i += 1
            continue
        # last literal part of pre extended in s
        if i == len(pp) - 1 and isinstance(ps[i], SList) and isinstance(pp[i], SList):
            n = len(pp[i].els)
            if len(ps[i].els) >= n and all(same(x, y) for x, y in zip(ps[i].els, pp[i].els)):
                r = SList(s.elt, ps[i].els[n:])
                for x in ps[i + 1:]:
                    r = s_cat(r, x)
                return r
        return None
    r = s_empty(s.elt)
    for x in ps[len(pp):]:
        r = s_cat(r, x)
    return r


def upd_chain(s, base):
    ch = []
    while s is not base:
        if not isinstance(s, SUpd):
            return None
        ch.append((s.i, s.v))
        s = s.s
    return ch[::-1]


def guess(eng, v0, v1, w):
    if isinstance(v0, (int, z3.BitVecRef)) and isinstance(v1, (int, z3.BitVecRef)) and w > 1:
        d = sub(v1, v0, w)
        if isc(d) and d != 0:
            return Affine(v0, d, w)
        h = hint(eng, v0, w)
        if h is not None:
            return h
        return Last(v0, w)
    if isinstance(v0, (int, z3.BoolRef)) and w == 1:
        return Last(v0, 1)
    if isinstance(v0, Ptr) and isinstance(v1, Ptr) and v0.obj == v1.obj and same(v0.path, v1.path):
        if v0.idx is not None and v1.idx is not None and same(v0.off, v1.off) and same(v0.inner, v1.inner):
            d = sub(v1.idx, v0.idx)
            if isc(d):
                return APtr(v0, 'idx', Affine(v0.idx, d, 64))
        elif v0.idx is None and v1.idx is None:
            d = sub(v1.off, v0.off)
            if isc(d):
                return APtr(v0, 'off', Affine(v0.off, d, 64))
            h = hint(eng, v0.off, 64)
            if h is not None:
                return APtr(v0, 'off', h)
    if isinstance(v0, Ptr) and isinstance(v1, PIte):
        if v0.idx is None:
            h = hint(eng, v0.off, 64)
            if h is not None:
                return APtr(v0, 'off', h)
    if isinstance(v0, Seq) and isinstance(v1, Seq):
        x = strip_prefix(v1, v0)
        if x is not None:
            return Append(v0)
        if isinstance(v1, SSlice):
            b, lo = (v0.s, v0.lo) if isinstance(v0, SSlice) else (v0, 0)
            if v1.s is b:
                if same(v1.lo, lo):
                    d = sub(v0.len, v1.len)
                    if isc(d):
                        return Pop(v0, d, False)
                d = sub(v1.lo, lo)
                if isc(d):
                    return Pop(v0, d, True)
        ch = upd_chain(v1, v0)
        if ch:
            start = ch[0][0]
            lo = start
            for i, v in ch:
                d = sub(i, start)
                if not isc(d):
                    return Dead()
                if d >> 63:
                    lo = i
            return Stride(v0, lo, len(ch))
        return Dead()
    return Last(v0, w)


def hint(eng, v0, w, after=None):
    hs = list(getattr(eng, 'hints', ()))
    if after is not None:
        n = [h.name for h in hs]
        hs = hs[n.index(after) + 1:] if after in n else []
    for h in hs:
        if h.w == w and not h.used_up and isinstance(v0, (int, z3.BitVecRef)):
            e = eq(v0, h.fn(bv(0, 64)), w)
            if isc(e) and e or (not isc(e) and eng._check([z3.Not(e)])[0] == z3.unsat):
                return HintShape(h.fn, w, h.name)
    return None


class Hint:
    """a fold declared by the specification: fn(k); unfold(k): fact relating fn(k+1) and fn(k)"""
    def __init__(self, name, fn, w, unfold):
        self.name = name; self.fn = fn; self.w = w; self.unfold = unfold; self.used_up = False


def demote(eng, sh, loc, v0, vb, w):
    if isinstance(sh, (Affine, APtr)):
        if isinstance(sh, APtr):
            if sh.field == 'off':
                h = hint(eng, v0.off, 64)
                if h is not None and not isinstance(sh.sh, HintShape):
                    return APtr(v0, 'off', h)
            return Last(v0, w)
        h = hint(eng, v0, w)
        if h is not None:
            return h
        return Last(v0, w)
    if isinstance(sh, HintShape):
        h = hint(eng, v0, w, sh.name)
        if h is not None:
            return h
    if isinstance(sh, (Last, HintShape)):
        if isinstance(v0, (int, z3.ExprRef)) and isinstance(vb, (int, z3.ExprRef)):
            eng.exact = False
            return Fold(eng, v0, w)
        return Dead()
    return Dead()


def align(eng, s, a):
    """give scalars in s the cells they have in a"""
    for o in list(s.mem):
        x, y = s.mem[o], a.mem.get(o)
        if y is None or x is y or getattr(x, 'cells', None) is None:
            continue
        for off, (n, v) in sorted(y.cells.items()):
            c = s.mem[o].cells.get(off)
            if isptr(v) or v is POISON or isinstance(v, (int, z3.ExprRef)):
                if (c is None and eng_overlap(s.mem[o], off, n)) or (c is not None and c[0] != n):
                    try:
                        x = eng.load(s, Ptr(o, off), ('ptr',) if isptr(v) and n == 8 else ('i', 8 * n))
                    except ToolLimit:
                        x = POISON
                    eng.setv_raw(s, Ptr(o, off), n, x)


def rule_loop(eng, fn, header, s0, r0, rets, rule):
    """a loop under a contract of its own: an arbitrary iteration is run once, from a state in which
    rule.havoc has replaced what iterations change; rule.back checks each way to the next iteration"""
    body = fn.loops[header]
    types = eng.regtypes(fn)
    phis = [i.dst for i in fn.blocks[header] if i.op == 'phi']
    locs = {}
    s, r = s0.copy(), dict(r0)
    keep, nrets = eng.obs, len(rets)
    for _ in range(8):
        eng.obs = []
        out = eng.region(fn, [(header, s.copy(), dict(r))], body, header, rets)
        del rets[nrets:]
        new = {}
        for x, a, b in out:
            if x == header:
                align(eng, s, a)
                align(eng, s0, a)
                for loc, v in state_diff(eng, s, r, a, b, phis, types).items():
                    if loc not in locs and not any(cover(l, loc) for l in locs):
                        new[loc] = v
        if not new:
            break
        for loc, v in new.items():
            locs[loc] = (get_loc(s0, r0, loc), v[1], v[2])
        s, r = rule.havoc(s0.copy(), dict(r0), locs)
    else:
        raise ToolLimit('changes of a loop do not stabilise in ' + eng.where())
    eng.obs = keep
    done = []
    for case in rule.cases:
        s, r = rule.havoc(s0.copy(), dict(r0), locs)
        rule.begin(s, case)
        out = eng.region(fn, [(header, s, r)], body, header, rets)
        for x, a, b in out:
            if x == header:
                rule.back(a, b, case)
            else:
                rule.leave(a, b, case)
                done.append((x, a, b))
    return done


def run_loop(eng, fn, header, st, regs, rets):
    body = fn.loops[header]
    rule = eng.loop_rule(fn, header, st, regs) if eng.loop_rule is not None else None
    if rule is not None:
        keep = eng.obs
        try:
            return rule_loop(eng, fn, header, st, regs, rets, rule)
        except Exception:
            eng.obs = keep      # what was tried on the way shows nothing
            raise
    cur = [(st, regs)]
    done = []
    nsym = 0
    why = None
    for it in range(MAXIT):
        new = []
        for s, r in cur:
            if eng.cut is not None:
                eng.cut(fn, header, it, s, r)      # loop contract: proves an invariant, forgets the rest
            s0, r0 = s.copy(), dict(r)
            nobs = len(eng.obs)
            out = eng.region(fn, [(header, s, r)], body, header, rets)
            backs = [(a, b) for x, a, b in out if x == header]
            exits = [(x, a, b) for x, a, b in out if x != header]
            ns = getattr(eng, "no_summary", False)
            if backs and exits and nsym == 0 and not (ns(fn, header) if callable(ns) else ns):
                try:
                    mb = eng.merge_states([(a, b) for a, b in backs], eng.regtypes(fn))
                    if len(mb) != 1:
                        raise ToolLimit('several back edge states')
                    keep = eng.obs
                    eng.obs = []
                    ex0 = eng.exact
                    try:
                        ex = summarise(eng, fn, header, s0, r0, mb[0], body, rets)
                    except ToolLimit:
                        eng.exact = ex0
                        raise
                    finally:
                        newobs = eng.obs
                        eng.obs = keep
                    eng.obs = eng.obs[:nobs] + newobs
                    eng.stats['loops_summarised'] += 1
                    done += ex
                    continue
                except ToolLimit as e:
                    why = e
                    if eng.verbose:
                        print('   no summary:', e, 'in', eng.where(), flush=True)
            if backs and exits:
                nsym += 1
                if nsym > getattr(eng, 'max_unroll', MAXSYM):
                    raise ToolLimit('loop in %s: no inductive summary (%s)' % (eng.where(), why))
            done += exits
            new += backs
        cur = eng.merge_states(new, eng.regtypes(fn))
        if not cur:
            eng.stats['loops_unrolled'] += 1
            return done
    raise ToolLimit('loop in %s not unrolled after %d iterations' % (eng.where(), MAXIT))


def summarise(eng, fn, header, s0, r0, b1, body, rets):
    types = eng.regtypes(fn)
    phis = [i.dst for i in fn.blocks[header] if i.op == 'phi']
    name = 'k!%s' % eng.uid()
    if eng.loops:
        k = z3.Function(name, *([z3.BitVecSort(64)] * len(eng.loops)), z3.BitVecSort(64))(*eng.loops)
    else:
        k = z3.BitVec(name, 64)
    V.born(k)
    init = {}
    shapes = {}
    for loc, (v0, v1, w) in state_diff(eng, s0, r0, b1[0], b1[1], phis, types).items():
        init[loc] = (v0, w)
        shapes[loc] = guess(eng, v0, v1, w)
    invs = []
    invtried = False
    for attempt in range(14):
        eng.obs = []
        sk, rk = s0.copy(), dict(r0)
        for loc, sh in shapes.items():
            set_loc(sk, rk, loc, sh.at(eng, k))
        sk.assume(z3.ULT(k, bv(ITERS, 64)))
        for inv in invs:
            sk.assume(inv(k))
        for h in getattr(eng, 'hints', ()):
            sk.assume(h.unfold(k))
        base_n = len(sk.pc)
        sk0, rk0 = sk.copy(), dict(rk)
        eng.loops.append(k)
        # the symbols of the generic iteration get the same names in every attempt
        ns, cnt = eng.ns, eng.nsym
        eng.ns, eng.nsym = '%s/' % name, 0
        try:
            out = eng.region(fn, [(header, sk, rk)], body, header, rets)
        finally:
            eng.loops.pop()
            eng.ns, eng.nsym = ns, cnt
        backs = eng.merge_states([(a, b) for x, a, b in out if x == header], types)
        exits = [(x, a, b) for x, a, b in out if x != header]
        if len(backs) != 1:
            raise ToolLimit('no single back edge state')
        bs, br = backs[0]
        changed = False
        # locations that changed but have no shape yet
        for loc, (va, vb, w) in state_diff(eng, sk0, rk0, bs, br, phis, types).items():
            if loc in shapes or any(cover(l, loc) for l in shapes):
                continue
            v0 = get_loc(s0, r0, loc)
            init[loc] = (v0, w)
            shapes[loc] = guess(eng, va, vb, w)
            changed = True
        if changed:
            continue
        for loc in list(shapes):
            sh = shapes[loc]
            vk, vb = get_loc(sk0, rk0, loc), get_loc(bs, br, loc)
            r = sh.check(eng, sk0, bs, vk, vb, k)
            if r is True:
                continue
            changed = True
            if r == 'again':
                continue
            v0, w = init[loc]
            shapes[loc] = demote(eng, sh, loc, v0, vb, w)
            if eng.verbose:
                print('   demote', loc, type(sh).__name__, '->', type(shapes[loc]).__name__, str(vb)[:200], 'in', eng.where())
        if changed:
            continue
        if not invtried:
            invtried = True
            c = candidates(eng, exits, bs, base_n, k)
            good = []
            for kind, t in c:
                inv = (lambda t: (lambda j: z3.ULE(bv(j, 64), t)))(t)
                if eng.valid(s0, simpb(inv(bv(0, 64)))):
                    s2 = bs.copy()
                    s2.assume(inv(k))
                    if eng.valid(s2, simpb(inv(k + 1))):
                        good.append(inv)
            if good:
                invs = good[:3]
                continue
        break
    else:
        raise ToolLimit('loop summary does not stabilise in ' + eng.where())
    cont = bs.pc[base_n:]
    cont = z3.And(*cont) if len(cont) > 1 else (cont[0] if cont else z3.BoolVal(True))
    steps = [sh.step[1] for sh in shapes.values() if getattr(sh, 'step', None) is not None]
    if steps:
        cont = z3.And(cont, *steps)
    fact = LoopFact(k, lambda j: subst(cont, k, j))
    ends(eng, name, s0, exits, invs, base_n, k)
    res = []
    for x, a, b in exits:
        a.assume(simpb(z3.Implies(z3.UGT(k, 0), z3.substitute(cont, (k, simp(k - 1))))))
        a.facts.append(fact)
        c = closed(eng, a, base_n, k)
        if c is not None:
            subst_state(a, b, k, c, s0)
            if eng.name_off is not None:
                eng.name_offsets(a, b, s0, r0)
        else:
            # the iteration of this exit is only constrained by instances of the loop's facts
            eng.exact = False
        res.append((x, a, b))
    return res


def ends(eng, name, s0, exits, invs, base_n, k):
    """does the loop end? With an inductive bound k <= t (t fixed over the loop) it does. Without one it is shown not to end
    when the ways out depend on the iteration through its low bits alone and some entry state takes none of them at any value"""
    if invs:
        eng.stats['variants'] = eng.stats.get('variants', 0) + 1
        if not any(eng.valid(s0, simpb(z3.Not(inv(bv(ITERS, 64))))) for inv in invs):
            eng.stats['iterbound'] = eng.stats.get('iterbound', 0) + 1
        eng.obs.append(eng.Ob('the loop in %s ends' % eng.where(), 'variant', 'discharged'))
        return
    eng.stats['novariant'] = eng.stats.get('novariant', 0) + 1
    if eng.verbose:
        print('   no variant:', eng.where(), [a.pc[base_n:] for _, a, _ in exits])
    leave = z3.Or(*[z3.And(*a.pc[base_n:]) if len(a.pc) > base_n else z3.BoolVal(True) for _, a, _ in exits])
    if any(n.startswith(name + '/') for n in names(leave)):
        return
    s = s0.copy()
    for w in (8, 16):
        if eng.valid(s0, leave == z3.substitute(leave, (k, k & bv((1 << w) - 1, 64)))):
            if w == 8:
                stay = z3.And(*[z3.Not(z3.substitute(leave, (k, bv(j, 64)))) for j in range(256)])
            else:
                j = z3.BitVec(name + '!low', w)
                stay = z3.ForAll([j], z3.Not(z3.substitute(leave, (k, z3.ZeroExt(64 - w, j)))))
            eng.oblige(s, z3.simplify(z3.Not(stay)) if w == 8 else z3.Not(stay), 'the loop in %s ends' % eng.where(), 'variant')
            return


def names(e):
    out, seen, todo = set(), set(), [e]
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(e.decl().name())
        todo.extend(e.children())
    return out


def cover(l, loc):
    """is location l an ancestor of loc?"""
    if l[0] != loc[0] or l[:-1] != loc[:-1]:
        return False
    return loc[-1][:len(l[-1])] == l[-1]


def atoms(fs, k):
    out = []
    seen = set()
    todo = list(fs)
    while todo:
        e = todo.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        kd = e.decl().kind()
        if kd in (z3.Z3_OP_EQ, z3.Z3_OP_ULEQ, z3.Z3_OP_SLEQ, z3.Z3_OP_ULT, z3.Z3_OP_SLT, z3.Z3_OP_UGEQ, z3.Z3_OP_SGEQ, z3.Z3_OP_UGT, z3.Z3_OP_SGT) and z3.is_bv(e.arg(0)):
            out.append((kd, e.arg(0), e.arg(1)))
        elif z3.is_bool(e):
            todo.extend(e.children())
    return out


def solve_k(a, b, k):
    """candidates t with a == b  <=>  k == t"""
    res = []
    for l, r in ((a, b), (b, a)):
        if mentions(r, k) or not mentions(l, k):
            continue
        w = l.size()
        if w > 64:
            continue
        l64, r64 = zext(l, w, 64), bv(zext(r, w, 64), 64)
        t = simp(z3.substitute(bv(l64, 64), (k, bv(0, 64))))
        for c in (sub(r64, t), sub(t, r64), r64):
            if all(not same(c, y) for y in res):
                res.append(c)
        t32 = simp(z3.substitute(l, (k, bv(0, 64))))
        for c in (zext(sub(r, t32, w), w, 64), zext(sub(t32, r, w), w, 64)):
            if all(not same(c, y) for y in res):
                res.append(c)
    if not res and mentions(a, k) and mentions(b, k):
        # a - b linear in k
        w = a.size()
        d = simp(a - b)
        if isc(d):
            return res
        t = simp(z3.substitute(d, (k, bv(0, 64))))
        for c in (sub(0, t, w), t):
            c = zext(c, w, 64)
            res.append(c)
    return [bv(c, 64) for c in res]


def candidates(eng, exits, bs, base_n, k):
    out = [(z3.Z3_OP_EQ, t) for t in getattr(eng, 'khints', ())]
    fs = []
    for x, a, b in exits:
        fs += a.pc[base_n:]
    for kd, l, r in sorted(atoms(fs, k), key=lambda a: a[0] != z3.Z3_OP_EQ):
        for t in solve_k(l, r, k):
            if all(not t.eq(y) for _, y in out):
                out.append((kd, t))
    return out[:12]


def closed(eng, st, base_n, k):
    seen = []
    for t in getattr(eng, 'khints', ()):
        seen.append(t)
        if eng.valid(st, simpb(k == t)):
            return t
    for kd, l, r in sorted(atoms(st.pc[base_n:], k), key=lambda a: a[0] != z3.Z3_OP_EQ):
        for t in solve_k(l, r, k):
            if mentions(t, k) or any(t.eq(y) for y in seen):
                continue
            seen.append(t)
            if len(seen) > 16:
                return None
            if eng.valid(st, simpb(k == t)):
                return simp(t)
    return None


def subst_state(st, regs, k, c, s0):
    cc = bv(c, 64)
    st.pc = [z3.simplify(z3.substitute(f, (k, cc))) if mentions(f, k) else f for f in st.pc]
    st.pc = [f for f in st.pc if not z3.is_true(f)]
    for r in list(regs):
        regs[r] = V._subst2(regs[r], k, cc)
    for o, ob in list(st.mem.items()):
        if s0.mem.get(o) is ob or ob.kind == 'arr':
            continue
        cells = {}
        for off, (n, v) in ob.cells.items():
            cells[off] = (n, V._subst2(v, k, cc))
        st.mem[o] = ob.with_cells(cells)
    for g in list(st.ghost):
        if st.ghost[g] is not s0.ghost.get(g):
            st.ghost[g] = V._subst2(st.ghost[g], k, cc)
    old = {id(f) for f in s0.facts}
    st.facts = [f if id(f) in old else f.subst(k, cc) for f in st.facts]
