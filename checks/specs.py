"""Proof helpers shared by the checks: equality of abstract values as obligations."""
import z3
from irv.val import *
from irv import val as V
from irv import stl


def val_eq(S, a, b, w=64):
    """i1: equality of two scalar / pointer / string / message values (messages field by field,
    repeated fields must be handled by seq_eq)"""
    if a is b:
        return 1
    if isinstance(a, Poison) or isinstance(b, Poison):
        return 0
    if isinstance(a, StrVal) or isinstance(b, StrVal):
        if isinstance(a, StrVal) and isinstance(b, StrVal):
            return eq(a.t, b.t)
        return 0
    if isptr(a) or isptr(b):
        return ptr_eq(a, b)
    return eq(a, b, w)


def prove_seq(E, S, st, got, want, name, kind='post', depth=0):
    """obligations: got and want are equal sequences"""
    if got is want:
        return E.oblige(st, 1, name, kind)
    if not isinstance(got, Seq) or not isinstance(want, Seq):
        raise ToolLimit('sequence expected for ' + name)
    pg, pw = parts(got), parts(want)
    if len(pg) == len(pw) and any(isinstance(x, SFlat) and x.m is None for x in pw) and \
            all(isinstance(x, SFlat) and x.m is None and isinstance(y, SFlat) and y.m is None or same_part(E, st, x, y) for x, y in zip(pg, pw)):
        # concatenations of parts of varying length: equal part by part
        ok = True
        for n, (x, y) in enumerate(zip(pg, pw)):
            if not isinstance(x, SFlat) or x.m is not None:
                ok = prove_seq(E, S, st, x, y, '%s[part %d]' % (name, n), kind, depth) and ok
                continue
            ok = E.oblige(st, eq(x.n, y.n), '%s[part %d]: number of parts' % (name, n), kind) and ok
            j = E.fresh('j', 64)
            s2 = st.copy()
            s2.assume(tob(ult(j, y.n)))
            for h in getattr(E, 'hints', ()):
                s2.assume(h.unfold(j))
            if E.feasible(s2):
                ok = prove_seq(E, S, s2, x.fn(j), y.fn(j), '%s[part %d][any]' % (name, n), kind, depth) and ok
        return ok
    ok = E.oblige(st, eq(got.len, want.len), name + ': length', kind)
    if not ok:
        return False
    pg, pw = parts(got), parts(want)
    # strip equal literal prefixes pairwise when the shapes agree
    if len(pg) == len(pw) and all(same_part(E, st, a, b) for a, b in zip(pg, pw)):
        for j, (a, b) in enumerate(zip(pg, pw)):
            if a is b:
                continue
            if isinstance(a, SList) and isinstance(b, SList):
                for n, (x, y) in enumerate(zip(a.els, b.els)):
                    ok = prove_val(E, S, st, x, y, got.elt, '%s[part %d][%d]' % (name, j, n), kind, depth) and ok
            else:
                ok = prove_ext(E, S, st, a, b, '%s[part %d]' % (name, j), kind, depth) and ok
        return ok
    if isc(got.len) and isc(want.len) and got.len <= 16:
        for n in range(got.len):
            ok = prove_val(E, S, st, got.at(n), want.at(n), got.elt, '%s[%d]' % (name, n), kind, depth) and ok
        return ok
    return prove_ext(E, S, st, got, want, name, kind, depth)


def parts(s):
    if isinstance(s, SCat):
        return parts(s.a) + parts(s.b)
    if isc(s.len) and s.len == 0:
        return []
    return [s]


def same_part(E, st, a, b):
    if isinstance(a, SList) and isinstance(b, SList):
        return len(a.els) == len(b.els)
    l = eq(a.len, b.len)
    if isc(l):
        return bool(l)
    return E.valid(st, l)


def prove_ext(E, S, st, got, want, name, kind, depth):
    """equal at an arbitrary index (lengths are known to be equal)"""
    i = E.fresh('i', 64)
    s2 = st.copy()
    s2.assume(tob(ult(i, want.len)))
    if not E.feasible(s2):
        return E.oblige(st, 1, name + ' (empty)', kind)
    for f in st.facts:
        pass
    return prove_val(E, S, s2, got.at(i), want.at(i), want.elt, name + '[any]', kind, depth)


def prove_val(E, S, st, a, b, elt, name, kind='post', depth=0):
    if a is b:
        return E.oblige(st, 1, name, kind)
    if isinstance(a, Seq) or isinstance(b, Seq):
        return prove_seq(E, S, st, a, b, name, kind, depth)
    if isinstance(a, MsgVal) or isinstance(b, MsgVal):
        return prove_msg(E, S, st, a, b, name, kind, depth)
    w = elt.w if isinstance(elt, Elt) else (elt or 64)
    return E.oblige(st, val_eq(S, a, b, w), name, kind)


def prove_msg(E, S, st, a, b, name, kind='post', depth=0):
    """obligations: two messages are equal field by field"""
    if a is b:
        return E.oblige(st, 1, name, kind)
    if not (isinstance(a, MsgVal) and isinstance(b, MsgVal)) or a.t != b.t:
        return E.oblige(st, 0, name + ': same message type', kind)
    if a.src is not None and b.src is not None and a.src[:2] == b.src[:2] and a.src[2:] == b.src[2:] and not a.f and not b.f:
        return E.oblige(st, 1, name, kind)
    ok = True
    m = S.msgs[a.t]
    for o in m.oneofs:
        ok = E.oblige(st, eq(S.case(a, o), S.case(b, o), 32), '%s: kind of %s' % (name, o), kind) and ok
    for f in m.fields.values():
        x, y = S.rawget(a, f.name), S.rawget(b, f.name)
        if x is y:
            continue
        n = name + '.' + f.name
        s2 = st
        if f.oneof:
            c = S.case(b, f.oneof)
            sel = eq(c, f.num, 32)
            if isc(sel) and not sel:
                continue
            if not isc(sel):
                s2 = st.copy()
                s2.assume(tob(sel))
                if not E.feasible(s2):
                    continue
        if f.rep:
            ok = prove_seq(E, S, s2, x, y, n, kind, depth + 1) and ok
        elif f.kind == 'msg':
            if isinstance(x, tuple) or isinstance(y, tuple):
                px, mx = x if isinstance(x, tuple) else (1, x)
                py, my = y if isinstance(y, tuple) else (1, y)
                ok = E.oblige(s2, eq(px, py, 1), n + ': presence', kind) and ok
                if isc(py) and not py:
                    continue
                s3 = s2
                if not isc(py):
                    s3 = s2.copy()
                    s3.assume(tob(py))
                    if not E.feasible(s3):
                        continue
                x, y = mx, my
                ok = prove_msg(E, S, s3, x, y, n, kind, depth + 1) and ok
            else:
                ok = prove_msg(E, S, s2, x, y, n, kind, depth + 1) and ok
        else:
            ok = E.oblige(s2, val_eq(S, x, y, f.w), n, kind) and ok
    return ok
