"""C10, C11, C30: events applied to the board and undone (client/parse_event.hpp, client/undo_parse_event.hpp)."""
import z3
from .base import *
from irv.val import *
from .specs import *
from .encode import PLACE
from .encspec import bit
from .frame import Field, Slot, PILE_KEYS, ZONE_KEYS, MAXLEN, nz

EVT = 'YGOpen::Proto::Duel::Msg_Event'
OP = EVT + '_Pile_Splice__Operation'
ADD, REMOVE, RESIZE, CLEAR, MOVE, SWAP, SHUFFLE, SHUFFLED, SPLICE, PSWAP = range(1, 11)
UNDO = 32
ASSIGN, POP, PUSH, ELEMENT, SET = range(1, 6)
I32 = Elt('i', 32, None, 4)
FIELDS = ('frame', 'chains', 'turn', 'controller', 'lp0', 'lp1', 'phase', 'blocked')
VALUES = ('turn', 'controller', 'lp0', 'lp1', 'phase')
CHAIN = 'YGOpen::Proto::Duel::Chain'


class Rev(Seq):
    """a sequence backwards"""

    def __init__(self, s):
        self.elt = s.elt; self.s = s; self.len = s.len

    def _at(self, i):
        return self.s.at(sub(sub(self.s.len, 1), i))


class Map(Seq):
    def __init__(self, elt, s, fn):
        self.elt = elt; self.s = s; self.fn = fn; self.len = s.len

    def _at(self, i):
        return self.fn(self.s.at(i), i)


def rev(s):
    if isinstance(s, SCat):
        return s_cat(rev(s.b), rev(s.a))
    if isinstance(s, SList):
        return SList(s.elt, list(reversed(s.els)))
    return Rev(s)


class Log:
    """what happens on the board, in order: kinds and arguments of the operations"""

    def __init__(self, C):
        self.C = C
        self.kind = s_empty(I32)
        self.arg = s_empty(C.aelt)

    def one(self, kind, a=None, b=None, n=0, r=0):
        self.kind = s_append(self.kind, kind)
        self.arg = s_append(self.arg, self.C.arg(a, b, n, r))
        return self

    def each(self, s, kind, fn):
        """one operation for each element of s: fn(element, index) gives the arguments"""
        self.kind = s_cat(self.kind, Map(I32, s, lambda e, i: kind))
        self.arg = s_cat(self.arg, Map(self.C.aelt, s, lambda e, i: self.C.arg(*fn(e, i))))
        return self


class BoardCheck(Check):
    trusted = ['protobuf accessor contracts (irv/pb.py)',
               'the frame, the lists of the board and (for undoing) its values are taken by contract: their operations are C01 to C09']
    assumptions = ['the controllers an event names are 0 and 1', 'a full state event carries life points for both players',
                   'the lists of a shuffle have the same length']
    srcs = []

    def native_build(self):
        return self.ctx.work.exe(['n_board.cpp'], 'n_board')

    def setup(self):
        self.S = self.ctx.schema()
        self.mod = self.ctx.mod('board.cpp')
        self.aelt = Elt('msg', 64, OP, 48)
        E = self.engine()
        st = eng.State()
        o = Ptr(E.new_obj(st, None, 'board'))
        self.off, self.uoff = {}, {}
        for f in FIELDS:
            for pre, d in (('d_', self.off), ('d_u', self.uoff)):
                r = E.call(st, pre + f, [o])
                if len(r) != 1:
                    raise ToolLimit('where %s is' % f)
                d[f] = r[0][1].off
        self.size = E.call(st, 'd_size', [])[0][1]
        self.usize = E.call(st, 'd_usize', [])[0][1]

    def arg(self, a=None, b=None, n=0, r=0):
        m = MsgVal(OP)
        S = self.S
        if a is not None:
            m = S.set(m, 'from', a)
        if b is not None:
            m = S.set(m, 'to', b)
        m = S.set(m, 'count', n)
        return S.set(m, 'reverse', r)

    def engine(self):
        S = self.S

        def what(E, st, p, undo):
            for f in FIELDS:
                if E.valid(st, ptr_eq(p, E.padd(st, self.board, (self.uoff if undo else self.off)[f]))):
                    return f
            raise ToolLimit('an operation on something else than a part of the board')

        def log(st, name, k, a):
            st.ghost[name + '.kind'] = s_append(st.ghost[name + '.kind'], k)
            st.ghost[name + '.arg'] = s_append(st.ghost[name + '.arg'], a)

        def c_op(E, st, a, ins):
            if what(E, st, a[0], self.undo) != 'frame':
                raise ToolLimit('frame')
            g = lambda p: None if isc(p) and p == 0 else E.getv(st, p)
            log(st, 'frame', a[1], self.arg(g(a[2]), g(a[3]), trunc(a[4], 64, 32), a[5]))

        def c_list(E, st, a, ins):
            f = what(E, st, a[0], self.undo)
            log(st, f, a[1], self.arg())

        def c_place(E, st, a, ins):
            f = what(E, st, a[0], self.undo)
            log(st, f + '*', ELEMENT, self.arg(E.getv(st, a[1])))

        def c_chain(E, st, a, ins):
            f = what(E, st, a[0], self.undo)
            if isc(a[1]) and a[1] == ELEMENT:
                st.ghost['chain'] = s_append(st.ghost['chain'], E.getv(st, a[2]))
            else:
                log(st, f, a[1], self.arg())
                st.ghost['chain'] = s_append(st.ghost['chain'], E.getv(st, a[2]))

        def c_value(E, st, a, ins):
            f = what(E, st, a[0], self.undo)
            log(st, f, a[1], self.arg(n=a[2]))
        named = stl.Named([(r'^c_op$', c_op), (r'^c_list$', c_list), (r'^c_place$', c_place), (r'^c_chain$', c_chain), (r'^c_value$', c_value)])
        return self.ctx.engine(self.mod, stl.Chain(named, pbm.PbContracts(S), stl.StlContracts(S)))

    def start(self, undo, event, pre=()):
        self.undo = undo
        E = self.engine()
        st = eng.State()
        for c in pre:
            st.assume(tob(c))
        off = self.uoff if undo else self.off
        self.board = Ptr(E.new_obj(st, None, 'board'))
        ev = Ptr(E.new_obj(st, None, 'event'))
        E.setv_raw(st, ev, 64, event)
        self.v0 = {}
        for f in VALUES:
            v = z3.BitVec('board.' + f, 32)
            self.v0[f] = v
            E.store(st, E.padd(st, self.board, off[f]), ('i', 32), v)
        self.clear(st)
        self.event = ev
        return E, st

    def clear(self, st):
        for n in FIELDS + ('blocked*',):
            st.ghost[n + '.kind'] = s_empty(I32)
            st.ghost[n + '.arg'] = s_empty(self.aelt)
        st.ghost['chain'] = s_empty(Elt('msg', 64, CHAIN, 64))

    def val(self, E, st, f):
        return E.load(st, E.padd(st, self.board, (self.uoff if self.undo else self.off)[f]), ('i', 32))

    # ------------------------------------------------------------ events
    def kinds(self):
        """(name, event, description): every kind of event, with everything in it arbitrary"""
        S = self.S
        out = []
        top = lambda f, v: S.set(MsgVal(EVT), f, v)
        sym = lambda c: S.symbolic(EVT + '_' + c, c)

        def sub_(t, c, f, cls):
            m = sym(c)
            return top(t, S.set(m, f, S.symbolic(EVT + '_' + cls, cls)))
        out.append(('board exchange', sub_('board', 'Board', 'exchange', 'Board_Exchange')))
        out.append(('board state', sub_('board', 'Board', 'state', 'Board_State')))
        for f, c in (('add', 'Add'), ('exchange', 'Exchange'), ('move', 'Move'), ('remove', 'Remove'), ('shuffle', 'Shuffle')):
            out.append(('card ' + f, sub_('card', 'Card', f, 'Card_' + c)))
        out.append(('chain push', top('chain_stack', S.set(MsgVal(EVT + '_ChainStack'), 'push', S.symbolic(CHAIN, 'push')))))
        out.append(('chain pop', top('chain_stack', S.set(MsgVal(EVT + '_ChainStack'), 'pop', z3.Bool('pop')))))
        out.append(('next turn', top('next_turn', z3.BitVec('next_turn', 32))))
        for f in ('become', 'damage', 'pay', 'recover'):
            m = S.set(S.set(MsgVal(EVT + '_LP'), 'controller', z3.BitVec('who', 32)), f, z3.BitVec('amount', 32))
            out.append(('lp ' + f, top('lp', m)))
        out.append(('next phase', top('next_phase', z3.BitVec('next_phase', 32))))
        for f, c in (('exchange', 'Exchange'), ('resize', 'Resize'), ('splice', 'Splice')):
            out.append(('pile ' + f, sub_('pile', 'Pile', f, 'Pile_' + c)))
        out.append(('zone block', top('zone_block', sym('ZoneBlock'))))
        for f, c in (('finish', 'Finish'), ('meta', 'Meta'), ('result', 'Result')):
            out.append((f, top(f, sym(c))))
        # events without a kind, and parts without a kind
        out.append(('nothing', MsgVal(EVT)))
        for f, c in (('board', 'Board'), ('card', 'Card'), ('chain_stack', 'ChainStack'), ('pile', 'Pile')):
            out.append((f + ' without a kind', top(f, MsgVal(EVT + '_' + c))))
        return out

    def parts(self, name, e):
        """(frame log, board: field -> specification)"""
        S = self.S
        L = Log(self)
        get = S.get
        ops = lambda m: S.rawget(m, 'ops')
        places = lambda m: S.rawget(m, 'places')
        one = lambda p, i: (p,)
        ab = lambda o, i: (get(o, 'place_a'), get(o, 'place_b'))
        resize = lambda o, i: (get(o, 'place'), None, get(o, 'count'))
        B = {}
        a, _, b = name.partition(' ')
        if a == 'board' and b == 'exchange':
            x = get(get(e, 'board'), 'exchange')
            L.each(ops(get(x, 'resize')), RESIZE, resize)
            L.each(places(get(x, 'remove')), REMOVE, one)
            L.each(places(get(x, 'add')), ADD, one)
        elif a == 'board' and b == 'state':
            x = get(get(e, 'board'), 'state')
            t = get(x, 'turn_counter')
            B['turn'] = lambda v: ite(bit(t, 31), v, t, 32)
            lps = S.rawget(x, 'lps')
            B['lp0'] = lambda v: lps.at(0)
            B['lp1'] = lambda v: lps.at(1)
            B['chains'] = S.rawget(x, 'chains')
            L.one(CLEAR)
            L.each(places(get(x, 'add')), ADD, one)
            L.each(ops(get(x, 'resize')), RESIZE, resize)
        elif a == 'card':
            x = get(e, 'card')
            if b in ('add', 'remove'):
                L.each(places(get(x, b)), ADD if b == 'add' else REMOVE, one)
            elif b == 'exchange':
                L.each(ops(get(x, b)), SWAP, ab)
            elif b == 'move':
                L.each(ops(get(x, b)), MOVE, lambda o, i: (get(o, 'old_place'), get(o, 'new_place')))
            elif b == 'shuffle':
                m = get(x, b)
                p, q = S.rawget(m, 'previous_places'), S.rawget(m, 'current_places')
                L.one(SHUFFLE, n=trunc(p.len, 64, 32))
                L.each(p, SHUFFLED, lambda o, i: (o, q.at(i)))
        elif a == 'pile':
            x = get(e, 'pile')
            if b == 'exchange':
                L.each(ops(get(x, b)), PSWAP, ab)
            elif b == 'resize':
                L.each(ops(get(x, b)), RESIZE, resize)
            elif b == 'splice':
                L.each(ops(get(x, b)), SPLICE, lambda o, i: (get(o, 'from'), get(o, 'to'), get(o, 'count'), get(o, 'reverse')))
        elif name == 'next turn':
            B['turn'] = lambda v: add(v, 1, 32)
            B['controller'] = lambda v: get(e, 'next_turn')
        elif name == 'next phase':
            B['phase'] = lambda v: get(e, 'next_phase')
        elif a == 'lp':
            x = get(e, 'lp')
            w, n = get(x, 'controller'), get(x, b)

            def lp(v):
                if b == 'become':
                    return n
                if b == 'recover':
                    return add(v, n, 32)
                return ite(ult(v, n, 32), 0, sub(v, n, 32), 32)
            for k in (0, 1):
                B['lp%d' % k] = lambda v, k=k: ite(eq(w, k, 32), lp(v), v, 32)
        elif name == 'zone block':
            B['blocked'] = S.rawget(get(e, 'zone_block'), 'zones')
        elif name == 'chain push':
            B['push'] = get(get(e, 'chain_stack'), 'push')
        elif name == 'chain pop':
            B['pop'] = True
        return L, B

    def pre(self, name, e):
        S = self.S
        pre = []
        if name == 'board state':
            pre.append(eq(S.rawget(S.get(S.get(e, 'board'), 'state'), 'lps').len, 2, 64))
        if name.startswith('lp'):
            pre.append(ult(S.get(S.get(e, 'lp'), 'controller'), 2, 32))
        if name == 'card shuffle':
            m = S.get(S.get(e, 'card'), 'shuffle')
            pre.append(eq(S.rawget(m, 'previous_places').len, S.rawget(m, 'current_places').len, 64))
        return pre

    def prove_log(self, E, s, which, L, name):
        prove_seq(E, self.S, s, s.ghost[which + '.kind'], L.kind, name + ': the operations')
        prove_seq(E, self.S, s, s.ghost[which + '.arg'], L.arg, name + ': their arguments')


class C10(BoardCheck):
    prop = 'C10'
    explain = ('parse_event runs over its real IR and the real BasicBoard for every kind of event with all lists of any length and all values arbitrary; '
               'the operations it performs on the frame are proved to be those the event lists, in order, with their arguments, and each value and list of the board is proved to be what the event says or unchanged.')

    def units(self):
        self.setup()
        return [(n, lambda r, n=n, e=e: self.apply(r, n, e)) for n, e in self.kinds() if self.wanted(n)]

    def wanted(self, n):
        return True

    def apply(self, r, name, e):
        E, st = self.start(False, e, self.pre(name, e))
        S = self.S
        r.need_cover(E.feasible(st), 'an event of this kind')
        L, B = self.parts(name, e)
        res = E.call(st, 'd_parse', [self.board, self.event])
        r.need_cover(bool(res), 'an execution')
        for s, _ in res:
            self.prove_log(E, s, 'frame', L, 'frame')
            for f in VALUES:
                want = B[f](self.v0[f]) if f in B else self.v0[f]
                E.oblige(s, eq(self.val(E, s, f), want, 32), 'board.%s %s' % (f, 'is what the event says' if f in B else 'is unchanged'), 'post')
            ch = Log(self)
            elts = s_empty(Elt('msg', 64, CHAIN, 64))
            if 'chains' in B:
                ch.one(ASSIGN)
                elts = B['chains']
            elif 'push' in B:
                ch.one(PUSH)
                elts = SList(elts.elt, [B['push']])
            elif 'pop' in B:
                ch.one(POP)
            bl, bz = Log(self), Log(self)
            if 'blocked' in B:
                bz.one(ASSIGN)
                bl.each(B['blocked'], ELEMENT, lambda p, i: (p,))
            self.prove_log(E, s, 'chains', ch, 'chain stack')
            self.prove_log(E, s, 'blocked', bz, 'blocked zones')
            self.prove_log(E, s, 'blocked*', bl, 'blocked zones, each')
            prove_seq(E, S, s, s.ghost['chain'], elts, 'chain stack')
        r.take(E)


class C30(C10):
    prop = 'C30'
    explain = ('parse_event runs over its real IR and the real BasicBoard for a life point event with an arbitrary amount, current value and player: '
               'the new value is proved to be the given one, the sum, or the difference stopping at zero, and every other part of the board unchanged.')

    def wanted(self, n):
        return n.startswith('lp ')


def inverse(k, undo_kinds=(ADD, REMOVE, RESIZE, CLEAR, SHUFFLE, SHUFFLED)):
    r = k
    for u in undo_kinds:
        r = ite(eq(k, u, 32), UNDO + u, r, 32)
    return r


class C11(BoardCheck):
    prop = 'C11'
    explain = ('parse_event and then undo_parse_event run over their real IR on the same event, for every kind of event with all lists of any length and all values arbitrary; '
               'the operations undoing performs on the frame are proved to be the inverses of those applying performed, in reverse order with matching arguments, and each value and list of the board is undone exactly as often as it was set; a lemma over the contracts of card_move, card_swap, pile_splice and pile_swap shows that each and its inverse restore the frame.')

    def units(self):
        self.setup()
        us = []
        for n, e in self.kinds():
            if n.startswith('lp '):
                us += [('%s of player %d' % (n, k), lambda r, n=n, e=self.S.set(e, 'lp', self.S.set(self.S.get(e, 'lp'), 'controller', k)): self.undo_of(r, n, e)) for k in (0, 1)]
            else:
                us.append((n, lambda r, n=n, e=e: self.undo_of(r, n, e)))
        us.append(('an operation and its inverse', self.there_and_back))
        return us

    def there_and_back(self, r):
        """lemma over the contracts of C03, C04 and C06: what undoing performs for a move, swap, splice or exchange of
        piles can be performed after it, and gives the frame before it. One slot of each relation of two places."""
        E = self.engine()
        S = self.S
        st0 = eng.State()
        slots = [Slot(*a) for a in (('pile', 0, PILE_KEYS[0][1]), ('pile', 1, PILE_KEYS[1][1]), ('zone', *ZONE_KEYS[0]), ('zone', *ZONE_KEYS[1]), ('mat', *ZONE_KEYS[0]), ('mat', *ZONE_KEYS[1]))]

        def seq(name):
            ln = z3.BitVec('len ' + name, 64)
            st0.assume(z3.ULT(ln, bv(MAXLEN, 64)))
            fn = z3.Function('at ' + name, z3.BitVecSort(64), z3.BitVecSort(64))
            return SBase(PTRELT, name, ln, lambda i: nz(fn(bv(i, 64))))
        F = Field({}, {}, {})
        for s in slots:
            if s.kind == 'pile':
                F.piles[s.key] = seq(str(s))
            elif s.kind == 'zone':
                F.cards[s.key] = z3.BitVec('card ' + str(s), 64)
                F.mats[s.key] = seq('mats ' + str(s))

        def index(s, name):
            return 0 if s.kind == 'zone' else zext(z3.Extract(30, 0, z3.BitVec(name, 32)), 31, 64)

        def same(st, G, what):
            for k in F.piles:
                prove_seq(E, S, st, G.piles[k], F.piles[k], '%s: %s' % (what, Slot('pile', *k)), 'post')
            for k in F.cards:
                E.oblige(st, eq(G.cards[k], F.cards[k]), '%s: card of %s' % (what, Slot('zone', *k)), 'post')
                prove_seq(E, S, st, G.mats[k], F.mats[k], '%s: materials of %s' % (what, Slot('zone', *k)), 'post')

        def move(W, a, i, b, j):
            c = W.erase(a, i)
            pre = []
            if a.kind == 'zone' and b.kind == 'zone':
                pre.append(eq(W.mats[b.key].len, 0))
                W.mats[a.key], W.mats[b.key] = W.mats[b.key], W.mats[a.key]
            pre.append(W.can_insert(b, j))
            W.insert(b, j, c)
            return pre
        n = 0
        for a in slots:
            for b in slots:
                i, j = index(a, 'i'), index(b, 'j')
                if not (a.kind == 'zone' and b.kind == 'zone' and a.key == b.key):
                    st, W = st0.copy(), F.copy()
                    st.assume(tob(F.has(a, i)))
                    for c in move(W, a, i, b, j):
                        st.assume(tob(c))
                    if E.feasible(st):
                        n += 1
                        what = 'moving from %s to %s and back' % (a, b)
                        E.oblige(st, W.has(b, j), what + ': there is a card to move back', 'precondition')
                        for c in move(W, b, j, a, i):
                            E.oblige(st, c, what + ': it can be put back', 'precondition')
                        same(st, W, what)
                st, W = st0.copy(), F.copy()
                st.assume(tob(F.has(a, i)))
                st.assume(tob(F.has(b, j)))
                for x, y in ((a, b), (b, a)):
                    if x.kind == 'zone' and y.kind == 'pile':
                        st.assume(tob(eq(F.mats[x.key].len, 0)))
                if E.feasible(st):
                    n += 1
                    for k in range(2):
                        x, y = W.at(a, i), W.at(b, j)
                        W.put(a, i, y)
                        W.put(b, j, x)
                        if a.kind == 'zone' and b.kind == 'zone':
                            W.mats[a.key], W.mats[b.key] = W.mats[b.key], W.mats[a.key]
                    same(st, W, 'swapping %s and %s twice' % (a, b))
                if a.kind == b.kind == 'pile':
                    m = z3.ZeroExt(33, z3.BitVec('count', 31))
                    for rv in (0, 1):
                        # three steps: the cards taken back are those taken, the rest is what was left, and putting
                        # them back where they came from gives what was there
                        st = st0.copy()
                        src = F.piles[a.key]
                        t = s_slice(src, i, m)
                        left = s_erase(src, i, m)
                        dst = left if a.key == b.key else F.piles[b.key]
                        for c in (ule(m, src.len), ule(add(i, m), src.len), ule(j, dst.len)):
                            st.assume(tob(c))
                        n += 1
                        what = 'splicing from %s to %s%s and back' % (a, b, ' reversed' if rv else '')
                        put = SRev(t) if rv else t
                        there = s_insert(dst, j, put)
                        for c in (ule(m, there.len), ule(add(j, m), there.len)):
                            E.oblige(st, c, what + ': there are as many cards to take back', 'precondition')
                        prove_seq(E, S, st, s_slice(there, j, m), put, what + ': the cards taken back', 'post')
                        prove_seq(E, S, st, s_erase(there, j, m), dst, what + ': what is left without them', 'post')
                        E.oblige(st, ule(i, left.len), what + ': they can be put back', 'precondition')
                        if rv:
                            prove_seq(E, S, st, SRev(put), t, what + ': their order', 'post')
                        prove_seq(E, S, st, s_insert(left, i, t), src, what + ': put back', 'post')
                    W = F.copy()
                    for k in range(2):
                        W.piles[a.key], W.piles[b.key] = W.piles[b.key], W.piles[a.key]
                    same(st0.copy(), W, 'exchanging %s and %s twice' % (a, b))
        r.need_cover(n > 70, 'the relations of two places')
        r.take(E)

    def undo_of(self, r, name, e):
        E, st = self.start(True, e, self.pre(name, e))
        S = self.S
        r.need_cover(E.feasible(st), 'an event of this kind')
        res = []
        for s, _ in E.call(st, 'd_uparse', [self.board, self.event]):
            done = {k: v for k, v in s.ghost.items()}
            self.clear(s)
            res += [(t, done) for t, _ in E.call(s, 'd_undo', [self.board, self.event])]
        r.need_cover(bool(res), 'an execution')

        for t, done in res:
            for f in FIELDS:
                k, a = done[f + '.kind'], done[f + '.arg']
                kk, aa = t.ghost[f + '.kind'], t.ghost[f + '.arg']
                if f != 'frame':
                    # a value or list: once undone for each time it was set
                    E.oblige(t, eq(kk.len, k.len, 64), '%s: undone as often as it was changed' % f, 'post')
                    n = Map(I32, rev(k), lambda x, i: add(x, UNDO, 32))
                    prove_seq(E, S, t, kk, n, f + ': what is undone')
                    continue
                one = name == 'card shuffle'
                rv = (lambda s_: s_) if one else rev
                prove_seq(E, S, t, kk, self.mapped(rv(k), I32, lambda x, i: inverse(x)), 'frame: the inverse operations in reverse order')
                self.prove_args(E, t, kk, aa, rv(k), rv(a))
            prove_seq(E, S, t, t.ghost['chain'] if name == 'chain push' else s_empty(t.ghost['chain'].elt), done['chain'] if name == 'chain push' else s_empty(t.ghost['chain'].elt), 'chain stack')
        r.take(E)

    def mapped(self, s, elt, fn):
        if isinstance(s, SCat):
            return s_cat(self.mapped(s.a, elt, fn), self.mapped(s.b, elt, fn))
        return Map(elt, s, fn)

    def prove_args(self, E, t, kk, aa, k, a):
        """the arguments of the inverse operations"""
        S = self.S
        want = []
        for pk, pa in zip(parts(k), parts(a)):
            if not E.valid(t, eq(pk.len, pa.len, 64)):
                raise ToolLimit('log of different shapes')
            i = E.fresh('j', 64)
            x = pk.at(i)
            t2 = t.copy()
            t2.assume(tob(ult(i, pk.len, 64)))
            if not E.feasible(t2):
                continue
            turn = b_or(eq(x, MOVE, 32), eq(x, SPLICE, 32))
            if E.valid(t2, turn):
                want.append(Map(self.aelt, pa, lambda m, i: S.set(S.set(m, 'from', S.get(m, 'to')), 'to', S.get(m, 'from'))))
            elif E.valid(t2, b_not(turn)):
                want.append(pa)
            else:
                raise ToolLimit('operations of different kinds in one loop')
        w = s_empty(self.aelt)
        for p in want:
            w = s_cat(w, p)
        prove_seq(E, S, t, aa, w, 'frame: the arguments of the inverse operations')


CHECKS = {'C10': C10, 'C11': C11, 'C30': C30}
