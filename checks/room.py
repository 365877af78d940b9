"""C25-C28: the server room (server/room.hpp)."""
import itertools
import z3
from .base import *
from irv.val import *
from irv.sets import Sets
from irv import loop as irv_loop
from .specs import *

PTRELT = stl.PTRELT
RM = 'YGOpen::Proto::Room::'
EV = RM + 'Event'
HOST_CHOOSES, RPS, DICE, COIN = range(4)
MAXPOS = 3


def nz(t):
    return z3.If(t == 0, bv(1, 64), t)


class Room:
    """abstract room: what the specifications speak about"""

    def __init__(self, caps):
        self.caps = caps
        self.slots = {}          # (team, pos) -> (client, valid, ready, deck); client 0: empty

    def copy(self):
        r = Room(self.caps)
        r.slots = dict(self.slots)
        r.opts, r.host, r.spec = self.opts, self.host, self.spec
        return r

    def seated(self):
        return [k for k in sorted(self.slots) if not (isc(self.slots[k][0]) and self.slots[k][0] == 0)]


class RoomCheck(Check):
    trusted = ['std::set of pointers (irv/sets.py): different elements in an unknown order',
               'clients: send receives the event as it is at the call; fill_user writes any user of the client; '
               'the deck validator gives any verdict and any error; the generator gives any number',
               'protobuf accessor contracts (irv/pb.py); std::array and std::variant are the real code']
    assumptions = ['clients in the room are different and not null, the host is one of the duelists, a client enters once', 'fewer than 2^31 spectators']

    def native_build(self):
        return self.ctx.work.exe(['n_room.cpp'], 'n_room', pbs=('room', 'deck', 'user', 'banlist'))

    assumed = False

    # ------------------------------------------------------------ model
    def setup(self):
        self.S = self.ctx.schema()
        self.mod = self.ctx.mod('room.cpp')
        E = self.engine()
        st = eng.State()
        o = Ptr(E.new_obj(st, None, 'room'))

        def one(fn, *a):
            r = E.call(st, fn, list(a))
            if len(r) != 1:
                raise ToolLimit(fn)
            return r[0][1]
        off = lambda fn: one(fn, o).off
        self.size = one('d_size')
        self.ssize = one('d_slot_size')
        self.dsize = one('d_deck_size')
        self.osize = one('d_opts_size')
        self.o_opts, self.o_host, self.o_spec = off('d_options'), off('d_host'), off('d_spectators')
        self.o_arena, self.o_val = off('d_arena'), off('d_validator')
        self.o_slot = {(t, p): one('d_slot', o, t, p).off for t in range(2) for p in range(MAXPOS)}
        s = Ptr(E.new_obj(st, None, 'slot'))
        self.o_client, self.o_deck = one('d_slot_client', s).off, one('d_slot_deck', s).off

    def engine(self):
        S = self.S

        def entering(E, st, a, ins):
            # C27 verifies the body: it tells clients about the phase and leaves the room as it is
            return None

        def send(E, st, a, ins):
            st.ghost['to'] = s_append(st.ghost['to'], a[0])
            st.ghost['ev'] = s_append(st.ghost['ev'], E.getv(st, a[1]))

        def fill(E, st, a, ins):
            E.setv(st, a[1], self.user(a[0]))

        def check(E, st, a, ins):
            # this, string_view (length, data), deck, error
            st.ghost['deck'] = s_append(st.ghost['deck'], E.getv(st, a[3]))
            st.ghost['list'] = s_append(st.ghost['list'], E.getv(st, a[2]).t)
            v = z3.Bool('verdict')
            E.setv(st, a[4], S.symbolic(S.cls('DeckError'), 'deck_error'))
            return v

        def rng(E, st, a, ins):
            return E.fresh('random', 32)

        def view(E, st, a, ins):
            return (E.fresh('length', 64), a[0])

        def die(E, st, a, ins):
            E.oblige(st, 0, 'abort is not reached in ' + E.where(), 'memory')
            return []
        named = stl.Named((self.assumed and [(r'::on_enter_state_\(.*::DecidingFirstTurn&\)$', entering)] or []) + [(r'^Client::send\(', send), (r'^Client::fill_user\(', fill), (r'^Validator::check\(', check), (r'^RNG::operator\(\)', rng),
                           (r'basic_string<.*::operator std::basic_string_view', view), (r'^google::protobuf::Arena::~?Arena\(', lambda E, st, a, ins: None),
                           (r'google::protobuf::internal::ThreadSafeArena::', lambda E, st, a, ins: None)])
        self.sets = Sets(lambda E, st, s, x: self.absent(E, st, x))
        E = self.ctx.engine(self.mod, stl.Chain(named, self.sets, pbm.PbContracts(S), stl.StlContracts(S)))
        # seats are few: loops over them are unrolled to the end, loops over the spectators are summarised
        E.no_summary = lambda fn, header: not any('_Rb_tree' in c for c in self.calls(fn, fn.loops[header]))
        return E

    def calls(self, f, blocks):
        out = []
        for b in blocks:
            for i in f.blocks[b]:
                if i.op in ('call', 'invoke') and i.a[1][0] == 'glob':
                    out.append(i.a[1][1])
        return out

    def reaches_rng(self, fn, seen):
        """does the function call the generator?"""
        if fn in seen:
            return False
        seen.add(fn)
        f = self.mod.func(fn)
        d = self.mod.dem.get(fn, fn)
        if d.startswith('RNG::operator()'):
            return True
        if f is None or not getattr(f, 'blocks', None):
            return False
        return any(self.reaches_rng(c, seen) for c in self.calls(f, f.blocks))

    def loop_rule(self, E, judge=True):
        def rule(fn, header, st, regs):
            if any(self.reaches_rng(c, set()) for c in self.calls(fn, fn.loops[header])):
                self.rules.append(Ties(E, self.S, judge))
                return self.rules[-1]
            return None
        return rule

    def absent(self, E, st, x):
        return any(val_is(x, y) for y in self.unseen)

    def user(self, c):
        return self.S.symbolic(self.S.cls('User'), 'user', (c,))

    def ghost0(self, st):
        S = self.S
        st.ghost['to'] = s_empty(PTRELT)
        st.ghost['ev'] = s_empty(Elt('msg', None, EV, 40))
        st.ghost['deck'] = s_empty(Elt('msg', None, S.cls('Deck'), 40))
        st.ghost['list'] = s_empty(Elt('i', 64, None, 8))

    # ------------------------------------------------------------ arbitrary rooms
    def room(self, caps, occ, state=1, ready=None):
        """any room of this shape; occ: set of occupied (team, pos)"""
        S = self.S
        E = self.engine()
        st = eng.State()
        self.ghost0(st)
        R = Room(caps)
        o = Ptr(E.new_obj(st, None, 'room'))
        self.o = o
        self.peer = z3.BitVec('peer', 64)
        st.assume(self.peer != 0)
        self.unseen = [self.peer]
        cs = []
        for k, off in self.o_slot.items():
            n = '%d%d' % k
            if k in occ:
                c = z3.BitVec('client' + n, 64)
                st.assume(z3.And([c != 0] + [c != x for x in cs]))
                cs.append(c)
                v, w = [z3.Bool(x + n) for x in ('valid', 'ready')] if ready is None else (ready, ready)
                d = S.symbolic(S.cls('Deck'), 'deck' + n)
            else:
                c, v, w, d = 0, 0, 0, MsgVal(S.cls('Deck'))
            R.slots[k] = (c, v, w, d)
            E.setv_raw(st, Ptr(o.obj, off + self.o_client), 8, c)
            # everything else in a seat is flags, wherever the class keeps them
            for b in range(self.ssize):
                if not self.o_client <= b < self.o_client + 8 and not self.o_deck <= b < self.o_deck + self.dsize:
                    E.setv_raw(st, Ptr(o.obj, off + b), 1, 0)
            E.setv_raw(st, Ptr(o.obj, off + self.o_deck), self.dsize, d)
            r = E.call(st, 'd_slot_set', [Ptr(o.obj, off), v, w])
            if len(r) != 1:
                raise ToolLimit('flags of a seat')
            st = r[0][0]
        R.opts = S.set(S.symbolic(RM + 'Options', 'options'), 'max_duelists', SList(S.elt(S.fld(RM + 'Options', 'max_duelists')), list(caps)))
        E.setv_raw(st, Ptr(o.obj, self.o_opts), self.osize, R.opts)
        R.host = z3.BitVec('host', 64)
        st.assume(z3.Or([R.host == c for c in cs]))
        E.setv_raw(st, Ptr(o.obj, self.o_host), 8, R.host)
        f = z3.Function('spectator', z3.BitVecSort(64), z3.BitVecSort(64))
        n = z3.BitVec('spectators', 64)
        st.assume(z3.ULT(n, bv(1 << 31, 64)))
        R.spec = SBase(PTRELT, 'spectators', n, lambda i: f(bv(i, 64)))
        self.sets.init(E, st, Ptr(o.obj, self.o_spec), R.spec)
        E.setv_raw(st, Ptr(o.obj, self.o_val), 8, Ptr(E.new_obj(st, None, 'validator')))
        r = E.call(st, 'd_set_conf' if state == 1 else 'd_set_dft', [o])
        if len(r) != 1:
            raise ToolLimit('state of the room')
        st = r[0][0]
        E.obs = []
        return E, st, R

    def read(self, E, st):
        """the room in memory"""
        S = self.S
        R = Room(None)
        o = self.o
        for k, off in self.o_slot.items():
            p = Ptr(o.obj, off)
            c = E.load(st, Ptr(o.obj, off + self.o_client), ('ptr',))
            fl = []
            for fn in ('d_slot_valid', 'd_slot_ready'):
                r = E.call(st.copy(), fn, [p])
                if len(r) != 1:
                    raise ToolLimit('flags of a seat')
                fl.append(r[0][1])
            R.slots[k] = (c, fl[0], fl[1], E.getv(st, Ptr(o.obj, off + self.o_deck)))
        R.opts = E.getv(st, Ptr(o.obj, self.o_opts))
        R.host = E.load(st, Ptr(o.obj, self.o_host), ('ptr',))
        R.spec = self.sets.seq(E, st, Ptr(o.obj, self.o_spec))
        r = E.call(st.copy(), 'd_state', [o])
        if len(r) != 1:
            raise ToolLimit('state of the room')
        R.state = r[0][1]
        return R

    def prove_room(self, E, st, W, what, state=None, extra=None):
        """the room in memory is W (extra: one more spectator, anywhere)"""
        G = self.read(E, st)
        for k in sorted(W.slots):
            for n, a, b in zip(('client', 'deck_valid', 'ready'), G.slots[k], W.slots[k]):
                E.oblige(st, val_eq(None, a, b, 64 if n == 'client' else 1), '%s: %s of seat %d of team %d' % (what, n, k[1], k[0]), 'post')
            a, b = G.slots[k][3], W.slots[k][3]
            if b is not None:
                prove_msg(E, self.S, st, a, b, '%s: deck of seat %d of team %d' % (what, k[1], k[0]))
        prove_msg(E, self.S, st, G.opts, W.opts, what + ': options')
        E.oblige(st, val_eq(None, G.host, W.host), what + ': host', 'post')
        if extra is None:
            prove_seq(E, self.S, st, G.spec, W.spec, what + ': spectators')
        else:
            self.inserted(E, st, G.spec, W.spec, extra, what + ': spectators')
        if state is not None:
            E.oblige(st, eq(G.state, state), what + ': state of the room', 'post')
        return G

    def inserted(self, E, st, got, old, x, what):
        """got is old with x at some place"""
        for s, q in settled(E, st, got):
            at, pos = None, 0
            for p in parts(q):
                if isinstance(p, SList):
                    for n, y in enumerate(p.els):
                        if at is None and E.valid(s, val_eq(None, y, x)):
                            at = add(pos, n)
                pos = add(pos, p.len)
            E.oblige(s, 0 if at is None else 1, what + ': the newcomer is one', 'post')
            if at is not None:
                rest = s_cat(s_slice(q, 0, at), s_slice(q, add(at, 1), sub(q.len, add(at, 1))))
                prove_seq(E, self.S, s, rest, old, what + ': the others')

    # ------------------------------------------------------------ events
    def everyone(self, W):
        """parts: each seated client, the spectators"""
        return [W.slots[k][0] for k in W.seated()] + [W.spec]

    def prove_reached(self, E, st, to, want, what):
        """sequence `to` lists each of `want` (clients; sequences of clients) exactly once, in whatever order"""
        for s, q in settled(E, st, to):
            self.reached(E, s, q, want, what)

    def reached(self, E, st, to, want, what):
        got = []
        for p in parts(to):
            if isinstance(p, SList):
                got += p.els
            else:
                got.append(p)
        E.oblige(st, eq(to.len, sum_len(want)), what + ': as many as there are', 'post')
        missing = 0
        for w in [x for x in want if not isinstance(x, Seq)]:
            one = [n for n, x in enumerate(got) if not isinstance(x, Seq)]
            hit = [n for n in one if val_is(got[n], w)] or [n for n in one if E.valid(st, val_eq(None, got[n], w))]
            if hit:
                got.pop(hit[0])
            else:
                missing += 1
        E.oblige(st, 1 if not missing else 0, what + ': every duelist', 'post')
        rest, run = s_empty(PTRELT), s_empty(PTRELT)
        for x in got:
            rest = s_cat(rest, x) if isinstance(x, Seq) else s_append(rest, x)
        for w in want:
            if isinstance(w, Seq):
                run = s_cat(run, w)
        prove_seq(E, self.S, st, rest, run, what + ': the spectators, and nobody twice')

    def prove_events(self, E, st, at, n, msg, what, upto=None):
        """n messages from index at on are all `msg`"""
        ev = st.ghost['ev']
        self.each(E, st, ev if isc(at) and at == 0 else window(E, st, ev, at, n), msg, what)

    def each(self, E, st, q, msg, what):
        """every element of the sequence is the message"""
        for s, q in settled(E, st, q):
            for p in parts(q):
                if isinstance(p, SList):
                    for x in p.els:
                        prove_msg(E, self.S, s, x, msg, what)
                else:
                    i = E.fresh('i', 64)
                    s2 = s.copy()
                    s2.assume(tob(ult(i, p.len)))
                    if E.feasible(s2):
                        prove_msg(E, self.S, s2, p.at(i), msg, what + ' [any]')

    def conf(self, **kw):
        S = self.S
        return S.make(EV, configuring=S.make(EV + '_Configuring', **kw))

    def dft(self, **kw):
        S = self.S
        return S.make(EV, deciding_first_turn=S.make(EV + '_DecidingFirstTurn', **kw))

    def duelist(self, k, R, c, ready):
        return self.S.make(RM + 'Duelist', team=k[0], pos=k[1], user=self.user(c), is_host=eq(R.host, c), is_ready=ready)

    def prove_silence(self, E, st, what):
        E.oblige(st, eq(st.ghost['to'].len, 0), what + ': nobody is told anything', 'post')


def val_is(a, b):
    if a is b:
        return True
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        return a.eq(b)
    return isc(a) and isc(b) and a == b


def sum_len(xs):
    n = 0
    for x in xs:
        n = add(n, x.len if isinstance(x, Seq) else 1)
    return n


def shapes(nonempty=False):
    """capacities and occupations"""
    out = []
    for m0 in range(1, 4):
        for m1 in range(1, 4):
            cells = [(0, p) for p in range(m0)] + [(1, p) for p in range(m1)]
            for bits in range(1, 1 << len(cells)):
                occ = {c for n, c in enumerate(cells) if bits >> n & 1}
                if nonempty and len({c[0] for c in occ}) < 2:
                    continue
                out.append(((m0, m1), occ))
    return out


def seat_for(caps, occ):
    cnt = [len([c for c in occ if c[0] == t]) for t in (0, 1)]
    free = [next((p for p in range(caps[t]) if (t, p) not in occ), None) for t in (0, 1)]
    if free[0] is None and free[1] is None:
        return None
    t = 0 if cnt[0] <= cnt[1] else 1
    if free[t] is None:
        t = 1 - t
    return t, free[t]


def groups(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


class Enter(RoomCheck):
    def units(self):
        self.setup()
        us = [('enter %d' % n, lambda r, g=g: [self.enter(r, *x) for x in g]) for n, g in enumerate(groups(shapes(), 16))]
        return us + [('construct', self.construct)]

    def enter(self, r, caps, occ):
        E, st, R = self.room(caps, occ)
        st.assume(z3.And([self.peer != R.slots[k][0] for k in R.seated()]))
        what = 'entering %s %s' % (caps, ''.join('%d%d ' % k for k in sorted(occ)))
        r.need_cover(E.feasible(st), what)
        rets = E.call(st, 'd_enter', [self.o, self.peer])
        r.need_cover(len(rets) > 0, what + ' returns')
        k = seat_for(caps, occ)
        for s, v in rets:
            self.entered(E, s, R, k, what)
        r.take(E)

    def entered(self, E, s, R, k, what):
        raise NotImplementedError

    def construct(self, r):
        """the constructor: any options; the host takes the first seat of the first team"""
        S = self.S
        E = self.engine()
        st = eng.State()
        self.ghost0(st)
        self.o = Ptr(E.new_obj(st, None, 'room'))
        self.peer = nz(z3.BitVec('peer', 64))
        self.unseen = [self.peer]
        opts = S.symbolic(RM + 'Options', 'options')
        po = Ptr(E.new_obj(st, None, 'options'))
        E.setv_raw(st, po, self.osize, opts)
        a = [Ptr(E.new_obj(st, None, n)) for n in ('validator', 'factory', 'rng')]
        E.setv_raw(st, a[2], 8, 0)
        rets = E.call(st, 'd_ctor', [self.o] + a + [self.peer, po])
        r.need_cover(len(rets) > 0, 'constructor returns')
        md = S.get(opts, 'max_duelists')
        for s, v in rets:
            W = Room(None)
            clamp = lambda x: ite(ult(x, 1, 32), 1, ite(ult(3, x, 32), 3, x, 32), 32)
            caps = [ite(ult(t, md.len), clamp(md.at(t)), 1, 32) for t in (0, 1)]
            W.opts = S.set(opts, 'max_duelists', SList(md.elt, caps))
            W.host = self.peer
            W.spec = s_empty(PTRELT)
            for k in self.o_slot:
                W.slots[k] = (0, 0, 0, None)
            self.constructed(E, s, W)
        r.take(E)


class C25(Enter):
    prop = 'C25'
    explain = ('enter() from every capacity (1..3 per team) and every occupation of the seats, with arbitrary clients, flags, decks, host and spectators: the newcomer gets the seat of the specification (fewer duelists, first team on a tie, other '
               'team when full) or becomes a spectator exactly when both teams are full, and every other seat, flag, deck, spectator and the options keep their value. The constructor, for options of any kind and any number of capacities, '
               'leaves capacities 1..3 for exactly two teams and seats the host; together an induction over histories of the room.')

    def entered(self, E, s, R, k, what):
        W = R.copy()
        if k is not None:
            W.slots[k] = (self.peer, 0, 0, None)
            self.prove_room(E, s, W, what, 1)
        else:
            self.prove_room(E, s, W, what, 1, extra=self.peer)

    def constructed(self, E, s, W):
        W.slots[0, 0] = (self.peer, 0, 0, None)
        self.prove_room(E, s, W, 'constructor', 1)


class C28(Enter):
    prop = 'C28'
    explain = ('enter() from every capacity and occupation with arbitrary clients, flags, host and any number of spectators: the newcomer first receives the snapshot of the room as it was, then every client of the room, the newcomer included, receives exactly '
               'one event saying which seat was taken or how many spectators there are. Readiness changes: exactly one event to each client, with the seat and the flags. Sending to the spectators is a loop summarised for any number of them.')

    def units(self):
        us = Enter.units(self)
        self.sig = Signals(self)
        return us + [('ready %d' % n, lambda r, g=g: [self.sig.run(r, 'ready_status', self.announced, *x) for x in g]) for n, g in enumerate(groups(shapes(), 16))]

    def snapshot(self, R, seats):
        S = self.S
        d = SList(Elt('msg', None, RM + 'Duelist', 8), [self.duelist(k, R, R.slots[k][0], R.slots[k][2]) for k in seats])
        return self.conf(entering_state=S.make(EV + '_Configuring_EnteringState', options=R.opts, duelists=d, spectator_count=trunc(R.spec.len, 64, 32)))

    def prove_snapshot(self, E, s, R, what):
        S = self.S
        to, ev = s.ghost['to'], s.ghost['ev']
        E.oblige(s, val_eq(None, to.at(0), self.peer), what + ': the newcomer is told first', 'post')
        got = ev.at(0)
        try:
            ds = S.get(S.get(S.get(got, 'configuring'), 'entering_state'), 'duelists')
            seats = [(S.get(d, 'team'), S.get(d, 'pos')) for d in ds.els]
            order = seats if sorted(seats) == R.seated() else R.seated()
        except Exception:
            order = R.seated()
        prove_msg(E, S, s, got, self.snapshot(R, order), what + ': snapshot')

    def prove_news(self, E, s, W, msg, what):
        to, ev = s.ghost['to'], s.ghost['ev']
        E.oblige(s, eq(to.len, ev.len), what + ': an event for each call', 'invariant')
        self.prove_reached(E, s, window(E, s, to, 1, sub(to.len, 1)), self.everyone(W), what + ': the change is told')
        self.prove_events(E, s, 1, sub(ev.len, 1), msg, what + ': event')

    def entered(self, E, s, R, k, what):
        S = self.S
        self.prove_snapshot(E, s, R, what)
        W = R.copy()
        if k is not None:
            W.slots[k] = (self.peer, 0, 0, None)
            msg = self.conf(duelist_enters=self.duelist(k, R, self.peer, 0))
        else:
            W.spec = self.read(E, s).spec
            self.inserted(E, s, W.spec, R.spec, self.peer, what + ': the spectators to be told')
            msg = S.make(EV, spectator_count=trunc(add(R.spec.len, 1), 64, 32))
        self.prove_news(E, s, W, msg, what)

    def constructed(self, E, s, W):
        self.prove_snapshot(E, s, W, 'constructor')
        msg = self.conf(duelist_enters=self.duelist((0, 0), W, self.peer, 0))
        W.slots[0, 0] = (self.peer, 0, 0, None)
        self.prove_news(E, s, W, msg, 'constructor')

    def announced(self, E, s, R, k, sig, what):
        """readiness signal of the client of seat k (None: of somebody else)"""
        S = self.S
        if k is None:
            return self.prove_silence(E, s, what)
        c, valid, ready, deck = R.slots[k]
        new = S.get(sig, 'ready_status')
        change = b_and(b_not(eq(new, ready, 1)), b_or(b_not(new), valid))
        a, b = s.copy(), s.copy()
        a.assume(tob(b_not(change)))
        if E.feasible(a):
            self.prove_silence(E, a, what + ': no change')
        b.assume(tob(change))
        if E.feasible(b):
            msg = self.conf(update_duelist=self.duelist(k, R, c, new))
            self.prove_reached(E, b, b.ghost['to'], self.everyone(R), what + ': the change is told')
            self.prove_events(E, b, 0, b.ghost['ev'].len, msg, what + ': event')


class Signals:
    """a signal of the configuring state, from anybody"""

    def __init__(self, chk):
        self.c = chk

    def run(self, r, kind, post, caps, occ):
        c = self.c
        S = c.S
        E, st, R = c.room(caps, occ)
        what0 = '%s %s %s' % (kind, caps, ''.join('%d%d ' % k for k in sorted(occ)))
        if kind is None:
            sig = S.symbolic(RM + 'Signal', 'signal')
            t = eq(S.case(sig, 't'), S.fld(sig.t, 'configuring').num, 32)
            u = eq(S.case(S.get(sig, 'configuring'), 't'), 0, 32)
            st.assume(tob(b_or(b_not(t), u)))
            inner = None
        else:
            inner = S.set(MsgVal(RM + 'Signal_Configuring'), kind, S.symbolic(S.cls('Deck'), 'deck') if kind == 'update_deck' else z3.Bool('flag'))
            sig = S.make(RM + 'Signal', configuring=inner)
        ps = Ptr(E.new_obj(st, None, 'signal'))
        E.setv_raw(st, ps, 40, sig)
        c.rules = []
        E.loop_rule = c.loop_rule(E, False)
        for k in [None] + R.seated():
            s0 = st.copy()
            if k is None:
                s0.assume(z3.And([c.peer != R.slots[x][0] for x in R.seated()]))
            else:
                s0.assume(c.peer == R.slots[k][0])
            if not E.feasible(s0):
                continue
            what = '%s by %s' % (what0, 'somebody else' if k is None else 'the duelist %d of team %d' % (k[1], k[0]))
            rets = E.call(s0, 'd_signal', [c.o, c.peer, ps])
            r.need_cover(len(rets) > 0, what + ' returns')
            for s, v in rets:
                post(E, s, R, k, inner, what)
        r.take(E)


class C26(RoomCheck):
    prop = 'C26'
    assumed = True
    explain = ('Every signal of the configuring state, sent by the client of every seat and by anybody else, from every capacity and occupation with arbitrary flags, decks, host, verdict and error of the validator: the seat flags, the decks, the state of the room and the '
               'events are those of the specification; everything else keeps its value. The room leaves the configuring state exactly when the host asks, both teams have a duelist and every duelist is ready with a valid deck.')

    def units(self):
        self.setup()
        self.sig = Signals(self)
        us = []
        for kind, fn in (('update_deck', self.deck), ('ready_status', self.ready), ('start_dueling', self.start), (None, self.other)):
            us += [('%s %d' % (kind, n), lambda r, g=g, kind=kind, fn=fn: [self.sig.run(r, kind, fn, *x) for x in g]) for n, g in enumerate(groups(shapes(), 8))]
        return us + [('first turn %s' % k, lambda r, k=k: self.elsewhere(r, k)) for k in ('update_deck', 'ready_status', 'start_dueling')]

    def deck(self, E, s, R, k, sig, what):
        S = self.S
        if k is None:
            self.prove_room(E, s, R, what, 1)
            return self.prove_silence(E, s, what)
        n = s.ghost['deck'].len
        E.oblige(s, eq(n, 1), what + ': the deck is judged once', 'post')
        if not (isc(n) and n == 1):
            return
        prove_msg(E, S, s, s.ghost['deck'].at(0), S.get(sig, 'update_deck'), what + ': the deck judged')
        E.oblige(s, eq(s.ghost['list'].at(0), S.get(R.opts, 'banlist_id').t), what + ': the banlist it is judged by', 'post')
        v = z3.Bool('verdict')
        for val in (1, 0):
            t = s.copy()
            t.assume(v if val else z3.Not(v))
            if not E.feasible(t):
                continue
            W = R.copy()
            w = what + (', accepted' if val else ', rejected')
            W.slots[k] = (R.slots[k][0], val, R.slots[k][2], S.get(sig, 'update_deck') if val else None)
            self.prove_room(E, t, W, w, 1)
            E.oblige(t, eq(t.ghost['to'].len, 1), w + ': one event', 'post')
            E.oblige(t, val_eq(None, t.ghost['to'].at(0), self.peer), w + ': to that duelist', 'post')
            ds = MsgVal(EV + '_Configuring_DeckStatus')
            if not val:
                ds = S.set(ds, 'deck_error', S.symbolic(S.cls('DeckError'), 'deck_error'))
            prove_msg(E, S, t, t.ghost['ev'].at(0), self.conf(deck_status=ds), w + ': verdict')

    def ready(self, E, s, R, k, sig, what):
        S = self.S
        if k is None:
            self.prove_room(E, s, R, what, 1)
            return self.prove_silence(E, s, what)
        c, valid, ready, deck = R.slots[k]
        new = S.get(sig, 'ready_status')
        W = R.copy()
        W.slots[k] = (c, valid, ite(b_or(b_not(new), valid), new, ready, 1), deck)
        self.prove_room(E, s, W, what, 1)

    def start(self, E, s, R, k, sig, what):
        ok = eq(self.peer, R.host)
        ts = {x[0] for x in R.seated()}
        if len(ts) < 2:
            ok = 0
        for x in R.seated():
            ok = b_and(ok, b_and(R.slots[x][1], R.slots[x][2]))
        G = self.prove_room(E, s, R, what)
        E.oblige(s, eq(G.state, ite(ok, 2, 1, 64)), what + ': leaves the configuring state exactly when it may', 'post')
        t = s.copy()
        t.assume(tob(b_not(ok)))
        if E.feasible(t):
            self.prove_silence(E, t, what + ': not started')

    def other(self, E, s, R, k, sig, what):
        self.prove_room(E, s, R, what, 1)
        self.prove_silence(E, s, what)

    def elsewhere(self, r, kind):
        """signals of the configuring state after it was left"""
        S = self.S
        E, st, R = self.room((3, 3), {(0, 0), (0, 2), (1, 1), (1, 2)}, state=2)
        sig = S.make(RM + 'Signal', configuring=S.set(MsgVal(RM + 'Signal_Configuring'), kind, S.symbolic(S.cls('Deck'), 'deck') if kind == 'update_deck' else z3.Bool('flag')))
        ps = Ptr(E.new_obj(st, None, 'signal'))
        E.setv_raw(st, ps, 40, sig)
        rets = E.call(st, 'd_signal', [self.o, self.peer, ps])
        r.need_cover(len(rets) > 0, 'signal in the other state')
        for s, v in rets:
            self.prove_room(E, s, R, kind + ' while deciding', 2)
            self.prove_silence(E, s, kind + ' while deciding')
        r.take(E)


PAIR = EV + '_DecidingFirstTurn_Result_Dice_ResultPair'


class Ties:
    """contract of the loop rolling the dice: the rolls before are ties of values from 1 to 6"""
    cases = [None]

    def __init__(self, E, S, judge):
        self.E = E; self.S = S; self.judge = judge
        self.n = z3.BitVec('ties', 64)
        u = z3.Function('tie', z3.BitVecSort(64), z3.BitVecSort(32))

        def at(i):
            v = add(z3.URem(u(bv(i, 64)), bv(6, 32)), 1, 32)
            return S.make(PAIR, team0=v, team1=v)
        self.seq = SBase(Elt('msg', None, PAIR, 32), 'ties', self.n, at)
        self.loc = None
        self.rolled = 0

    def havoc(self, st, regs, locs):
        st.assume(z3.ULT(self.n, bv(1 << 31, 64)))
        self.k = 0
        for loc, (v0, v1, w) in sorted(locs.items(), key=lambda x: str(x[0])):
            if isinstance(v0, Seq):
                if v0.elt.name != PAIR:
                    raise ToolLimit('change of a sequence while the dice are rolled')
                if not (isc(v0.len) and v0.len == 0):
                    raise ToolLimit('results before the dice are rolled')
                self.loc = loc
                v = self.seq
            elif isinstance(v0, (int, z3.ExprRef)) and not isptr(v1):
                self.k += 1
                v = z3.BitVec('changed in the loop#%d' % self.k, w)
            else:
                v = POISON
            irv_loop.set_loc(st, regs, loc, v)
        return st, regs

    def begin(self, st, case):
        pass

    def results(self, st, regs):
        if self.loc is None:
            raise ToolLimit('results of the dice not found')
        return irv_loop.get_loc(st, regs, self.loc)

    def back(self, st, regs, case):
        self.check(st, regs, 'a tie is rolled again', 1)

    def leave(self, st, regs, case):
        self.check(st, regs, 'the last roll decides', 0)

    def check(self, st, regs, what, tie):
        if not self.judge:
            return
        E, S = self.E, self.S
        q = self.results(st, regs)
        E.oblige(st, eq(q.len, add(self.n, 1)), what + ': one roll more', 'invariant')
        if isinstance(q, SCat) and q.a is self.seq:
            E.oblige(st, 1, what + ': earlier rolls kept', 'invariant')
        else:
            prove_seq(E, S, st, s_slice(q, 0, self.n), self.seq, what + ': earlier rolls kept', 'invariant')
        x = q.at(self.n)
        a, b = S.get(x, 'team0'), S.get(x, 'team1')
        for v in (a, b):
            E.oblige(st, b_and(ule(1, v, 32), ule(v, 6, 32)), what + ': values from 1 to 6', 'invariant')
        e = eq(a, b, 32)
        E.oblige(st, e if tie else b_not(e), what, 'invariant')


class C27(RoomCheck):
    prop = 'C27'
    assumptions = RoomCheck.assumptions + ['rock-paper-scissors is not implemented in the code: only the announcement of the phase is checked for it', 'the loop of the dice ends (the generator does not give ties for ever)']
    explain = ('Starting a duel from every occupation with every duelist ready, for every method: the events, their order and receivers are those of the specification, for arbitrary random numbers; the dice loop is verified by a loop contract '
               '(earlier rolls are ties of 1..6) for any number of rolls. Choosing the first team: any signal from anybody with any method.')

    def units(self):
        self.setup()
        seen, g = set(), []
        for caps, occ in shapes(True):
            k = (frozenset(occ))
            if caps == (3, 3) or k not in seen:
                seen.add(k)
                g.append((caps, occ))
        us = []
        for m in range(4):
            us += [('method %d %d' % (m, n), lambda r, m=m, x=x: [self.begin(r, m, *y) for y in x]) for n, x in enumerate(groups(g, 4))]
        return us + [('choice %d' % n, lambda r, x=x: [self.choice(r, *y) for y in x]) for n, x in enumerate(groups(g, 4))]

    def begin(self, r, method, caps, occ):
        S = self.S
        E, st, R = self.room(caps, occ, ready=1)
        self.rules = []
        E.loop_rule = self.loop_rule(E)
        st.assume(S.get(R.opts, 'ftdm') == bv(method, 32))
        st.assume(self.peer == R.host)
        sig = S.make(RM + 'Signal', configuring=S.set(MsgVal(RM + 'Signal_Configuring'), 'start_dueling', z3.Bool('flag')))
        ps = Ptr(E.new_obj(st, None, 'signal'))
        E.setv_raw(st, ps, 40, sig)
        what = 'method %d %s' % (method, ''.join('%d%d ' % k for k in sorted(occ)))
        r.need_cover(E.feasible(st), what)
        rets = E.call(st, 'd_signal', [self.o, self.peer, ps])
        r.need_cover(len(rets) > 0, what + ' returns')
        if method == DICE:
            r.need_cover(len(self.rules) > 0, 'the dice are rolled in a loop')
        for s, v in rets:
            self.begun(E, s, R, method, what)
        r.take(E)

    def begun(self, E, s, R, method, what):
        S = self.S
        to, ev = s.ghost['to'], s.ghost['ev']
        n = sum_len(self.everyone(R))
        enter = self.dft(entering_state=MsgVal(EV + '_DecidingFirstTurn_EnteringState'))
        ask = self.dft(decide_first_turn=1)
        rounds = 1 if method == HOST_CHOOSES else 2
        E.oblige(s, eq(to.len, ev.len), what + ': an event for each call', 'invariant')
        self.prove_room(E, s, R, what, 2)
        self.round(E, s, 0, R, enter, what + ': the phase is announced')
        if method == RPS:
            return
        total = n
        asked = R.host
        if rounds == 2:
            got = ev.at(n)
            res = S.get(S.get(got, 'deciding_first_turn'), 'result')
            team = S.get(res, 'team_going_first')
            if method == COIN:
                E.oblige(s, b_or(eq(team, 0, 32), eq(team, 1, 32)), what + ': the first or the second team', 'post')
                want = S.make(EV + '_DecidingFirstTurn_Result', team_going_first=team, coin_result=team)
            else:
                rs = S.get(S.get(res, 'dice'), 'results')
                T = self.rules[-1]
                E.oblige(s, eq(rs.len, add(T.n, 1)), what + ': rolls announced', 'post')
                last = rs.at(T.n)
                a, b = S.get(last, 'team0'), S.get(last, 'team1')
                prove_seq(E, S, s, s_slice(rs, 0, T.n), T.seq, what + ': the rolls before the last are ties of 1 to 6')
                for v in (a, b):
                    E.oblige(s, b_and(ule(1, v, 32), ule(v, 6, 32)), what + ': dice from 1 to 6', 'post')
                E.oblige(s, b_not(eq(a, b, 32)), what + ': the last roll is not a tie', 'post')
                E.oblige(s, eq(team, ite(ult(b, a, 32), 0, 1, 32), 32), what + ': the higher roll wins', 'post')
                want = S.make(EV + '_DecidingFirstTurn_Result', team_going_first=team, dice=S.make(EV + '_DecidingFirstTurn_Result_Dice', results=rs))
            self.round(E, s, n, R, self.dft(result=want), what + ': the result is announced')
            total = add(n, n)
            lead = [next(R.slots[k][0] for k in R.seated() if k[0] == t) for t in (0, 1)]
            asked = ite(eq(team, 0, 32), lead[0], lead[1])
        E.oblige(s, eq(to.len, add(total, 1)), what + ': one client is asked', 'post')
        E.oblige(s, val_eq(None, to.at(total), asked), what + ': who is asked', 'post')
        prove_msg(E, S, s, ev.at(total), ask, what + ': the question')

    def round(self, E, s, at, R, msg, what):
        n = sum_len(self.everyone(R))
        self.prove_reached(E, s, window(E, s, s.ghost['to'], at, n), self.everyone(R), what)
        self.each(E, s, window(E, s, s.ghost['ev'], at, n), msg, what)

    def choice(self, r, caps, occ):
        S = self.S
        E, st, R = self.room(caps, occ, state=2)
        sig = S.symbolic(RM + 'Signal', 'signal')
        ps = Ptr(E.new_obj(st, None, 'signal'))
        E.setv_raw(st, ps, 40, sig)
        what = 'choice %s' % ''.join('%d%d ' % k for k in sorted(occ))
        rets = E.call(st, 'd_signal', [self.o, self.peer, ps])
        r.need_cover(len(rets) > 0, what + ' returns')
        inner = S.get(sig, 'deciding_first_turn')
        team = S.get(inner, 'team_going_first')
        ok = b_and(eq(S.case(sig, 't'), S.fld(sig.t, 'deciding_first_turn').num, 32), eq(S.case(inner, 't'), S.fld(inner.t, 'team_going_first').num, 32))
        ok = b_and(ok, b_and(eq(S.get(R.opts, 'ftdm'), HOST_CHOOSES, 32), b_and(eq(self.peer, R.host), ule(team, 1, 32))))
        told = 0
        for s, v in rets:
            self.prove_room(E, s, R, what, 2)
            a, b = s.copy(), s.copy()
            a.assume(tob(b_not(ok)))
            if E.feasible(a):
                self.prove_silence(E, a, what + ': not a choice')
            b.assume(tob(ok))
            if E.feasible(b):
                told += 1
                msg = self.dft(result=S.make(EV + '_DecidingFirstTurn_Result', team_going_first=team))
                self.prove_reached(E, b, b.ghost['to'], self.everyone(R), what + ': is announced')
                self.each(E, b, b.ghost['ev'], msg, what + ': announcement')
        r.need_cover(told > 0, 'choices exist')
        r.take(E)


def settled(E, st, q):
    """[(state, sequence)] without choices between sequences"""
    out = [(st, s_empty(q.elt))]
    for p in parts(q):
        new = []
        for s, x in out:
            if not isinstance(p, SIte):
                new.append((s, s_cat(x, p)))
                continue
            for c, b in ((p.c, p.a), (b_not(p.c), p.b)):
                if not E.feasible(s, c):
                    continue
                t = s.copy().assume(c) if not E.valid(s, c) else s
                new += [(t2, s_cat(x, y)) for t2, y in settled(E, t, b)]
        out = new
    return out


def window(E, st, q, at, n):
    """the part of sequence q from index at, n long, in parts where it is made of whole parts"""
    pos, out, got = 0, None, 0
    ps = settled(E, st, q)
    if len(ps) != 1:
        raise ToolLimit('events of different histories')
    q = ps[0][1]
    for p in parts(q):
        els = [SList(p.elt, [x]) for x in p.els] if isinstance(p, SList) else [p]
        for x in els:
            if out is None and E.valid(st, eq(pos, at)):
                out = s_empty(q.elt)
                start = pos
            if out is not None and E.valid(st, eq(sub(pos, start), n)):
                return out
            if out is not None:
                out = s_cat(out, x)
            pos = add(pos, x.len)
    if out is not None and E.valid(st, eq(sub(pos, start), n)):
        return out
    return s_slice(q, at, n)


CHECKS = {c.prop: c for c in (C25, C26, C27, C28)}
