"""Abstract interpreter over the MIR dump: inlines local calls, summarises loops over a
symbolic iteration variable, and records transcript, randomness and panic events."""
from collections import defaultdict
from .dom import *
from .vals import *
from . import vals
from .cfg import Body
from .mir import ToolError

MAXDEPTH = 40
UNROLL = 12


class State:
    __slots__ = ('env', 'own', 'tr', 'node', 'passed', 'flag', 'pc')

    def __init__(self):
        self.env = {}
        self.own = set()
        self.tr = {}
        self.node = 'start'
        self.passed = EMPTY
        self.flag = 0
        self.pc = ()

    def copy(self):
        s = State()
        s.env = dict(self.env)
        self.own = set()
        s.tr = dict(self.tr)
        s.node, s.passed, s.flag, s.pc = self.node, self.passed, self.flag, self.pc
        return s

    def get(self, fr, l):
        d = self.env.get(fr)
        return None if d is None else d.get(l)

    def put(self, fr, l, v):
        if fr not in self.own:
            self.env[fr] = dict(self.env.get(fr, {}))
            self.own.add(fr)
        self.env[fr][l] = v

    def drop(self, fr):
        self.env.pop(fr, None)
        self.own.discard(fr)

    def pcmay(self):
        r = EMPTY
        for _, _, d in self.pc:
            r |= d
        return r


class Event:
    __slots__ = ('kind', 'frame', 'fn', 'at', 'd')

    def __init__(self, kind, frame, fn, at, **d):
        self.kind, self.frame, self.fn, self.at, self.d = kind, frame, fn, at, d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return '%s@%s %s %r' % (self.kind, self.at, self.frame[-40:], self.d)


class Out:
    """Result of executing a region."""

    def __init__(self):
        self.back = []
        self.exits = defaultdict(list)   # target block or 'ret' -> states
        self.nat = defaultdict(list)     # the same for the natural exit of the loop
        self.nat_blocked = []            # states that would have taken the natural exit


def is_rej(v):
    if isinstance(v, Leaf):
        return v.const == ('bool', False)
    if isinstance(v, Enum):
        return bool(v.vs) and all(n in ('None', 'Err') for n, _, _ in v.vs)
    return False


FN_TRAITS = ('std::ops::Fn', 'std::ops::FnMut', 'std::ops::FnOnce')


class Interp:
    def __init__(self, crate, models):
        self.crate = crate
        self.models = models
        self.bodies = {}
        self.events = []
        self.edges = []
        self.hdrs = {}           # loop header nodes: {node: iteration symbol}
        self.skips = set()       # edges past a loop that runs zero times
        self.loopstk = []
        self.inner = set()    # facts that only the bodies of loops show
        self.fnstack = []
        self.fnargs = []
        self.fndefs = {}
        self.memo = {}
        self.warn = set()
        self.fns_seen = set()
        self.watch = frozenset()
        self.undec = set()
        self.steps = 0
        self.max_steps = 4000000

    # ------------------------------------------------------------ helpers
    def body(self, path, prom=None):
        k = (path, prom)
        b = self.bodies.get(k)
        if b is None:
            f = self.crate.fns[path]
            if prom is not None:
                f = f['promoted'][prom]
            b = self.bodies[k] = Body(path, f)
        return b

    def mark(self):
        return len(self.events), len(self.edges)

    def rollback(self, m):
        del self.events[m[0]:]
        del self.edges[m[1]:]

    def event(self, kind, fr, at, **d):
        e = Event(kind, fr, self.fnstack[-1] if self.fnstack else '', at, **d)
        self.events.append(e)
        return e

    def move(self, st, node, kind=None, label=None):
        """The transcript automaton steps to node."""
        if st.node != node:
            self.edges.append((st.node, kind, label, node))
            st.node = node
        elif kind is not None:
            self.edges.append((st.node, kind, label, node))

    def stk(self):
        return tuple(self.loopstk)

    # ------------------------------------------------------------ joins
    def join2(self, a, b, ctlmay, key, node):
        common = a.passed & b.passed
        ctl = Ctl(ctlmay, a.passed - common, b.passed - common, None)
        s = State()
        s.passed = meet_facts(a.passed, b.passed)
        s.flag = min(a.flag, b.flag)
        s.pc = a.pc if a.pc == b.pc else tuple(x for x in a.pc if x in b.pc)
        for fr in a.env:
            if fr not in b.env:
                s.env[fr] = a.env[fr]
        for fr, eb in b.env.items():
            ea = a.env.get(fr)
            if ea is None or ea is eb:
                s.env[fr] = eb
                continue
            d = dict(ea)
            for l, vb in eb.items():
                va = ea.get(l)
                if va is vb:
                    continue
                if va is None:
                    d[l] = vb
                elif vb is not None and va != vb:
                    ctl.key = (key, fr[-60:], l)
                    d[l] = join(va, vb, ctl)
            s.env[fr] = d
        for t in set(a.tr) | set(b.tr):
            x, y = a.tr.get(t), b.tr.get(t)
            if x is None or y is None or x == y:
                s.tr[t] = x or y
            else:
                s.tr[t] = (meet(x[0], y[0]), x[1] | y[1])
        if a.node == b.node:
            s.node = a.node
        else:
            s.node = node
            for x in (a, b):
                if x.node != node:
                    self.edges.append((x.node, None, None, node))
        return s

    def joinall(self, sts, key, node, ctlmay=EMPTY):
        r = sts[0]
        for s in sts[1:]:
            r = self.join2(r, s, ctlmay, key, node)
        return r

    # ------------------------------------------------------------ functions
    def call(self, path, args, st, fr, site, at):
        """Calls local function path.  Returns [(state, value)]."""
        if len(self.fnstack) > MAXDEPTH or self.fnstack.count(path) > 2:
            prev = [x for x in self.fnargs if x[0] == path]
            self.event('recursion', fr, at, callee=path, same=bool(prev) and
                       prev[-1][1] == tuple(sizes(self.freeze(st, a)) for a in args) and all(
                           f[5] == 'int' for f in st.passed - prev[-1][2]),
                       told=all(told(sizes(self.freeze(st, a))) for a in args))
            may = EMPTY
            for a in args:
                may |= may_of(a)
            return [(st, Leaf(EMPTY, may, ty='?'))]
        self.fns_seen.add(path)
        if path in self.watch:
            self.event('enter', fr, at, callee=path, vals=[
                self.freeze(st, a) for a in args])
        if self.watch:
            for a in args:
                self.spread(fr, at, self.freeze(st, a))
        B = self.body(path)
        nf = fr + '>' + path.split('::')[-1] + '@' + str(site)
        mkey = None
        if not any(self.has_place(a) for a in args):
            mkey = (path, tuple(args), self.stk(), st.flag, len_eqs(st.passed))
            hit = self.memo.get(mkey)
            if hit is not None:
                outs = []
                for ret, passed, flag, evs in hit:
                    s2 = st.copy() if len(hit) > 1 else st
                    s2.passed = s2.passed | passed
                    s2.flag = flag
                    outs.append((s2, ret))
                for e in hit[0][3]:
                    d = dict(e.d)
                    self.events.append(Event(e.kind, nf + e.frame, e.fn, e.at, **d))
                return outs
            before = (st.env, dict(st.env), dict(st.tr), st.node, st.passed, len(self.events),
                      len(self.edges), st.pc)
        st.env.pop(nf, None)
        st.own.discard(nf)
        for i, a in enumerate(args):
            st.put(nf, i + 1, a)
        pc0 = st.pc
        self.fnstack.append(path)
        self.fnargs.append((path, tuple(sizes(self.freeze(st, a)) for a in args)
                            if self.fnstack.count(path) > 1 else (), st.passed))
        out = self.region(B, nf, None, st, False)
        self.fnstack.pop()
        self.fnargs.pop()
        outs = []
        for s in out.exits['ret']:
            ret = s.get(nf, 0)
            if ret is None:
                ret = UNIT
            s.drop(nf)
            s.pc = pc0
            outs.append((s, ret))
        if mkey is not None and outs:
            pure = True
            for s, _ in outs:
                if s.node != before[3] or s.tr != before[2] or len(self.edges) != before[6]:
                    pure = False
                for k, v in s.env.items():
                    if k != 'heap' and before[1].get(k) is not v:
                        w = before[1].get(k)
                        if w is None or w != v:
                            pure = False
            evs = self.events[before[5]:]
            if any(e.kind not in ('panic', 'divzero', 'mask') for e in evs):
                pure = False
            if pure:
                rel = [Event(e.kind, e.frame[len(nf):] if e.frame.startswith(nf) else e.frame,
                             e.fn, e.at, **e.d) for e in evs]
                self.memo[mkey] = [(ret, s.passed - before[4], s.flag, rel) for s, ret in outs]
        return outs

    def stored(self, fr, at, target, v, cell=None):
        if isinstance(v, Leaf) and v.ty == 'scalar' and 'R' in v.cls:
            self.event('cell', fr, at, target=target, val=v, stk=self.stk(), cell=cell)

    def spread(self, fr, at, v):
        """One draw in many positions of a vector?"""
        if isinstance(v, Ref):
            for a in v.alts:
                if a[0] == 'V':
                    self.spread(fr, at, a[1])
        elif isinstance(v, Coll) and isinstance(v.default, Leaf):
            d = v.default
            if d.ty == 'scalar' and d.cls == frozenset('R') and not (
                    v.len.lin is not None and v.len.lin.is_const() and v.len.lin.c <= 1):
                self.event('fill', fr, at, val=d, stk=self.stk())

    def has_place(self, v):
        if isinstance(v, Ref):
            return any(a[0] == 'P' or self.has_place(a[1]) for a in v.alts)
        if isinstance(v, Agg):
            return any(self.has_place(x) for _, x in v.fields)
        if isinstance(v, Enum):
            return any(self.has_place(x) for _, fs, _ in v.vs for _, x in fs)
        if isinstance(v, Iter):
            return any(self.has_place(a) for a in v.args if isinstance(a, Val))
        if isinstance(v, Coll):
            return any(self.has_place(x) for x in ([v.default] if v.default is not None else []) +
                       [y for _, y in v.ovs] + list(v.some))
        if isinstance(v, Leaf):
            return v.ty == 'transcript'
        return False

    # ------------------------------------------------------------ regions
    def by_lengths(self, B, fr, b, groups):
        """Keeps apart states in which a vector has different lengths: what its elements depend
        on cannot be described for both at once."""
        r = {}
        for k, g in groups.items():
            if len(g) == 1 or len(groups) > 4:
                r[k] = g
                continue
            diff = []
            for l in sorted(B.live[b] | {0}):
                vs = [s.get(fr, l) for s in g]
                if all(isinstance(v, Coll) for v in vs) and len({v.len.lin for v in vs}) > 1 and \
                        all(v.len.lin is not None for v in vs):
                    diff.append(l)
            if not diff:
                r[k] = g
                continue
            sub = {}
            for s in g:
                sub.setdefault(k + (tuple(s.get(fr, l).len.lin for l in diff),), []).append(s)
            if len(sub) > 4:
                r[k] = g
            else:
                r.update(sub)
        return r

    def region(self, B, fr, header, st, suppress, blocks=None):
        """Executes a function body or one pass through a loop."""
        out = Out()
        entry = 0 if header is None else header
        if blocks is None:
            blocks = set(B.rpo)
        nat = B.natural.get(header) if header is not None else None
        pend = {entry: [st]}
        first = True
        for b in B.rpo:
            if b not in blocks:
                continue
            sts = pend.pop(b, None)
            if not sts:
                continue
            # partition
            groups = {}
            for s in sts:
                rv = s.get(fr, 0)
                k = (s.flag, is_rej(rv) if rv is not None else None)
                groups.setdefault(k, []).append(s)
            if not self.stk() and header is None:
                groups = self.by_lengths(B, fr, b, groups)
            for gk in sorted(groups, key=repr):
                g = groups[gk]
                if len(g) > 1:
                    cm = EMPTY
                    for s in g:
                        for f, blk, d in s.pc:
                            if f == fr and blk == b:
                                cm |= d
                    s = self.joinall(g, (fr[-60:], b), (fr, 'j', b, self.stk(), gk), cm)
                else:
                    s = g[0]
                if s.pc:
                    s.pc = tuple(x for x in s.pc if not (x[0] == fr and x[1] == b))
                if b in B.loops and not (b == header and first):
                    exits = self.loop(B, fr, b, s)
                    for t, ss in exits.items():
                        if t == 'ret':
                            out.exits['ret'] += ss
                        elif t == header:
                            out.back += ss
                        elif t not in blocks:
                            out.exits[t] += ss
                        else:
                            pend.setdefault(t, []).extend(ss)
                    continue
                for t, s2 in self.block(B, fr, b, s):
                    if nat is not None and b == nat[0] and t in nat[1]:
                        if suppress:
                            out.nat_blocked.append(s2)
                        else:
                            out.nat[t].append(s2)
                    elif t == 'ret':
                        s2.flag = s2.flag or (1 if is_rej(s2.get(fr, 0)) else 0)
                        out.exits['ret'].append(s2)
                    elif t == header:
                        out.back.append(s2)
                    elif t not in blocks:
                        out.exits[t].append(s2)
                    else:
                        pend.setdefault(t, []).append(s2)
            first = False
        # merge return states by flag
        if len(out.exits.get('ret', ())) > 2 and header is None:
            g = {}
            for s in out.exits['ret']:
                g.setdefault(s.flag, []).append(s)
            out.exits['ret'] = [self.joinall(v, (fr[-60:], 'ret'), (fr, 'ret', k)) for k, v in
                                sorted(g.items())]
        return out

    # ------------------------------------------------------------ loops
    def loop(self, B, fr, header, st):
        blocks = B.loops[header]
        return self.run_loop(
            fr, header, st,
            lambda s, sup: self.region(B, fr, header, s, sup, blocks),
            B.live[header], B.natural.get(header) is not None)

    def run_loop(self, fr, name, st, bodyfn, live, hasnat):
        """bodyfn(state, suppress natural exit) -> Out.  Returns {target: [states]}."""
        exits = defaultdict(list)
        cur = st
        key = (fr, name)
        j = 0
        while True:
            m = self.mark()
            keep = cur.copy()
            self.loopstk.append(const(j))
            out = bodyfn(cur.copy(), False)
            self.loopstk.pop()
            natstates = [s for ss in out.nat.values() for s in ss]
            anyexit = natstates if hasnat else [s for ss in out.exits.values() for s in ss]
            if not out.back:
                for d in (out.nat, out.exits):
                    for t, ss in d.items():
                        exits[t] += ss
                return exits
            if not anyexit and j < UNROLL:
                for t, ss in out.exits.items():
                    exits[t] += ss
                cur = self.joinall(out.back, (fr[-60:], name, 'b'), (fr, 'bk', name, j, self.stk()))
                j += 1
                continue
            self.rollback(m)
            cur = keep
            break
        # peel one iteration
        iota = ('v', key)
        m0 = self.mark()
        self.loopstk.append(const(j))
        out0 = bodyfn(cur.copy(), True)
        self.loopstk.pop()
        for t, ss in out0.exits.items():
            exits[t] += ss
        if not out0.back:
            # at most one iteration
            self.rollback(m0)
            self.loopstk.append(const(j))
            out0 = bodyfn(cur.copy(), False)
            self.loopstk.pop()
            exits = defaultdict(list)
            for d in (out0.nat, out0.exits):
                for t, ss in d.items():
                    exits[t] += ss
            return exits
        base = self.joinall(out0.back, (fr[-60:], name, 'b'), (fr, 'bk0', name, self.stk()))
        self.prune(base, fr, live)
        VEC_MIN[key] = j + 1
        dec = {}
        m1 = self.mark()
        hdr = base.copy()
        hnode = (fr, 'hdr', name, self.stk())
        hdr.node = hnode
        ran = False
        tried, sums = frozenset(), set()
        for npass in range(14):
            self.rollback(m1)
            self.edges.append((base.node, None, None, hnode))
            self.loopstk.append(sym(iota))
            out = bodyfn(hdr.copy(), True)
            self.loopstk.pop()
            if not out.back:
                break
            ran = True
            back = self.joinall(out.back, (fr[-60:], name, 'b'), (fr, 'bk', name, self.stk()))
            self.prune(back, fr, live)
            cond = EMPTY
            for s in out.nat_blocked:
                # what decides between leaving and going on, not what led here
                n = 0
                while n < min(len(s.pc), len(hdr.pc)) and s.pc[n] == hdr.pc[n]:
                    n += 1
                for x in s.pc[n:]:
                    if x[0] == fr:
                        cond |= x[2]
            gen = Gen(self, iota, dec, npass, cond)
            gen.sums = sums
            new = gen.state(hdr, back)
            new.node = hnode
            if self.same(new, hdr):
                tried, todo = tried | self.mixed(hdr, fr), self.mixed(hdr, fr) - tried
                todo &= self.carried(hdr, fr, todo, m1, iota, bodyfn)
                if not todo:
                    break
                # a running sum over what may be different at every position
                sums |= todo
                new = hdr.copy()
                for l in todo:
                    v = new.get(fr, l)
                    new.put(fr, l, v.but(cls=csum(v.cls), mo=v.mo))
            hdr = new
        else:
            self.warn.add('loop not stable: %s %s' % key)
        # final pass
        self.rollback(m1)
        self.edges.append((base.node, None, None, hnode))
        self.loopstk.append(sym(iota))
        hdr.flag = base.flag
        out = bodyfn(hdr.copy(), False)
        self.loopstk.pop()
        for s in out.back:
            self.edges.append((s.node, None, None, hnode))
        self.hdrs[hnode] = sym(iota)
        xnode = (fr, 'exit', name, self.stk())
        trip_seen = None
        # what only the first iteration shows need not hold if there is none
        once = {n for z in out0.nat_blocked for g in z.passed - cur.passed for n in negs(g)}
        for t, ss in out.nat.items():
            for s in ss:
                trip = self.trip(s.passed - hdr.passed, iota)
                trip_seen = trip
                own = s.passed - hdr.passed
                mp = Map({iota: trip} if trip is not None else {},
                         close={iota: (const(j + 1), trip)})
                s = self.map_state(s, mp, Map({}, close=mp.close, point=True)
                                   if trip is None else mp)
                self.inner |= s.passed - cur.passed - own - mp.facts(own)
                s.passed = s.passed - (once - cur.passed)
                self.move(s, xnode)
                for z in out0.nat_blocked:
                    self.edges.append((z.node, None, None, xnode))
                    self.skips.add((z.node, xnode))
                exits[t].append(s)
        for t, ss in out.exits.items():
            mp = Map({}, close={iota: (const(j + 1), 'brk')})
            for s in ss:
                own = s.passed - hdr.passed
                s = self.map_state(s, mp)
                self.inner |= s.passed - cur.passed - own - mp.facts(own)
                exits[t].append(s)
        # events of the symbolic pass: the iteration variable ranges over the whole loop
        self.event('loop', fr, str(name), key=key, trip=trip_seen, hasnat=hasnat, first=j + 1,
                   has_exit=bool(out.nat or out.exits or out0.exits), iota=iota,
                   before=frozenset(f for f in cur.passed - self.inner if f[5] == 'int'),
                   during=frozenset(f for f in hdr.passed - self.inner if f[5] == 'int'),
                   steps=[self.step(cur, hdr, s) for s in out.back] if ran else [],
                   leave=[s.passed - hdr.passed for d in (out.nat, out.exits)
                          for ss in d.values() for s in ss])
        return exits

    @staticmethod
    def mixed(hdr, fr):
        return frozenset(l for l, v in hdr.env.get(fr, {}).items()
                         if isinstance(v, Leaf) and len(v.cls) > 1 and v.ty in ('scalar', 'point'))

    def carried(self, hdr, fr, todo, m1, iota, bodyfn):
        """Those of the variables whose next value is made from the current one."""
        if not todo:
            return todo
        self.rollback(m1)
        st = hdr.copy()
        for l in todo:
            v = st.get(fr, l)
            st.put(fr, l, v.but(must=v.must | {('carried ' + str(l), ())}))
        self.loopstk.append(sym(iota))
        out = bodyfn(st, True)
        self.loopstk.pop()
        return frozenset(l for l in todo if out.back and all(
            isinstance(b.env[fr].get(l), Leaf) and ('carried ' + str(l), ()) in b.env[fr][l].must
            for b in out.back))

    def step(self, cur, hdr, s):
        """One way through a loop body: what is known to hold on it, and what it does to the
        sizes: {symbol: (value before the loop, value afterwards)}, lengths that change,
        iterators that move on."""
        syms, lens, its = {}, [], []
        for fr, e in hdr.env.items():
            b = s.env.get(fr)
            if b is None or b is e:
                continue
            c = cur.env.get(fr, {})
            for l, h in e.items():
                v = b.get(l)
                if v is not None:
                    self.moves(c.get(l), h, v, syms, lens, its, 0)
        return {'facts': frozenset(f for f in s.passed - hdr.passed - self.inner
                                   if f[5] == 'int'),
                'other': any(f[5] != 'int' for f in s.passed - hdr.passed),
                'syms': syms, 'lens': lens, 'iters': its}

    def moves(self, c, h, b, syms, lens, its, d):
        if d > 4 or h is b and not isinstance(h, (Leaf, Coll)):
            return
        if isinstance(h, Leaf) and isinstance(b, Leaf):
            if h.lin is not None and b.lin is not None and not h.lin.c and len(h.lin.t) == 1:
                (x, k), = h.lin.t
                if k == 1 and x[0] == 'w':
                    syms.setdefault(x, (c.lin if isinstance(c, Leaf) else None, b.lin))
        elif isinstance(h, Coll) and isinstance(b, Coll):
            self.moves(c.len if isinstance(c, Coll) else None, h.len, b.len, syms, lens, its, d)
            lens.append((h.len.lin, b.len.lin))
        elif isinstance(h, Iter) and isinstance(b, Iter) and h.kind == b.kind:
            self.moves(c.pos if isinstance(c, Iter) else None, h.pos, b.pos, syms, lens, its, d)
            if h.pos.lin is not None and b.pos.lin is not None:
                its.append((h.pos.lin, b.pos.lin, self.models.length(h).lin))
            if h.args != b.args:
                for x, y, z in zip(h.args, b.args, c.args if isinstance(c, Iter) else h.args):
                    self.moves(z, x, y, syms, lens, its, d + 1)
        elif isinstance(h, Agg) and isinstance(b, Agg):
            for n, v in h.fields:
                self.moves(c.get(n) if isinstance(c, Agg) else None, v, b.get(n) or v, syms, lens,
                           its, d + 1)
        elif isinstance(h, Ref) and isinstance(b, Ref) and len(h.alts) == 1 == len(b.alts):
            x, z = h.alts[0], b.alts[0]
            y = c.alts[0] if isinstance(c, Ref) and len(c.alts) == 1 else ()
            if x[0] == 'V' == z[0]:
                self.moves(y[1] if y and y[0] == 'V' else None, x[1], z[1], syms, lens, its, d + 1)
            elif x[0] == 'P' and x[:3] == z[:3] and len(x[3]) == len(z[3]):
                ps = y[3] if y[:3] == x[:3] and len(y[3]) == len(x[3]) else x[3]
                for p, q, o in zip(x[3], z[3], ps):
                    if p[0] in ('x', 'sub') and p[0] == q[0]:
                        for u, v, w in zip(p[1:], q[1:], o[1:] if o[0] == p[0] else p[1:]):
                            self.moves(w, u, v, syms, lens, its, d + 1)
                            if p[0] == 'sub' and u is p[2]:
                                lens.append((u.lin, v.lin))

    def trip(self, facts, iota):
        best = None
        for f in sorted(facts, key=repr):
            if f[3] is None or f[4] is None or f[0] not in ('eq', 'le', 'lt'):
                continue
            d = sub(f[3], f[4])
            if f[0] == 'lt':
                d = add(d, ONE)     # a < b with equality at the boundary: a + 1 == b
            k = dict(d.t).get(iota)
            if k not in (1, -1):
                continue
            r = sub(d, lin({iota: k}))
            t = scale(r, -1) if k == 1 else r
            if any(s == iota for s, _ in t.t):
                continue
            if f[0] == 'eq' or best is None:
                best = t
            if f[0] == 'eq':
                break
        return best

    def map_state(self, s, mp, mv=None):
        """mv: the mapping for values, where a bare loop variable means its last value."""
        r = s.copy()
        mv = mv or mp
        for fr, e in list(r.env.items()):
            ch = None
            for l, v in e.items():
                w = mv.val(v)
                if w is not v and w != v:
                    if ch is None:
                        ch = dict(e)
                    ch[l] = w
            if ch is not None:
                r.env[fr] = ch
                r.own.add(fr)
        r.tr = {t: (mp.atoms(a), mp.atoms(b)) for t, (a, b) in r.tr.items()}
        r.passed = mp.facts(r.passed)
        r.pc = tuple((f, b, mp.atoms(d)) for f, b, d in r.pc)
        return r

    def prune(self, st, fr, live):
        e = st.env.get(fr)
        if e is None:
            return
        keep = set(l for l in live if l in e)
        todo = list(keep)
        while todo:
            v = e.get(todo.pop())
            for l in self.places(v, fr):
                if l not in keep and l in e:
                    keep.add(l)
                    todo.append(l)
        # other frames may point here
        for f2, e2 in st.env.items():
            if f2 != fr:
                for v in e2.values():
                    for l in self.places(v, fr):
                        keep.add(l)
        if len(keep) < len(e):
            st.env[fr] = {l: v for l, v in e.items() if l in keep}
            st.own.add(fr)

    def places(self, v, fr):
        if isinstance(v, Ref):
            for a in v.alts:
                if a[0] == 'P':
                    if a[1] == fr:
                        yield a[2]
                else:
                    yield from self.places(a[1], fr)
        elif isinstance(v, Agg):
            for _, x in v.fields:
                yield from self.places(x, fr)
        elif isinstance(v, Enum):
            for _, fs, _ in v.vs:
                for _, x in fs:
                    yield from self.places(x, fr)
        elif isinstance(v, Iter):
            for a in v.args:
                if isinstance(a, Val):
                    yield from self.places(a, fr)
        elif isinstance(v, Coll):
            for x in ([v.default] if v.default is not None else []) + [y for _, y in v.ovs]:
                yield from self.places(x, fr)

    def same(self, a, b):
        if a.passed != b.passed or a.tr != b.tr:
            return False
        for fr in set(a.env) | set(b.env):
            x, y = a.env.get(fr), b.env.get(fr)
            if x is y:
                continue
            if x is None or y is None:
                return False
            if x != y:
                return False
        return True

    # ------------------------------------------------------------ blocks
    def block(self, B, fr, b, st):
        self.steps += 1
        if self.steps > self.max_steps:
            raise ToolError('analysis budget exceeded')
        bl = B.blocks[b]
        for s in bl['s']:
            if s['s'] == '=':
                v = self.rvalue(B, fr, st, s['v'], s['at'])
                if self.watch and isinstance(v, Leaf) and v.ty == 'scalar' and 'R' in v.cls and \
                        s['p']['p']:
                    for a in self.eval_place(B, fr, st, s['p']):
                        if a[0] == 'P' and any(q[0] in ('x', 'xe') for q in a[3]):
                            self.event('cell', fr, s['at'], target=a[1:3], val=v,
                                       stk=self.stk(), cell=None)
                if self.watch and isinstance(v, Leaf) and v.ty == 'int' and s['p']['p'] and \
                        s['p']['p'][-1][0] == 'f':
                    for a in self.eval_place(B, fr, st, s['p']):
                        self.event('store', fr, s['at'], field=s['p']['p'][-1][1], val=v,
                                   path=a[3] if a[0] == 'P' else (), facts=st.passed)
                self.assign(st, fr, s['p'], v)
            elif s['s'] == 'setdiscr':
                pass
        t = bl['t']
        k = t['t']
        if k == 'goto' or k == 'drop':
            return [(t['to'], st)]
        if k == 'return':
            return [('ret', st)]
        if k == 'dead':
            return []
        if k == 'switch':
            return self.switch(B, fr, b, st, t)
        if k == 'assert':
            x = self.operand(B, fr, st, t['x'])
            if isinstance(x, Leaf) and x.const == ('bool', bool(t['expected'])):
                return [(t['to'], st)]
            ops = [self.operand(B, fr, st, o) for o in t.get('ops', [])]
            m = may_of(x)
            for o in ops:
                m |= may_of(o)
            if t['kind'] == 'bounds' and len(ops) == 2 and self.inb(ops[1], ops[0]):
                return [(t['to'], st)]
            if not (t['kind'] == 'bounds' and len(ops) == 2 and lcmp(ops[1].lin, ops[0].lin)
                    == {'<'} if all(isinstance(o, Leaf) for o in ops) else False):
                self.panic(st, fr, t['at'], t['kind'], m, ops, t.get('op', ''))
                if t['kind'] == 'bounds' and len(ops) == 2:
                    self.inside(st, ops[1], ops[0])
            return [(t['to'], st)]
        if k == 'call':
            return self.do_call(B, fr, b, st, t)
        self.event('unsupported', fr, t.get('at', ''), what=t.get('d', k)[:80])
        return []

    def inside(self, st, i, n):
        """Position i was found to be below n."""
        if isinstance(i, Leaf) and isinstance(n, Leaf) and i.lin is not None and \
                n.lin is not None:
            st.passed = st.passed | {('lt', i.must, n.must, i.lin, n.lin, 'int')}

    def inb(self, i, n):
        return isinstance(i, Leaf) and isinstance(n, Leaf) and i.lin is not None and \
            n.lin is not None and lcmp(i.lin, n.lin) == {'<'}

    def panic(self, st, fr, at, kind, deps, ops=(), what=''):
        self.event('panic', fr, at, what=kind, deps=deps, pc=st.pc, ops=tuple(ops),
                   passed=st.passed, detail=what, stk=self.stk())

    def switch(self, B, fr, b, st, t):
        x = self.operand(B, fr, st, t['x'])
        outs = []
        if isinstance(x, Leaf) and x.ty == 'discr':
            place, vs = x.const[1], dict(x.const[2])
            cur = self.load(st, place)
            if isinstance(cur, Enum):
                if not any(f[5] == 'int' for v in cur.vs for f in v[2]):
                    cur = known(st, cur)
                have = {n for n, _, _ in cur.vs}
                targets = []
                used = set()
                for val, tgt in t['cases']:
                    n = vs.get(val)
                    used.add(n)
                    if n in have:
                        targets.append(([n], tgt))
                rest = [n for n in have if n not in used]
                if rest and t['else'] is not None:
                    targets.append((rest, t['else']))
                for ns, tgt in targets:
                    s = st.copy() if len(targets) > 1 else st
                    if len(targets) > 1 or len(have) > len(ns):
                        s2 = Enum(cur.name, [v for v in cur.vs if v[0] in ns], cur.must, cur.may)
                        self.store(s, place, s2)
                    if len(ns) == 1:
                        s.passed = s.passed | cur.variant(ns[0])[2]
                    if len(targets) > 1:
                        self.pushpc(B, fr, b, s, cur.may | cur.must | x.may)
                    outs.append((tgt, s))
                return outs
        c = None
        if isinstance(x, Leaf):
            if x.const is not None and x.const[0] == 'bool':
                c = int(x.const[1])
            elif x.lin is not None and x.lin.is_const():
                c = x.lin.c
        if c is not None:
            for val, tgt in t['cases']:
                if val == c:
                    return [(tgt, st)]
            return [(t['else'], st)]
        deps = may_of(x)
        if self.watch and isinstance(x, Leaf) and x.ty == 'bool':
            self.event('branch', fr, t.get('at', ''), tf=x.tf, ff=x.ff, deps=deps)
        tg = [(v, tgt) for v, tgt in t['cases']]
        if isinstance(x, Leaf) and x.ty != 'bool' and x.lin is not None:
            tg = [(v, tgt) for v, tgt in tg if '=' in lcmp(x.lin, const(v))]
            for v, _ in tg:
                self.unsure(x.lin, const(v))
            if not tg and t['else'] is not None:
                return [(t['else'], st)]
        alltg = tg + ([(None, t['else'])] if t['else'] is not None else [])
        for v, tgt in alltg:
            s = st.copy()
            if isinstance(x, Leaf) and x.ty == 'bool':
                val = v if v is not None else (1 - tg[0][0] if len(tg) == 1 else None)
                if val == 0:
                    s.passed = s.passed | x.ff
                elif val == 1:
                    s.passed = s.passed | x.tf
                self.refine(B, fr, s, t['x'], bleaf(bool(val)).but(must=x.must, may=x.may))
            elif isinstance(x, Leaf):
                fm = x.must
                if v is not None:
                    s.passed = s.passed | {('eq', fm, EMPTY, x.lin, const(v), 'int')}
                elif len(tg) == 1:
                    s.passed = s.passed | {('ne', fm, EMPTY, x.lin, const(tg[0][0]), 'int')}
            self.pushpc(B, fr, b, s, deps)
            outs.append((tgt, s))
        return outs

    def refine(self, B, fr, s, o, v):
        """The switched-on local itself is known in the branch."""
        if o['o'] in ('copy', 'move') and not o['p']['p']:
            s.put(fr, o['p']['l'], v)

    def pushpc(self, B, fr, b, s, deps):
        p = B.ipdom.get(b)
        if p is None:
            # both ways end in a panic
            p = -2
        s.pc = s.pc + ((fr, p, deps),)

    # ------------------------------------------------------------ places
    def eval_place(self, B, fr, st, p):
        """A place as alternatives: ('P', frame, local, path) or ('V', value, path)."""
        alts = [('P', fr, p['l'], ())]
        for e in p['p']:
            k = e[0]
            if k == '*':
                new = []
                for a in alts:
                    v = self.load1(st, a)
                    new += self.deref_alts(v)
                alts = new or [('V', None, ())]
                continue
            if k == 'f':
                pr = ('f', e[1])
            elif k == 'i':
                ix = st.get(fr, e[1])
                pr = ('x', ix if isinstance(ix, Leaf) else Leaf(EMPTY, may_of(ix), ty='int'))
            elif k == 'ci':
                if e[2]:
                    pr = ('xe', e[1])
                else:
                    pr = ('x', ileaf(const(e[1])))
            elif k == 'ss':
                pr = ('ss', e[1], e[2], e[3])
            elif k == 'd':
                pr = ('d', e[1])
            else:
                pr = ('?',)
            alts = [self.proj(st, a, pr) for a in alts]
        return alts

    def deref_alts(self, v):
        if isinstance(v, Ref):
            return [('P', a[1], a[2], a[3]) if a[0] == 'P' else ('V', a[1], ()) for a in v.alts]
        if isinstance(v, Agg) and v.kind == 'box':
            return self.deref_alts(v.get('0'))
        return [('V', v, ())]

    def proj(self, st, a, pr):
        if pr[0] in ('xe', 'ss'):
            c = self.load1(st, a)
            n = c.len if isinstance(c, Coll) else Leaf(EMPTY, may_of(c), ty='int')
            if pr[0] == 'xe':
                pr = ('x', n.but(lin=None if n.lin is None else add(n.lin, const(-pr[1]))))
            else:
                lo = ileaf(const(pr[1]))
                if pr[3]:
                    ln = n.but(lin=None if n.lin is None else add(n.lin, const(-pr[1] - pr[2])))
                else:
                    ln = ileaf(const(pr[2] - pr[1]))
                pr = ('sub', lo, ln)
        path = a[3] if a[0] == 'P' else a[2]
        path = addproj(path, pr)
        if a[0] == 'P':
            return ('P', a[1], a[2], path)
        return ('V', nav(a[1], path), ())

    def load1(self, st, a):
        if a[0] == 'V':
            return nav(a[1], a[2] if len(a) > 2 else ())
        if a[0] == 'R':
            v = None
            for x in self.deref_alts(st.get(a[1], a[2])):
                w = nav(self.load1(st, x), a[3])
                v = w if v is None else join(v, w)
            return v
        v = st.get(a[1], a[2])
        return nav(v, a[3])

    def load(self, st, alts):
        if isinstance(alts, tuple):
            alts = list(alts)
        vs = [self.load1(st, a) for a in alts]
        r = vs[0]
        for v in vs[1:]:
            r = join(r, v)
        return r

    def store(self, st, alts, v):
        weak = len(alts) > 1
        for a in alts:
            if a[0] == 'P':
                old = st.get(a[1], a[2])
                st.put(a[1], a[2], upd(old, a[3], v, weak))
            elif a[0] == 'R':
                old = st.get(a[1], a[2])
                if isinstance(old, Ref) and len(old.alts) == 1:
                    x = old.alts[0]
                    if x[0] == 'V':
                        st.put(a[1], a[2], Ref([('V', upd(x[1], a[3], v, weak))]))
                    else:
                        self.store(st, [('P', x[1], x[2], x[3] + a[3])], v)

    def assign(self, st, fr, p, v):
        if not p['p']:
            st.put(fr, p['l'], v)
            return
        alts = self.eval_place(None, fr, st, p)
        self.store(st, alts, v)

    def deref(self, st, v):
        """The value behind references."""
        n = 0
        while isinstance(v, Ref) and n < 8:
            alts = self.deref_alts(v)
            if not alts:
                return None
            v = self.load(st, alts)
            n += 1
        if isinstance(v, Agg) and v.kind == 'box':
            return self.deref(st, v.get('0'))
        return v

    # ------------------------------------------------------------ operands
    def operand(self, B, fr, st, o):
        if o['o'] in ('copy', 'move'):
            p = o['p']
            if not p['p']:
                v = st.get(fr, p['l'])
                if v is None:
                    return UNIT if p['t'].get('k') == 'tuple' and not p['t'].get('a') else \
                        Leaf(ty='?')
                return v
            v = self.load(st, self.eval_place(B, fr, st, p))
            return v if v is not None else Leaf(ty='?')
        return self.constant(B, fr, st, o)

    def constant(self, B, fr, st, o):
        ty = o['ty']
        if o.get('fn'):
            key = repr(sorted(o['fn'].items(), key=lambda x: x[0]))
            self.fndefs[key] = o['fn']
            return Agg('fndef', key, ())
        if o.get('promoted') is not None:
            path = o.get('powner') or B.path
            r = self.promoted(path, o['promoted'], st, fr)
            return r
        if ty['k'] == 'closure':
            return Agg('closure', ty['p'], ())
        if 'int' in o:
            if ty['k'] == 'bool':
                return bleaf(bool(o['int']))
            return ileaf(const(o['int']))
        if 'bytes' in o:
            bs = o['bytes']
            bs = bs if isinstance(bs, str) else repr(bs)
            v = Leaf(const=('bytes', bs), ty='bytes')
            return v
        if o.get('static'):
            return Leaf(frozenset([('static:' + o['static'], ())]), ty='?')
        if ty['k'] == 'tuple' and not ty['a']:
            return UNIT
        return self.models.constant(self, o, ty)

    def promoted(self, path, idx, st, fr):
        k = ('prom', path, idx)
        r = self.memo.get(k)
        if r is None:
            B = self.body(path, idx)
            s = State()
            nf = 'prom'
            out = self.region(B, nf, None, s, False)
            r = UNIT
            for s in out.exits['ret']:
                r = self.freeze(s, s.get(nf, 0))
            self.memo[k] = r
        return r

    def freeze(self, st, v):
        """Replaces places inside v by their values."""
        if isinstance(v, Ref):
            return Ref([('V', self.freeze(st, self.load1(st, a)))
                        for a in self.deref_alts(v)])
        if isinstance(v, Agg):
            return Agg(v.kind, v.name, [(n, self.freeze(st, x)) for n, x in v.fields])
        if isinstance(v, Enum):
            return Enum(v.name, [(n, tuple((f, self.freeze(st, x)) for f, x in fs), fa)
                                 for n, fs, fa in v.vs], v.must, v.may)
        return v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, B, fr, st, v, at):
        r = v['r']
        if r == 'use':
            return self.operand(B, fr, st, v['x'])
        if r == 'ref':
            alts = self.eval_place(B, fr, st, v['p'])
            if v['m']:
                return Ref([('P', a[1], a[2], a[3]) if a[0] == 'P' else ('V', a[1])
                            for a in alts])
            x = self.load(st, alts)
            if isinstance(x, Leaf) and x.ty == 'transcript' or self.has_place(x):
                # keep identity of what is behind further references
                if all(a[0] == 'P' for a in alts) and isinstance(x, Leaf):
                    return Ref([('P', a[1], a[2], a[3]) for a in alts])
            return Ref([('V', x)])
        if r == 'repeat':
            x = self.operand(B, fr, st, v['x'])
            n = v['n']
            return Coll('array', ileaf(const(n) if n is not None else None), height(x) + 1, x)
        if r == 'cast':
            x = self.operand(B, fr, st, v['x'])
            if self.watch and isinstance(x, Leaf) and x.ty == 'int':
                w = {'u8': 8, 'u16': 16, 'u32': 32}.get(v['to'].get('n'))
                if w and w < {'u8': 8, 'u16': 16, 'u32': 32}.get(v['from'].get('n'), 64):
                    self.event('cast', fr, at, val=x, bits=w, facts=st.passed)
            return self.cast(x, v)
        if r == 'bin':
            a = self.operand(B, fr, st, v['a'])
            b = self.operand(B, fr, st, v['b'])
            return self.binop(v['op'], a, b, fr, st, at)
        if r == 'un':
            x = self.operand(B, fr, st, v['x'])
            return self.unop(v['op'], x, st)
        if r == 'discr':
            alts = self.eval_place(B, fr, st, v['p'])
            x = self.load(st, alts)
            # refinement goes through the reference that was followed
            place = self.refinable(B, fr, st, v['p'], alts)
            if isinstance(x, Enum) and place is not None:
                return Leaf(x.must, x.may, const=('discr', place,
                                                  tuple((a, b) for a, b in v['vs'])), ty='discr')
            if isinstance(x, Enum):
                return Leaf(x.must, x.may, ty='int')
            return Leaf(EMPTY, may_of(x), ty='int')
        if r == 'agg':
            xs = [self.operand(B, fr, st, x) for x in v['xs']]
            k = v['k']
            if k == 'tuple':
                return Agg('tuple', '', [(str(i), x) for i, x in enumerate(xs)])
            if k == 'array':
                h = max([height(x) for x in xs] or [0]) + 1
                if self.watch:
                    for i, x in enumerate(xs):
                        self.stored(fr, at, ('array', at), x, i)
                return Coll('array', ileaf(const(len(xs))), h, None,
                            [(const(i), x) for i, x in enumerate(xs)])
            if k == 'closure':
                return Agg('closure', v['closure'], [(str(i), x) for i, x in enumerate(xs)])
            if k == 'adt':
                if self.watch and not v['enum']:
                    self.event('build', fr, at, adt=v['adt'], vals=tuple(zip(v['fields'], xs)),
                               facts=st.passed)
                if v['enum']:
                    return Enum(v['adt'], [(v['variant'], tuple(zip(v['fields'], xs)), EMPTY)])
                return Agg('adt', v['adt'], list(zip(v['fields'], xs)))
            return Agg(k, '', [(str(i), x) for i, x in enumerate(xs)])
        if r == 'rawptr':
            alts = self.eval_place(B, fr, st, v['p'])
            return Ref([('P', a[1], a[2], a[3]) if a[0] == 'P' else ('V', a[1]) for a in alts])
        if r == 'tls':
            return Leaf(frozenset([('static:tls', ())]), ty='?')
        return Leaf(ty='?')

    def refinable(self, B, fr, st, p, alts):
        """Places whose enum value a switch on its discriminant may narrow."""
        if all(a[0] == 'P' for a in alts) and len(alts) == 1:
            return tuple(alts)
        # behind a shared reference held in a local: narrow the copy held there
        if p['p'] and p['p'][0][0] == '*' and len(alts) == 1:
            path = tuple(tuple(e[:2]) for e in p['p'][1:])
            if all(e[0] in ('f', 'd') for e in path):
                return (('R', fr, p['l'], path),)
        return None

    def cast(self, x, v):
        ck = v['ck']
        if isinstance(x, Leaf):
            if x.ty in ('int', 'bool') and v['to'].get('k') in ('uint', 'int'):
                if x.ty == 'bool':
                    if x.const is not None:
                        return ileaf(const(int(x.const[1])), x.must, x.may)
                    return Leaf(x.must, x.may, None, ty='int')
                w = {'u8': 8, 'u16': 16, 'u32': 32}.get(v['to'].get('n'))
                f = {'u8': 8, 'u16': 16, 'u32': 32, 'usize': 64, 'u64': 64}.get(
                    v['from'].get('n'), 64)
                if w and w < f and x.lin is not None and x.lin.is_const():
                    return x.but(lin=const(x.lin.c % (1 << w)))
                return x
            return x
        return x

    CMP = {'Eq': 'eq', 'Ne': 'ne', 'Lt': 'lt', 'Le': 'le', 'Gt': 'gt', 'Ge': 'ge'}

    def binop(self, o, a, b, fr, st, at):
        if not isinstance(a, Leaf):
            a = blur(self.deref(st, a) if isinstance(a, Ref) else a, 'int')
        if not isinstance(b, Leaf):
            b = blur(self.deref(st, b) if isinstance(b, Ref) else b, 'int')
        base = o.replace('WithOverflow', '').replace('Unchecked', '')
        if base in self.CMP:
            return self.compare(self.CMP[base], a, b)
        if a.ty == 'bool' and b.ty == 'bool':
            return self.boolop(base, a, b)
        must, may = a.must | b.must, a.may | b.may
        if any(x[0][:2] == 'C:' for x in may | must):
            self.event('chalop', fr, at, op=base)
        l = self.arith(base, a.lin, b.lin)
        r = Leaf(must, may, l, ty='int')
        if self.watch and base == 'Sub' and a.lin is not None and b.lin is not None:
            self.event('sub', fr, at, a=a.lin, b=b.lin, facts=st.passed)
        if 'WithOverflow' in o:
            ov = None
            if l is not None and base in ('Add', 'Mul') and lower(l) is not None \
                    and l.is_const():
                ov = bleaf(False)
            if base == 'Sub' and a.lin is not None and b.lin is not None and \
                    '<' not in lcmp(a.lin, b.lin):
                ov = bleaf(False)
            if ov is None:
                ov = Leaf(must, may, ty='bool')
            return Agg('tuple', '', [('0', r), ('1', ov)])
        return r

    def arith(self, o, x, y):
        if x is None or y is None:
            return None
        if o == 'Add':
            return add(x, y)
        if o == 'Sub':
            return sub(x, y)
        if o == 'Mul':
            if x.is_const():
                return scale(y, x.c)
            if y.is_const():
                return scale(x, y.c)
            return op('mul', *sorted((x, y), key=repr))
        if o == 'Div':
            if x.is_const() and y.is_const() and y.c:
                return const(x.c // y.c)
            if y == ONE:
                return x
            return op('div', x, y)
        if o == 'Rem':
            if x.is_const() and y.is_const() and y.c:
                return const(x.c % y.c)
            return op('rem', x, y)
        if o == 'Shl':
            if x.is_const() and y.is_const():
                return const(x.c << y.c)
            if y.is_const():
                return scale(x, 1 << y.c)
            return op('shl', x, y)
        if o == 'Shr':
            if x.is_const() and y.is_const():
                return const(x.c >> y.c)
            if y.is_const():
                return op('div', x, const(1 << y.c))
            return op('shr', x, y)
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            if x.is_const() and y.is_const():
                return const({'BitAnd': x.c & y.c, 'BitOr': x.c | y.c, 'BitXor': x.c ^ y.c}[o])
            for a, b in ((x, y), (y, x)):
                if o == 'BitAnd' and b.is_const() and b.c > 0 and not (b.c + 1) & b.c:
                    return op('rem', a, const(b.c + 1))
            return op(o, x, y)
        return None

    NEG = {'eq': 'ne', 'ne': 'eq'}

    def compare(self, o, a, b):
        """Comparison of integer or boolean leaves."""
        must, may = a.must | b.must, a.may | b.may
        if o in ('gt', 'ge'):
            a, b, o = b, a, {'gt': 'lt', 'ge': 'le'}[o]
        if a.ty == 'bool' and b.ty == 'bool' and o in ('eq', 'ne'):
            for x, y in ((a, b), (b, a)):
                if y.const is not None and y.const[0] == 'bool':
                    pos = (y.const[1] == (o == 'eq'))
                    if x.const is not None and x.const[0] == 'bool':
                        return bleaf(x.const[1] == pos)
                    return x if pos else x.but(tf=x.ff, ff=x.tf, const=None)
        r = lcmp(a.lin, b.lin) if a.ty != 'bool' else {'<', '=', '>'}
        c = None
        if o == 'eq':
            c = True if r == {'='} else False if '=' not in r else None
        elif o == 'ne':
            c = False if r == {'='} else True if '=' not in r else None
        elif o == 'lt':
            c = True if r == {'<'} else False if '<' not in r else None
        elif o == 'le':
            c = False if r == {'>'} else True if '>' not in r else None
        if c is None:
            self.unsure(a.lin, b.lin)
        ty = 'int' if a.ty != 'bool' else 'bool'
        f = (o, a.must, b.must, a.lin, b.lin, ty)
        if o in ('eq', 'ne'):
            g = (self.NEG[o], a.must, b.must, a.lin, b.lin, ty)
        elif o == 'lt':
            g = ('le', b.must, a.must, b.lin, a.lin, ty)
        else:
            g = ('lt', b.must, a.must, b.lin, a.lin, ty)
        if c is not None:
            return Leaf(must, may, const=('bool', c), tf=frozenset([f]) if c else EMPTY,
                        ff=EMPTY if c else frozenset([g]), ty='bool')
        return Leaf(must, may, tf=frozenset([f]), ff=frozenset([g]), ty='bool')

    def unsure(self, a, b):
        """Remembers that the outcome of a comparison depends on the position looked at."""
        if a is None or b is None:
            return
        d = sub(a, b)
        if len(d.t) == 1 and d.t[0][0][0] == 'v':
            self.undec.add((d.t[0][0], -d.c // d.t[0][1]))

    def boolop(self, o, a, b):
        must, may = a.must | b.must, a.may | b.may
        if o == 'BitAnd':
            if is_false(a) or is_false(b):
                return bleaf(False)
            if is_true(a):
                return b
            if is_true(b):
                return a
            return Leaf(must, may, tf=a.tf | b.tf, ff=meet_facts(a.ff, b.ff), ty='bool')
        if o == 'BitOr':
            if is_true(a) or is_true(b):
                return bleaf(True)
            if is_false(a):
                return b
            if is_false(b):
                return a
            return Leaf(must, may, tf=meet_facts(a.tf, b.tf), ff=a.ff | b.ff, ty='bool')
        return Leaf(must, may, ty='bool')

    def unop(self, o, x, st):
        if o == 'Not' and isinstance(x, Leaf) and x.ty == 'bool':
            c = x.const
            if c is not None and c[0] == 'bool':
                c = ('bool', not c[1])
            return Leaf(x.must, x.may, const=c, tf=x.ff, ff=x.tf, ty='bool')
        if o == 'PtrMetadata':
            v = self.deref(st, x)
            if isinstance(v, Coll):
                return v.len
            return Leaf(EMPTY, may_of(v), ty='int')
        if isinstance(x, Leaf):
            if o == 'Neg' and x.lin is not None:
                return x.but(lin=scale(x.lin, -1))
            return x.but(lin=None, const=None)
        return blur(x)

    # ------------------------------------------------------------ calls
    def do_call(self, B, fr, b, st, t):
        args = [self.operand(B, fr, st, a) for a in t['args']]
        f = t['f'].get('fn') if t['f']['o'] == 'const' else None
        if f is None:
            fv = self.operand(B, fr, st, t['f'])
            outs = self.apply(fv, args, st, fr, b, t['at'])
        else:
            outs = self.call_fn(f, args, st, fr, b, t['at'], t)
        res = []
        for s, v in outs:
            if t['to'] is None:
                continue
            self.assign(s, fr, t['dest'], v)
            res.append((t['to'], s))
        return res

    def call_fn(self, f, args, st, fr, site, at, t=None):
        r = f.get('r')
        if f.get('ctor'):
            return [(st, self.ctor(f, args))]
        if f.get('trait') in FN_TRAITS and len(args) == 2 and isinstance(args[1], Agg) and \
                args[1].kind == 'tuple':
            # arguments come as a tuple
            return self.apply(args[0], [v for _, v in args[1].fields], st, fr, site, at)
        p = None
        if r and r.get('local') and r['p'] in self.crate.fns:
            p = r['p']
        elif f.get('local') and f['p'] in self.crate.fns and not f.get('trait'):
            p = f['p']
        if p is not None and 'blocks' in self.crate.fns[p]:
            if not self.models.intercept(self, p):
                return self.call(p, args, st, fr, site, at)
        dest = t['dest']['t'] if t else None
        vals.EQUAL = len_eqs(st.passed)
        return self.models.ext(self, f, args, st, fr, site, at, dest)

    def ctor(self, f, args):
        name = f['p'].split('::')[-1]
        owner = '::'.join(f['p'].split('::')[:-1])
        if name in ('Some', 'None', 'Ok', 'Err') or f.get('ctor') == 'variant':
            return Enum(owner, [(name, tuple((str(i), a) for i, a in enumerate(args)), EMPTY)])
        return Agg('adt', f['p'], [(str(i), a) for i, a in enumerate(args)])

    def apply(self, fv, args, st, fr, site, at):
        """Calls a closure or function value."""
        fv0 = fv
        n = 0
        while isinstance(fv, Ref) and n < 6:
            fv = self.deref(st, fv)
            n += 1
        if isinstance(fv, Agg) and fv.kind == 'closure' and fv.name in self.crate.fns:
            B = self.body(fv.name)
            if B.f['locals'][1]['k'] == 'ref':
                if not isinstance(fv0, Ref):
                    fv0 = Ref([('V', fv)])
            else:
                fv0 = fv
            return self.call(fv.name, [fv0] + list(args), st, fr, site, at)
        if isinstance(fv, Agg) and fv.kind == 'fndef':
            return self.call_fn(self.fndefs[fv.name], list(args), st, fr, site, at)
        may = may_of(fv)
        for a in args:
            may |= may_of(a)
        self.event('unknown', fr, at, callee='function value')
        return [(st, Leaf(EMPTY, may, ty='?'))]


_eqs = {}


def len_eqs(passed):
    """The equalities of lengths among the facts, as a set of pairs."""
    r = _eqs.get(passed)
    if r is None:
        r = _eqs[passed] = frozenset(
            (f[3], f[4]) for f in passed
            if f[0] == 'eq' and f[5] == 'int' and f[3] is not None and f[4] is not None and
            f[3] != f[4] and all(len(l.t) == 1 and not l.c and l.t[0][1] == 1 and
                                 l.t[0][0][0] in ('len', 'val') for l in f[3:5]))
    return r


def sizes(v):
    """The numbers and the lengths an argument is made of."""
    if isinstance(v, Leaf):
        return (v.lin,) if v.ty not in ('scalar', 'point', 'cpoint', 'transcript') else ()
    if isinstance(v, Coll):
        return ('c', v.len.lin, sizes(v.default) if v.default is not None else ())
    if isinstance(v, Agg):
        return ('a',) + tuple((n, sizes(x)) for n, x in v.fields)
    if isinstance(v, Ref):
        return ('r',) + tuple((a[0], sizes(a[1])) if a[0] == 'V' else a[:3] + (
            tuple(tuple(x.lin if isinstance(x, Leaf) else x for x in p) for p in a[3]),)
            for a in v.alts)
    return ('?', v)


def told(z):
    return z is not None and (not isinstance(z, tuple) or not (z and z[0] == '?') and
                              all(told(x) for x in z))


def negs(g):
    """The facts that g rules out."""
    o, a, b, x, y, t = g
    if o == 'eq':
        r = [('ne', a, b, x, y, t)]
        if y == ZERO:
            r.append(('lt', b, a, y, x, t))
        elif x == ZERO:
            r.append(('lt', a, b, x, y, t))
        return r
    if o == 'ne':
        return [('eq', a, b, x, y, t)]
    if o in ('lt', 'le'):
        return [('le' if o == 'lt' else 'lt', b, a, y, x, t)]
    return []


def known(st, v):
    """v without the variant that the facts of the path rule out."""
    if len(v.vs) != 2:
        return v
    for i in (0, 1):
        fa = v.vs[i][2]
        if fa and fa <= st.passed and all(f[1] or f[3] is not None for f in fa) and \
                v.may <= v.must | frozenset(x for f in fa for x in (f[1] | f[2])):
            return Enum(v.name, [v.vs[i]], v.must, v.may)
    return v


# ---------------------------------------------------------------- navigation
def addproj(path, pr):
    """Appends a projection, folding sub-slices into later index expressions."""
    if path and path[-1][0] == 'sub':
        lo, n = path[-1][1], path[-1][2]
        if pr[0] == 'x':
            return path[:-1] + (('x', addleaf(lo, pr[1])),)
        if pr[0] == 'sub':
            return path[:-1] + (('sub', addleaf(lo, pr[1]), pr[2]),)
    return path + (pr,)


def addleaf(a, b):
    return Leaf(a.must | b.must, a.may | b.may, add(a.lin, b.lin), ty='int')


def nav(v, path):
    for p in path:
        if v is None:
            return None
        k = p[0]
        if k == 'f':
            if isinstance(v, Agg):
                v = v.get(p[1])
            elif isinstance(v, Leaf):
                v = v.but(const=None) if v.ty != 'int' else v
            elif isinstance(v, Enum) and len(v.vs) == 1:
                v = v.payload(v.vs[0][0], p[1])
            else:
                v = blur(v)
        elif k == 'd':
            if isinstance(v, Enum):
                x = v.variant(p[1])
                v = Agg('variant', p[1], x[1]) if x is not None else None
        elif k == 'x':
            if isinstance(v, Coll):
                v = read(v, p[1])
            else:
                v = blur(v)
        elif k == 'sub':
            if isinstance(v, Coll):
                v = subslice(v, p[1], p[2])
        else:
            v = blur(v)
    return v


def upd(v, path, new, weak):
    if not path:
        if weak and v is not None:
            return join(v, new)
        return new
    p = path[0]
    k = p[0]
    if k == 'f':
        if isinstance(v, Agg):
            return v.set(p[1], upd(v.get(p[1]), path[1:], new, weak))
        if isinstance(v, Enum) and len(v.vs) >= 1:
            return v
        if v is None:
            return Agg('mu', '', [(p[1], upd(None, path[1:], new, weak))])
        b = blur(v)
        n = blur(new)
        return b.but(must=b.must | n.must, may=b.may | n.may | n.must, lin=None, const=None)
    if k == 'd':
        if isinstance(v, Enum) and len(path) > 1 and path[1][0] == 'f':
            vs = []
            for n, fs, fa in v.vs:
                if n == p[1]:
                    fs = tuple((f, upd(x, path[2:], new, weak) if f == path[1][1] else x)
                               for f, x in fs)
                vs.append((n, fs, fa))
            return Enum(v.name, vs, v.must, v.may)
        return v
    if k == 'x':
        if isinstance(v, Coll):
            if len(path) == 1:
                if p[1].lin is None or not p[1].lin.is_const():
                    new = addmay(new, p[1].may | p[1].must)
                return write(v, p[1], new, weak)
            old = read(v, p[1])
            return write(v, p[1], upd(old, path[1:], new, weak), weak)
        if v is None:
            return None
        b, n = blur(v), blur(new)
        return b.but(may=b.may | n.may | n.must, lin=None, const=None)
    if k == 'sub':
        if isinstance(v, Coll) and isinstance(new, Coll) and len(path) == 1:
            h = max(v.bh, new.bh)
            v, new = raise_to(v, h), raise_to(new, h)
            lo, n = p[1], p[2]
            if lo.lin is None:
                return v.but(some=list(v.some) + [x for _, x in segs(new)])
            m = Map({bsym(h): sub(sym(bsym(h)), lo.lin)})
            hi = None if n.lin is None else add(lo.lin, n.lin)
            ovs = list(v.ovs)
            for q, x in segs(new):
                q2 = shift_tok(q, lo.lin)
                if not isinstance(q2, Lin) and q2[0] == 'I' and (q2[2] is None or q2[2] == LEND):
                    q2 = ('I', q2[1], hi)
                ovs = [(a, b) for a, b in ovs if a != q2]
                ovs.append((q2, m.val(x)))
            return v.but(ovs=ovs)
        if isinstance(v, Coll):
            return v.but(some=list(v.some) + [new])
        return v
    return v


# ---------------------------------------------------------------- loop generalisation
def has_var(x, s, memo):
    """Does value x mention symbol s?"""
    r = memo.get(x)
    if r is None:
        r = memo[x] = _has_var(x, s, memo)
    return r


def lin_has(l, s):
    if l is None:
        return False
    for q, _ in l.t:
        if q == s:
            return True
        if q[0] in ('val', 'len') and path_has(q[2], s):
            return True
        if q[0] == 'op' and any(lin_has(a, s) for a in q[2]):
            return True
    return False


def tok_has(t, s):
    if isinstance(t, Lin):
        return lin_has(t, s)
    if t[0] == 'I':
        return lin_has(t[1], s) or lin_has(t[2], s)
    if t[0] == 'pi':
        return lin_has(t[1], s)
    if t[0] == 'mx':
        return s in t[1]
    return False


_ph = {}


def path_has(p, s):
    r = _ph.get((p, s))
    if r is None:
        if len(_ph) > 300000:
            _ph.clear()
        r = _ph[(p, s)] = any(not isinstance(x, str) and tok_has(x, s) for x in p)
    return r


def atom_has(a, s):
    return path_has(a[1], s)


def fact_has(f, s):
    return any(atom_has(a, s) for a in f[1]) or any(atom_has(a, s) for a in f[2]) or \
        lin_has(f[3], s) or lin_has(f[4], s)


def _has_var(x, s, memo):
    if isinstance(x, Leaf):
        return any(atom_has(a, s) for a in x.must) or any(atom_has(a, s) for a in x.may) or \
            lin_has(x.lin, s) or any(fact_has(f, s) for f in x.tf) or \
            any(fact_has(f, s) for f in x.ff)
    if isinstance(x, Agg):
        return any(has_var(v, s, memo) for _, v in x.fields)
    if isinstance(x, Enum):
        return any(has_var(v, s, memo) for _, fs, _ in x.vs for _, v in fs) or \
            any(fact_has(f, s) for _, _, fa in x.vs for f in fa) or \
            any(atom_has(a, s) for a in x.must | x.may)
    if isinstance(x, Coll):
        return has_var(x.len, s, memo) or (x.default is not None and has_var(x.default, s, memo)) \
            or any(tok_has(p, s) or has_var(v, s, memo) for p, v in x.ovs) or \
            any(has_var(v, s, memo) for v in x.some)
    if isinstance(x, Ref):
        for a in x.alts:
            if a[0] == 'V':
                if a[1] is not None and has_var(a[1], s, memo):
                    return True
            else:
                for p in a[3]:
                    if p[0] in ('x', 'sub') and any(has_var(y, s, memo) for y in p[1:]):
                        return True
        return False
    if isinstance(x, Iter):
        return any(isinstance(a, Val) and has_var(a, s, memo) for a in x.args) or \
            has_var(x.pos, s, memo)
    return False


class Gen:
    """Generalises the state at a loop header over one more iteration."""

    def __init__(self, it, iota, dec, npass, cond):
        self.it, self.iota, self.dec, self.npass, self.cond = it, iota, dec, npass, cond
        self.key = iota[1]
        self.back = Map({}, back=iota)
        self.prev = Map({iota: sub(sym(iota), ONE)})
        self.next = Map({iota: add(sym(iota), ONE)})
        self.start = Map({iota: const(VEC_MIN.get(self.key, 0))})
        self.hv = {}
        self.grow = npass < 2
        self.sums = ()

    def pi_atoms(self, s):
        return self.back.atoms(s)

    def is_pi(self, a):
        return any(not isinstance(x, str) and not isinstance(x, Lin) and (
            x[0] == 'pi' and lin_has(x[1], self.iota) or
            x[0] == 'mx' and ('p', self.iota) in x[1]) for x in a[1])

    def unpi(self, a):
        return (a[0], self.unpi_path(a[1]))

    def unpi_path(self, p):
        return tuple(x if isinstance(x, str) else self.unpi_tok(x) for x in p)

    def unpi_tok(self, x):
        if isinstance(x, Lin):
            return self.unpi_lin(x)
        if x[0] == 'pi' and lin_has(x[1], self.iota):
            return x[1]
        if x[0] == 'mx' and ('p', self.iota) in x[1]:
            return ('mx', x[1] - {('p', self.iota)} | {self.iota, FL})
        if x[0] == 'I':
            return ('I', self.unpi_lin(x[1]), None if x[2] is None else self.unpi_lin(x[2]))
        return x

    def unpi_lin(self, l):
        """Positions of an earlier iteration inside a length."""
        d = {}
        for s, k in l.t:
            if s[0] in ('val', 'len'):
                s = (s[0], s[1], self.unpi_path(s[2]))
            elif s[0] == 'op':
                s = (s[0], s[1], tuple(self.unpi_lin(x) for x in s[2]))
            d[s] = d.get(s, 0) + k
        return lin(d, l.c)

    def setgen(self, h, b, path=()):
        """must sets."""
        if h == b and not any(atom_has(a, self.iota) for a in b):
            return h
        r = set()
        cur = set()
        if path and self.npass == 0:
            self.dec[(path, 'h0')] = h
        for a in b:
            if atom_has(a, self.iota) and not self.is_pi(a):
                cur.add(a)
        rough = [a for a in b if MXE in a[1]]

        def within(a):
            return a in b or any(atom_sub(x, a) for x in rough)
        for a in h:
            if self.is_pi(a):
                if self.grow or (within(a) and within(self.unpi(a))):
                    r.add(a)
                elif path and self.unpi(a) in b and self.dec.get((path, 'last', a)):
                    # replaced in every iteration: only what the last one put there is left
                    r.add(self.prev.atom(self.unpi(a)))
            elif atom_has(a, self.iota):
                if a in b or self.next.atom(a) in b:
                    r.add(a)
            elif a in b:
                r.add(a)
            elif any(atom_sub(x, a) for x in b):
                r.add(a)
        if self.grow:
            for a in cur:
                x = self.back.atom(a)
                r.add(x)
                if path:
                    h0 = self.dec.setdefault((path, 'h0'), h)
                    y = self.start.atom(self.prev.atom(a))
                    if any(atom_sub(z, y) for z in h0):
                        self.dec[(path, 'last', x)] = True
        return frozenset(r)

    def maygen(self, h, b):
        add = []
        for a in self.pi_atoms(b) - h:
            # what an earlier iteration left: any earlier iteration
            a = (a[0], tuple(('pi', sym(self.iota)) if not isinstance(x, str) and
                             not isinstance(x, Lin) and x[0] == 'pi' and
                             sub(x[1], sym(self.iota)).is_const() else x for x in a[1]))
            if a not in h and not any(x[0] == a[0] and atom_sub(x, a) for x in h):
                add.append(a)
        return h | frozenset(add) if add else h

    def fpi(self, f):
        return any(self.is_pi(a) for a in f[1]) or any(self.is_pi(a) for a in f[2])

    def funpi(self, f):
        return (f[0], frozenset(self.unpi(a) if self.is_pi(a) else a for a in f[1]),
                frozenset(self.unpi(a) if self.is_pi(a) else a for a in f[2]), f[3], f[4], f[5])

    def factgen(self, h, b):
        if h == b and not any(fact_has(f, self.iota) for f in b):
            return h
        grow = self.npass < 6     # what a fact says may still get stronger
        r = set()
        bset = set(self.back.facts(frozenset([f])) and next(iter(self.back.facts(frozenset([f]))))
                   for f in b)
        bpi = {(f[0], f[1], f[2], f[5]) for f in bset}
        for f in h:
            if f in b or (self.fpi(f) and (f[0], f[1], f[2], f[5]) in bpi and
                          (grow or any(fact_has(g, self.iota) and not self.fpi(g) and
                                            self.back.fact(g)[:3] == f[:3] for g in b))):
                r.add(f)
        if grow:
            for f in b:
                if fact_has(f, self.iota) and not self.fpi(f):
                    g = self.back.fact(f)
                    r.add(g)
        # the same comparison made in every iteration with iteration-independent sides
        return frozenset(r)

    def state(self, h, b):
        n = h.copy()
        for fr in set(h.env) | set(b.env):
            eh, eb = h.env.get(fr), b.env.get(fr)
            if eh is eb or eb is None:
                continue
            if eh is None:
                if fr == 'heap':
                    continue
                n.env[fr] = eb
                continue
            d = None
            for l, vb in eb.items():
                vh = eh.get(l)
                if vh is None:
                    continue
                if vh is vb and not has_var(vh, self.iota, self.hv):
                    continue
                v = self.val(vh, vb, (fr, l))
                if v is not vh:
                    if d is None:
                        d = dict(eh)
                    d[l] = v
            if d is not None:
                n.env[fr] = d
                n.own.add(fr)
        for t in set(h.tr) | set(b.tr):
            x, y = h.tr.get(t), b.tr.get(t)
            if x is None or y is None:
                n.tr[t] = x or y
                continue
            n.tr[t] = (self.setgen(x[0], y[0]), self.maygen(x[1], y[1]))
        n.passed = self.factgen(h.passed, b.passed)
        return n

    def val(self, h, b, path):
        if b is None or h is None:
            return h if h is not None else self.back.val(b)
        if (h is b or h == b) and not has_var(h, self.iota, self.hv):
            return h
        if self.npass > 8:
            # give up on structure
            if isinstance(h, Leaf) and isinstance(b, Leaf):
                return self.leaf(h, b, path)
            r = join(h, self.back.val(b), NOCTL)
            if self.npass > 10:
                r = Leaf(meet(must_of(h), must_of(b)), may_of(h) | self.pi_atoms(may_of(b)),
                         cls=cls_of(h) | cls_of(b), ty=kind_of(h))
                if r.may <= may_of(h) and isinstance(h, Leaf):
                    return h
            return r
        if isinstance(h, Leaf) and isinstance(b, Leaf):
            return self.leaf(h, b, path)
        if isinstance(h, Agg) and isinstance(b, Agg) and h.kind == b.kind and h.name == b.name:
            return Agg(h.kind, h.name, [(n, self.val(v, b.get(n), path + (n,)))
                                        for n, v in h.fields])
        if isinstance(h, Enum) and isinstance(b, Enum):
            vs = []
            for n in sorted({x[0] for x in h.vs} | {x[0] for x in b.vs}):
                x, y = h.variant(n), b.variant(n)
                if x is None:
                    vs.append((n, tuple((f, self.back.val(v)) for f, v in y[1]),
                               self.back.facts(y[2])))
                elif y is None:
                    vs.append(x)
                else:
                    vs.append((n, tuple((f, self.val(v, w, path + (n, f)))
                                        for (f, v), (_, w) in zip(x[1], y[1])),
                               self.factgen(x[2], y[2])))
            return Enum(h.name, vs, self.setgen(h.must, b.must), self.maygen(h.may, b.may))
        if isinstance(h, Coll) and isinstance(b, Coll):
            return self.coll(h, b, path)
        if isinstance(h, Ref) and isinstance(b, Ref):
            return self.ref(h, b, path)
        if isinstance(h, Iter) and isinstance(b, Iter) and h.kind == b.kind and \
                len(h.args) == len(b.args):
            return Iter(h.kind, [self.val(x, y, path + (i,)) if isinstance(x, Val) else x
                                 for i, (x, y) in enumerate(zip(h.args, b.args))],
                        self.val(h.pos, b.pos, path + ('pos',)))
        return join(h, self.back.val(b), NOCTL)

    def leaf(self, h, b, path):
        must = self.setgen(h.must, b.must, path)
        may = self.maygen(h.may, b.may)
        l = h.lin
        if h.ty == 'int' or h.lin is not None or b.lin is not None:
            l, extra = self.lin(h.lin, b.lin, path)
            if extra:
                may = may | self.cond
        c = h.const if h.const == b.const else None
        tf, ff = EMPTY, EMPTY
        if h.ty == 'bool':
            if is_false(h):
                tf = self.back.facts(b.tf)
            elif is_false(b):
                tf = h.tf
            elif is_true(h) and self.npass == 0:
                tf = self.back.facts(b.tf)
            else:
                tf = self.factgen(h.tf, b.tf)
            if is_true(h):
                ff = self.back.facts(b.ff)
            elif is_true(b):
                ff = h.ff
            elif is_false(h) and self.npass == 0:
                ff = self.back.facts(b.ff)
            else:
                ff = self.factgen(h.ff, b.ff)
        cls = h.cls | b.cls
        if len(path) == 2 and path[1] in self.sums:
            cls = csum(cls)
        return Leaf(must, may, l, c, tf, ff, cls, h.ty or b.ty, self.mo(h, b, path))

    def mo(self, h, b, path):
        if h.mo == b.mo and not any(self.mohas(h.mo)):
            return h.mo
        if h.mo is None or b.mo is None or type(h.mo) is tuple or type(b.mo) is tuple:
            return None

        def f(x, y, w):
            r = self.lin(x, y, path + ('mo',) + w)[0]
            return None if any(s[0] == 'w' for s, _ in r.t) else r
        return mo_zip(h.mo, b.mo, f)

    def mohas(self, m):
        for _, f in (f for a in mo_alts(m) for f in a or ()):
            for x, n in f:
                yield lin_has(n, self.iota) or atom_has(x, self.iota)

    def wsym(self, path):
        return sym(('w', (self.key[0][-60:], self.key[1]) + path))

    def lin(self, hl, bl, path):
        d = self.dec.get(path)
        if d == 'w':
            return self.wsym(path), True
        if hl is None or bl is None:
            self.dec[path] = 'w'
            return self.wsym(path), True
        if hl == bl and not lin_has(hl, self.iota):
            return hl, False
        m = const(VEC_MIN.get(self.key, 0))
        if d is None:
            # value of the previous iteration seen from the next one
            prev = Map({self.iota: sub(sym(self.iota), ONE)}).lin(bl)
            if lin_has(bl, self.iota):
                if Map({self.iota: m}).lin(prev) == hl and not self.bad(prev):
                    self.dec[path] = ('p', prev)
                    return prev, False
            df = sub(bl, hl)
            if df.is_const() and df.c and not lin_has(hl, self.iota):
                self.dec[path] = ('i', hl, df.c)
                return add(hl, scale(sub(sym(self.iota), m), df.c)), False
            self.dec[path] = 'w'
            return self.wsym(path), True
        if d[0] == 'i':
            want = add(d[1], scale(sub(sym(self.iota), m), d[2]))
            if hl == want and sub(bl, hl) == const(d[2]):
                return want, False
        elif d[0] == 'p':
            prev = Map({self.iota: sub(sym(self.iota), ONE)}).lin(bl)
            if prev == d[1]:
                return d[1], False
        self.dec[path] = 'w'
        return self.wsym(path), True

    def bad(self, l):
        return any(s[0] == 'w' for s, _ in l.t)

    def ref(self, h, b, path):
        if len(h.alts) == 1 and len(b.alts) == 1:
            x, y = h.alts[0], b.alts[0]
            if x[0] == 'V' and y[0] == 'V':
                return Ref([('V', self.val(x[1], y[1], path))])
            if x[0] == 'P' and y[0] == 'P' and x[1:3] == y[1:3] and len(x[3]) == len(y[3]):
                ps = []
                for i, (p, q) in enumerate(zip(x[3], y[3])):
                    if p == q and not any(isinstance(z, Val) and has_var(z, self.iota, self.hv)
                                          for z in p[1:]):
                        ps.append(p)
                    elif p[0] == q[0] and p[0] in ('x', 'sub'):
                        ps.append((p[0],) + tuple(self.val(u, v, path + (i, k)) for k, (u, v) in
                                                  enumerate(zip(p[1:], q[1:]))))
                    else:
                        break
                else:
                    return Ref([('P', x[1], x[2], tuple(ps))])
        return join(h, self.back.val(b), NOCTL)

    def coll(self, h, b, path):
        hh = max(h.bh, b.bh)
        h, b = raise_to(h, hh), raise_to(b, hh)
        bv = bsym(hh)
        n = self.val(h.len, b.len, path + ('len',))
        if h.default is not None and b.default is not None:
            d = self.val(h.default, b.default, path + ('each',))
        else:
            d = h.default if h.default is not None else self.back.val(b.default)
        ovs = list(h.ovs)
        seen = set()

        def put(q, v, tag):
            """Adds element v (already in header terms or as seen at the back edge)."""
            for i, (p, old) in enumerate(ovs):
                if p == q or same_dim(p, q):
                    seen.add(i)
                    nv = self.val(old, v, path + (tag, i))
                    ovs[i] = (p, nv)
                    return
            seen.add(len(ovs))
            ovs.append((q, self.back.val(v) if has_var(v, self.iota, self.hv) else v))

        for p, e in b.ovs:
            if isinstance(p, Lin) and lin_has(p, self.iota):
                q = ('pi', p)
                k = dict(p.t).get(self.iota)
                if k == 1:
                    r = sub(p, sym(self.iota))
                    e2 = Map({self.iota: sub(sym(bv), r)}).val(e)
                elif k == -1:
                    r = add(p, sym(self.iota))
                    e2 = Map({self.iota: sub(r, sym(bv))}).val(e)
                else:
                    e2 = Map({}, close={self.iota: (ZERO, 'brk')}).val(e)
                hit = False
                for i, (p2, old) in enumerate(ovs):
                    if p2 == q:
                        seen.add(i)
                        nv = old if old == e2 else join(old, e2, NOCTL, lenient=True)
                        ovs[i] = (p2, nv)
                        hit = True
                        break
                if not hit:
                    seen.add(len(ovs))
                    ovs.append((q, e2))
            elif not isinstance(p, Lin) and p[0] == 'pi' and tok_has(p, self.iota):
                hit = False
                for i, (p2, old) in enumerate(ovs):
                    if p2 == p:
                        seen.add(i)
                        if old != e:
                            ovs[i] = (p2, self.val(old, e, path + ('o', i)))
                        hit = True
                        break
                if not hit:
                    seen.add(len(ovs))
                    ovs.append((p, e))
            elif not isinstance(p, Lin) and tok_has(p, self.iota):
                put(self.back.tok(p), e, 'o')
            else:
                put(p, e, 'o')
        # header positions the body removed or merged
        out = []
        for i, (p, v) in enumerate(ovs):
            if i < len(h.ovs) and i not in seen:
                if isinstance(p, Lin):
                    if b.len.lin is not None and '<' not in lcmp(p, b.len.lin) and \
                            not lin_has(b.len.lin, self.iota):
                        continue
                    x = read(b, ileaf(p))
                else:
                    x = b.default
                    if x is None and b.ovs:
                        x = union([at(v2, bv, q) if isinstance(q, Lin) else v2
                                   for q, v2 in b.ovs])
                if x is None:
                    continue
                v = self.val(v, x, path + ('o', i))
            out.append((p, v))
        some = list(h.some)
        for x in b.some:
            y = self.back.val(x)
            if y not in some:
                some.append(y)
        if len(some) > 1:
            some = [union(some)]
        h2 = max([hh] + [height(v) + 1 for v in [x for _, x in out] + some +
                         ([d] if d is not None else [])])
        return Coll(h.kind, n, h2, lift(d, hh, h2), [(p, lift(v, hh, h2)) for p, v in out],
                    [lift(v, hh, h2) for v in some])
