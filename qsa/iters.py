"""Lazy iterators of the abstract interpreter.

An Iter is (kind, args, pos).  `elem(it, p)` is the element at absolute position p (Leaf),
`length(it)` the number of elements in total, or a leaf without value when unknown.
"""
from .dom import *
from .vals import *

OPT = 'std::option::Option'


def some(v, facts=EMPTY, must=EMPTY, may=EMPTY):
    return Enum(OPT, [('Some', (('0', v),), facts)], must, may)


NONE = Enum(OPT, [('None', (), EMPTY)])


def opt(v, sf=EMPTY, nf=EMPTY, must=EMPTY, may=EMPTY):
    return Enum(OPT, [('Some', (('0', v),), sf), ('None', (), nf)], must, may)


def unk(key, must=EMPTY, may=EMPTY):
    return Leaf(must, may, sym(('u', key)), ty='int')


def plus(a, b, k=1):
    return Leaf(a.must | b.must, a.may | b.may, add(a.lin, b.lin, k), ty='int')


def tup(*xs):
    return Agg('tuple', '', [(str(i), x) for i, x in enumerate(xs)])


def rng(lo, hi):
    return Iter('range', (lo, hi))


def seq(c, mode):
    return Iter('seq', (c, mode))


INF = ('op', 'inf', ())


class Iters:
    """Needs self.it (Interp), set per call through ctx = (st, fr, site, at)."""

    def length(self, it):
        k, a = it.kind, it.args
        if k == 'seq':
            return a[0].len
        if k == 'mseq':
            return a[1]
        if k == 'range':
            lo, hi = a
            l = sub(hi.lin, lo.lin) if hi.lin is not None and lo.lin is not None else None
            if l is not None and '>' in lcmp(lo.lin, hi.lin) and lower(l) is None:
                # an empty range rather than a negative length: keep the difference
                pass
            return Leaf(lo.must | hi.must, lo.may | hi.may, l, ty='int')
        if k in ('map', 'enumerate', 'rev', 'cloned', 'inspect'):
            return self.rest(a[0])
        if k == 'zip':
            x, y = self.rest(a[0]), self.rest(a[1])
            if x.lin is not None and sym_inf(x.lin):
                return y
            if y.lin is not None and sym_inf(y.lin):
                return x
            return min_leaf(x, y)
        if k == 'chain':
            return plus(self.rest(a[0]), self.rest(a[1]))
        if k == 'take':
            x = self.rest(a[0])
            if x.lin is not None and sym_inf(x.lin):
                return a[1]
            return min_leaf(x, a[1])
        if k == 'skip':
            return plus(self.rest(a[0]), a[1], -1)
        if k == 'once':
            return ileaf(ONE)
        if k == 'repeat':
            return ileaf(sym(INF))
        if k == 'chunks':
            n, c = a[0].len, a[1]
            l = None
            if n.lin is not None and c.lin is not None:
                l = op('div_ceil' if len(a) == 2 and c.lin.is_const() else 'div', n.lin, c.lin)
            return Leaf(n.must | c.must, n.may | c.may, l, ty='int')
        if k == 'windows':
            return Leaf(a[0].len.must, a[0].len.may, add(sub(a[0].len.lin, a[1].lin), ONE)
                        if a[0].len.lin is not None and a[1].lin is not None else None, ty='int')
        if k == 'stepby':
            n, c = self.rest(a[0]), a[1]
            l = op('div', n.lin, c.lin) if n.lin is not None and c.lin is not None else None
            return Leaf(n.must | c.must, n.may | c.may, l, ty='int')
        if k in ('filter', 'flatten', 'cut'):
            m = EMPTY
            for x in a:
                if isinstance(x, Val):
                    m |= may_of(x)
            return Leaf(EMPTY, m, sym(('u', a[-1])), ty='int')
        return Leaf(EMPTY, may_of(it), ty='int')

    def rest(self, it):
        n = self.length(it)
        if it.pos.lin == ZERO:
            return n
        return plus(n, it.pos, -1)

    def elem(self, it, p, ctx):
        """Element at position it.pos + p; may call closures.  Returns (ctx state, value)."""
        if it.pos.lin != ZERO:
            p = plus(p, it.pos)
        st, fr, site, at_ = ctx
        k, a = it.kind, it.args
        if k == 'seq':
            v = read(a[0], p)
            if v is None:
                v = Leaf(ty='?')
            return st, (Ref([('V', v)]) if a[1] == 'r' else v)
        if k == 'mseq':
            alts = [('P', x[1], x[2], _proj(x[3], ('x', p))) if x[0] == 'P' else
                    ('V', read(x[1], p) if isinstance(x[1], Coll) else x[1])
                    for x in a[0].alts]
            return st, Ref(alts)
        if k == 'range':
            lo = a[0]
            return st, Leaf(lo.must | p.must, lo.may | p.may, add(lo.lin, p.lin), ty='int')
        if k == 'map':
            st, v = self.elem(a[0], p, ctx)
            return self.call1(a[1], [v], (st, fr, site, at_), a[2])
        if k == 'inspect':
            st, v = self.elem(a[0], p, ctx)
            st, _ = self.call1(a[1], [Ref([('V', v)])], (st, fr, site, at_), a[2])
            return st, v
        if k == 'enumerate':
            st, v = self.elem(a[0], p, ctx)
            return st, tup(p, v)
        if k == 'zip':
            st, x = self.elem(a[0], p, ctx)
            st, y = self.elem(a[1], p, (st, fr, site, at_))
            return st, tup(x, y)
        if k == 'cloned':
            st, v = self.elem(a[0], p, ctx)
            return st, self.it.deref(st, v)
        if k == 'take':
            return self.elem(a[0], p, ctx)
        if k == 'skip':
            return self.elem(a[0], plus(p, a[1]), ctx)
        if k == 'stepby':
            l = self.it.arith('Mul', p.lin, a[1].lin)
            return self.elem(a[0], Leaf(p.must | a[1].must, p.may | a[1].may, l, ty='int'), ctx)
        if k == 'rev':
            n = self.rest(a[0])
            q = plus(plus(n, p, -1), ileaf(ONE), -1)
            return self.elem(a[0], q, ctx)
        if k in ('once', 'repeat'):
            return st, a[0]
        if k == 'chain':
            n = self.rest(a[0])
            r = lcmp(p.lin, n.lin)
            if r == {'<'}:
                return self.elem(a[0], p, ctx)
            if '<' not in r:
                return self.elem(a[1], plus(p, n, -1), ctx)
            st, c = self.mat(it.at(ILEAF0), ctx)
            v = read(c, p)
            return st, v if v is not None else Leaf(ty='?')
        if k == 'chunks':
            c, n = a[:2]
            lo = Leaf(p.must | n.must, p.may | n.may, self.it.arith('Mul', p.lin, n.lin), ty='int')
            return st, Ref([('V', subslice(c, lo, n).but(kind='slice'))])
        if k == 'windows':
            return st, Ref([('V', subslice(a[0], p, a[1]).but(kind='slice'))])
        if k == 'filter':
            st, v = self.generic(a[0], p, ctx)
            st2, q = self.call1(a[1], [Ref([('V', v)])], (st, fr, site, at_), a[2])
            self.event_filter(q, a[0], ctx, v, a[-1])
            return st2, self.kept(addmay(v, may_of(q)), a[-1], p)
        if k == 'cut':
            st, v = self.generic(a[0], p, ctx)
            return st, v
        if k == 'flatten':
            st, v = self.generic(a[0], p, ctx, FL)
            w = self.it.deref(st, v)
            c = self.coll_of(w)
            if c is not None:
                mxs = mxof(p)
                mxs = mxs and mxs | {FL}
                b = bsym(c.bh)
                parts = []
                for q, e in segs(c):
                    parts.append(at(e, b, q) if isinstance(q, Lin) else
                                 mixmap(c, mxs).val(e))
                parts += [mixmap(c, mxs).val(e) for e in c.some]
                u = union(parts)
                if u is None:
                    u = Leaf(ty='?')
                if isinstance(v, Ref):
                    u = Ref([('V', u)])
                return st, u
            if isinstance(w, Enum):
                x = w.payload('Some')
                if x is None:
                    x = w.payload('Ok')
                return st, x if x is not None else Leaf(ty='?')
            if isinstance(w, Iter):
                return self.generic(w, p, (st, fr, site, at_))
            return st, blur(w) if w is not None else Leaf(ty='?')
        return st, Leaf(EMPTY, may_of(it), ty='?')

    def generic(self, it, p, ctx, mark=None):
        """Some element of it, at a position that relates to p in an unknown but complete way."""
        st, c = self.mat(it, ctx)
        b = bsym(c.bh)
        mxs = mxof(p)
        if mark and mxs:
            mxs = mxs | {mark}
        parts = []
        for q, e in segs(c):
            if isinstance(q, Lin):
                parts.append(at(e, b, q))
            else:
                parts.append(mixmap(c, mxs).val(e))
        parts += [mixmap(c, mxs).val(e) for e in c.some]
        u = union(parts)
        return st, u if u is not None else Leaf(ty='?')

    def event_filter(self, q, src, ctx, v, key):
        st, fr, site, at_ = ctx
        self.it.event('filter', fr, at_, pred=q, elem=may_of(v), stk=self.it.stk(),
                      n=self.rest(src).lin, key=key, item=v)

    def kept(self, v, key, p):
        """An integer that went through a filter: the p-th one that did."""
        if isinstance(v, Ref) and len(v.alts) == 1 and v.alts[0][0] == 'V':
            return Ref([('V', self.kept(v.alts[0][1], key, p))])
        if isinstance(v, Leaf) and v.ty == 'int' and p.lin is not None:
            return v.but(lin=op('kept:%s' % (key,), p.lin))
        return v

    def coll_of(self, v):
        if isinstance(v, Coll):
            return v
        return None

    # ------------------------------------------------------------ calling closures
    def call1(self, f, args, ctx, site):
        """Calls a closure; several outcomes are joined.  Returns (state, value)."""
        st, fr, _, at_ = ctx
        outs = self.it.apply(f, args, st, fr, 'c' + str(site), at_)
        if not outs:
            return st, Leaf(ty='?')
        return self.join_outs(outs, fr, site)

    def join_outs(self, outs, fr, site):
        if len(outs) == 1:
            return outs[0]
        s, v = outs[0]
        for s2, v2 in outs[1:]:
            m = EMPTY
            for x in s.pc:
                if x not in s2.pc:
                    m |= x[2]
            for x in s2.pc:
                if x not in s.pc:
                    m |= x[2]
            pa, pb = s.passed, s2.passed
            com = pa & pb
            v = join(v, v2, Ctl(m, pa - com, pb - com, (fr[-60:], 'o', site)))
            s = self.it.join2(s, s2, m, (fr[-60:], 'o', site), (fr, 'o', site, self.it.stk()))
        return s, v

    # ------------------------------------------------------------ materialising
    def mat(self, it, ctx):
        """All remaining elements as a Coll.  Returns (state, Coll)."""
        st, fr, site, at_ = ctx
        k, a = it.kind, it.args
        p0 = it.pos

        def rest_of(c):
            if p0.lin == ZERO:
                return c
            return subslice(c, p0, plus(c.len, p0, -1))
        if k == 'seq':
            c = rest_of(a[0])
            if a[1] == 'r':
                c = map_coll(c, lambda e: Ref([('V', e)]))
            return st, c.but(kind='vec')
        if k == 'range':
            n = self.length(it)
            lo = a[0]
            b = ('v', ('rg', 0))
            e = Leaf(lo.must, lo.may, add(lo.lin, sym(b)), ty='int')
            c = mkcoll('vec', n, e, b)
            return st, rest_of(c)
        if k in ('map', 'inspect'):
            st, c = self.mat(a[0], ctx)
            if k == 'inspect':
                f = a[1]
                st, _ = self.map_parts(c, f, (st, fr, site, at_), a[2])
                return st, rest_of(c)
            st, c = self.map_parts(c, a[1], (st, fr, site, at_), a[2])
            return st, rest_of(c)
        if k == 'enumerate':
            st, c = self.mat(a[0], ctx)
            h = c.bh
            ovs = []
            for p, e in c.ovs:
                ovs.append((p, tup(ileaf(p if isinstance(p, Lin) else sym(bsym(h))), e)))
            d = tup(ileaf(sym(bsym(h))), c.default) if c.default is not None else None
            h2 = max([h] + [height(x) + 1 for x in ([d] if d is not None else []) +
                            [x for _, x in ovs]])
            c = Coll('vec', c.len, h2, lift(d, h, h2), [(p, lift(x, h, h2)) for p, x in ovs],
                     [lift(tup(Leaf(ty='int'), x), h, h2) for x in c.some])
            return st, rest_of(c)
        if k == 'zip':
            if a[0].kind == 'repeat' or a[1].kind == 'repeat':
                i = 0 if a[0].kind == 'repeat' else 1
                st, c = self.mat(a[1 - i], ctx)
                e = a[i].args[0]
                c = map_coll(c, lambda x: tup(e, x) if i == 0 else tup(x, e))
                return st, rest_of(c)
            if infinite_range(a[0]) or infinite_range(a[1]):
                i = 0 if infinite_range(a[0]) else 1
                st, c = self.mat(a[1 - i], ctx)
                r = a[i]
                st, ri = self.mat(Iter('range', (r.args[0], plus(r.args[0], c.len)), r.pos),
                                  (st, fr, site, at_))
                x, y = (ri, c) if i == 0 else (c, ri)
                return st, rest_of(zip_colls(x, y, tup))
            st, x = self.mat(a[0], ctx)
            st, y = self.mat(a[1], (st, fr, site, at_))
            return st, rest_of(zip_colls(x, y, tup))
        if k == 'chain':
            st, x = self.mat(a[0], ctx)
            st, y = self.mat(a[1], (st, fr, site, at_))
            return st, rest_of(concat(x, y))
        if k == 'cloned':
            st, c = self.mat(a[0], ctx)
            return st, rest_of(map_coll(c, lambda e: self.it.deref(st, e)))
        if k == 'take':
            st, c = self.mat(a[0], ctx)
            return st, rest_of(subslice(c, ILEAF0, self.length(it.at(ILEAF0))))
        if k == 'skip':
            st, c = self.mat(a[0], ctx)
            return st, rest_of(subslice(c, a[1], plus(c.len, a[1], -1)))
        if k == 'once':
            return st, Coll('vec', ileaf(ONE), height(a[0]) + 1, None, [(ZERO, a[0])])
        if k == 'repeat':
            return st, Coll('vec', ileaf(sym(INF)), height(a[0]) + 1, a[0])
        if k == 'rev':
            st, c = self.mat(a[0], ctx)
            n = c.len.lin
            b = bsym(c.bh)
            if n is not None and c.default is not None and not c.ovs and not c.some:
                m = Map({b: sub(sub(n, ONE), sym(b))})
                return st, rest_of(c.but(default=m.val(c.default)))
            if n is not None and n.is_const() and c.default is None and not c.some and all(
                    isinstance(p, Lin) for p, _ in c.ovs):
                return st, rest_of(c.but(ovs=[(sub(sub(n, ONE), p), v) for p, v in c.ovs]))
            parts = [at(e, b, q) if isinstance(q, Lin) else
                     mixmap(c, frozenset([b])).val(e) for q, e in segs(c)] + list(c.some)
            u = union(parts)
            h2 = max(c.bh, height(u) + 1)
            return st, rest_of(Coll('vec', c.len, h2, lift(u, c.bh, h2)))
        if k in ('filter', 'flatten', 'cut', 'chunks', 'windows', 'stepby'):
            n = self.length(it)
            v0 = ('v', ('mt', fr, site))
            VEC_MIN[v0[1]] = 0
            self.it.loopstk.append(sym(v0))
            known = st.passed
            st, e = self.elem(it.at(ILEAF0), ileaf(sym(v0)), ctx)
            self.it.inner |= st.passed - known
            self.it.loopstk.pop()
            return st, rest_of(mkcoll('vec', n, e, v0))
        if k == 'mseq':
            c = self.it.deref(st, a[0])
            if isinstance(c, Coll):
                return st, rest_of(map_coll(c, lambda e: Ref([('V', e)])).but(kind='vec'))
        m = may_of(it)
        return st, Coll('vec', Leaf(EMPTY, m, sym(('u', ('mat', fr, site))), ty='int'), 1,
                        Leaf(EMPTY, m, ty='?'))

    def map_parts(self, c, f, ctx, fsite):
        """f applied to the elements of c.  Closures without effects are evaluated once per part
        at a symbolic position; others run through the loop summariser."""
        st, fr, site, at_ = ctx
        m = self.it.mark()
        keep = st.copy()
        v0 = ('v', ('it', fr, site, fsite))
        VEC_MIN[v0[1]] = 0
        b = bsym(c.bh)
        parts = []
        pure = True
        cur = st
        before = (dict(st.env), dict(st.tr), st.node, len(self.it.edges))

        def one(e, p):
            nonlocal cur, pure
            pos = p if isinstance(p, Lin) else sym(v0)
            self.it.loopstk.append(pos)
            x = at(e, b, pos)
            cur, r = self.call1(f, [x], (cur, fr, site, at_), fsite)
            self.it.loopstk.pop()
            if cur.node != before[2] or cur.tr != before[1]:
                pure = False
            for k2, v2 in cur.env.items():
                w = before[0].get(k2)
                if k2 != 'heap' and v2 is not w and (w is None or v2 != w):
                    pure = False
            if isinstance(p, Lin):
                return height(r) + 1, r
            return bind(r, v0)
        d = None
        ovs = []
        if c.default is not None:
            undec, self.it.undec = self.it.undec, set()
            m1, s1 = self.it.mark(), cur.copy()
            d = one(c.default, None)
            first = [k for s, k in self.it.undec if s == v0 and 0 <= k <= 2]
            self.it.undec |= undec
            if pure and first:
                # what is done depends on the position: the first few are looked at one by one
                self.it.rollback(m1)
                cur = s1
                for k in range(max(first) + 1):
                    ovs.append((const(k), one(c.default, const(k))))
                VEC_MIN[v0[1]] = max(first) + 1
                d = one(c.default, None)
        if pure:
            for p, e in c.ovs:
                ovs.append((p, one(e, p)))
                if not pure:
                    break
        some_ = []
        if pure:
            for e in c.some:
                some_.append(one(e, None))
        if not pure:
            self.it.rollback(m)
            return self.map_loop(c, f, (keep, fr, site, at_), fsite)
        self.it.inner |= cur.passed - keep.passed
        h = max([1] + [x[0] for x in ([d] if d else []) + [y for _, y in ovs] + some_])
        return cur, Coll('vec', c.len, h, lift(d[1], d[0], h) if d else None,
                         [(p, lift(v, hv, h) if not isinstance(p, Lin) else v)
                          for p, (hv, v) in ovs],
                         [lift(v, hv, h) for hv, v in some_])

    def map_loop(self, c, f, ctx, fsite):
        """for x in c { out.push(f(x)) }"""
        st, fr, site, at_ = ctx
        nm = ('ml', site, fsite)
        nf = fr + '/' + str(nm)
        it = seq(c, 'v')
        st.put(nf, 1, it)
        st.put(nf, 2, empty())
        st = self.for_loop(nf, 1, st, (fr, site, at_, fsite),
                           lambda s, v: self._mapbody(s, v, f, nf, fr, fsite, at_))
        r = st.get(nf, 2)
        st.drop(nf)
        return st, r

    def _mapbody(self, s, v, f, nf, fr, fsite, at_):
        s, r = self.call1(f, [v], (s, nf, fsite, at_), fsite)
        s.put(nf, 2, push(s.get(nf, 2), r))
        return [(s, None)]

    def for_loop(self, nf, slot, st, info, body):
        """Runs body(state, element) for the iterator held in (nf, slot).  body returns
        [(state, 'break' or None)].  Returns the state after the loop."""
        from .interp import Out
        fr, site, at_, fsite = info

        def step(s, sup):
            out = Out()
            it = s.get(nf, slot)
            o = self.next_value(s, Ref([('P', nf, slot, ())]), (s, nf, site, at_))
            for s2, val in o:
                for nme, fs, fa in val.vs:
                    s3 = s2.copy() if len(val.vs) > 1 else s2
                    s3.passed = s3.passed | fa
                    if nme == 'None':
                        if sup:
                            out.nat_blocked.append(s3)
                        else:
                            out.nat['done'].append(s3)
                    else:
                        for s4, brk in body(s3, fs[0][1]):
                            if brk:
                                out.exits['done'].append(s4)
                            else:
                                out.back.append(s4)
            return out
        self.it.fnstack.append(self.it.fnstack[-1])
        ex = self.it.run_loop(nf, 'it%s' % (site,), st, step, (1, 2, 3, 4), True)
        self.it.fnstack.pop()
        sts = ex.get('done') or [st]
        return self.it.joinall(sts, (nf[-60:], 'd'), (nf, 'd', self.it.stk()))

    # ------------------------------------------------------------ next
    def next_value(self, st, r, ctx):
        """next() on the iterator behind reference r.  Returns [(state, Option)]."""
        _, fr, site, at_ = ctx
        it = self.it.deref(st, r)
        if isinstance(it, Agg) and it.name.endswith('Range'):
            it = rng(it.get('start'), it.get('end'))
        if not isinstance(it, Iter):
            v = Leaf(EMPTY, may_of(it), ty='?')
            return [(st, opt(v, may=may_of(it)))]
        n = self.length(it)
        p = it.pos
        c = lcmp(p.lin, n.lin) if p.lin is not None and n.lin is not None else {'<', '=', '>'}
        if it.kind == 'range' and c == {'<', '=', '>'} or c == {'<', '=', '>'}:
            pass
        must = n.must | p.must
        may = n.may | p.may
        if '<' not in c:
            return [(st, Enum(OPT, [('None', (), EMPTY)], must, may))]
        st, v = self.elem(it.at(ILEAF0), p, (st, fr, site, at_))
        new = it.at(plus(p, ileaf(ONE)))
        if it.kind in ('filter', 'flatten', 'cut') and not (p.lin is not None and
                                                           p.lin.is_const()):
            pass
        alts = self.it.deref_alts(r)
        self.it.store(st, alts, new)
        if c == {'<'}:
            return [(st, Enum(OPT, [('Some', (('0', v),), EMPTY)], must, may))]
        nf = frozenset([('eq', p.must, n.must, p.lin, n.lin, 'int')])
        sf = frozenset([('lt', p.must, n.must, p.lin, n.lin, 'int')])
        return [(st, opt(v, sf, nf, must, may))]


def sym_inf(l):
    return any(s == INF for s, _ in l.t)


def infinite_range(it):
    return isinstance(it, Iter) and it.kind == 'range' and it.args[1].lin is not None and \
        sym_inf(it.args[1].lin)


def mxof(p):
    """The variables a position depends on; None if it is a fixed one."""
    if p.lin is None:
        return frozenset()
    if p.lin.is_const():
        return None
    return frozenset(s for s, _ in p.lin.t if s[0] == 'v')


def _proj(path, pr):
    from .interp import addproj
    return addproj(path, pr)
