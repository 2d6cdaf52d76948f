"""Operations on abstract values: dependences, joins, collection reads and writes."""
from .dom import *
from .dom import symstr  # noqa

ISYM = ('v', ('tmp', 0))


def tok_sub(big, small):
    """Is every position of small one of big (positive knowledge only)?"""
    if big == small or big == ALL:
        return True
    if isinstance(big, Lin) or not big or big[0] != 'I':
        return big == MXE
    lo, hi = big[1], big[2]
    if isinstance(small, Lin):
        slo, shi = small, add(small, ONE)
    elif small[0] == 'I':
        slo, shi = small[1], small[2]
    else:
        return False
    l = lower(sub(slo, lo))
    if l is None or l < 0:
        return False
    if hi is None or hi == LEND:
        return True
    if shi is None:
        return False
    return '<' not in lcmp(hi, shi)


def atom_sub(big, small):
    if big == small:
        return True
    if big[0] != small[0] or len(big[1]) != len(small[1]):
        return False
    for x, y in zip(big[1], small[1]):
        if x == y:
            continue
        if isinstance(x, str) or isinstance(y, str) or not tok_sub(x, y):
            return False
    return True


def meet(a, b):
    """Intersection of two dependence sets, up to inclusion of positions."""
    if a is b or a == b:
        return a
    r = a & b
    ra, rb = a - r, b - r
    if ra and rb and len(ra) * len(rb) < 4000:
        out = set(r)
        for x in ra:
            for y in rb:
                if x[0] == y[0]:
                    if atom_sub(x, y):
                        out.add(y)
                    elif atom_sub(y, x):
                        out.add(x)
        r = frozenset(out)
    return r


def meet_facts(a, b):
    if a is b or a == b:
        return a
    r = a & b
    ra, rb = sorted(a - r, key=repr), sorted(b - r, key=repr)
    if ra and rb and len(ra) <= 12 and len(rb) <= 12:
        out = set(r)
        for x in ra:
            for y in rb:
                if x[0] == y[0] and x[5] == y[5]:
                    f = None
                    if x[3] == y[3] and x[4] == y[4]:
                        f = (x[0], meet(x[1], y[1]), meet(x[2], y[2]), x[3], x[4], x[5])
                    elif x[5] != 'int':
                        u, v = x[1] | x[2], y[1] | y[2]
                        w = meet(u, v)
                        if w:
                            f = (x[0], w, EMPTY, None, None, x[5])
                    if f is not None:
                        out.add(f)
        r = frozenset(out)
    return r


# ---------------------------------------------------------------- classes
# P public, S secret, R random, B a secret (or random) with something random added to it,
# M a secret times something random, Z zero
def cadd(a, b):
    """Sum of two blinding classes."""
    if a == 'Z':
        return b
    if b == 'Z':
        return a
    if 'B' in (a, b):
        return 'B'
    if a == b:
        # two random parts hide each other
        return 'B' if a == 'R' else a
    s = {a, b}
    if 'P' in s and 'M' not in s:
        return (s - {'P'}).pop()
    return 'B'


def cmul(a, b):
    if 'Z' in (a, b):
        return 'Z'
    s = {a, b}
    if 'M' in s or s == {'S', 'R'} or s == {'S', 'B'}:
        return 'M'
    for x in 'SRB':
        if x in s:
            return x
    return 'P'


def cls2(f, a, b):
    return frozenset(f(x, y) for x in a for y in b)


def csum(cs):
    """Class of a sum over many elements: alternatives may each occur."""
    cs = frozenset(cs)
    if len(cs) <= 1:
        return cs or frozenset('P')
    cs = cs - {'Z'} or cs
    if 'B' in cs or len(cs & {'S', 'R', 'M'}) > 1:
        return frozenset('B')
    for x in 'SRM':
        if x in cs:
            return frozenset(x)
    return frozenset('P')


# ---------------------------------------------------------------- deep views
def close_map(var, lo, hi):
    return Map({}, close={var: (lo, hi)})


def remaining(pieces, toks, n):
    """The intervals without the positions of toks, as far as that can be told."""
    def end(x):
        return n if x is None or x == LEND else x

    for t in toks:
        if isinstance(t, Lin):
            s, e = t, add(t, ONE)
        elif t[0] == 'I':
            s, e = t[1], t[2]
        else:
            continue
        out = []
        for lo, hi in pieces:
            e2, h2 = end(e), end(hi)
            toend = e is None or e == LEND or (
                e2 is not None and h2 is not None and '<' not in lcmp(e2, h2))
            first = '>' not in lcmp(s, lo)
            if first and toend:
                continue
            if first and e2 is not None and '<' not in lcmp(e2, lo):
                out.append((e2, hi))
            elif toend and '<' not in lcmp(s, lo):
                if h2 is None or '>' in lcmp(h2, s):
                    out.append((lo, s if h2 is None or '<' not in lcmp(h2, s) else hi))
                else:
                    out.append((lo, hi))
            elif all(x is not None and x.is_const() for x in (s, e2, lo, h2)) and \
                    lo.c < s.c and e2.c < h2.c:
                out += [(lo, s), (e2, hi)]
            else:
                out.append((lo, hi))
        pieces = out
    return [(lo, hi) for lo, hi in pieces
            if not (lo.is_const() and end(hi) is not None and end(hi).is_const() and
                    end(hi).c <= lo.c)]


def elems_closed(c):
    """The element values of a collection with the position variable closed over the range."""
    b = bsym(c.bh)
    n = c.len.lin
    out = []
    if c.default is not None:
        for lo, hi in remaining([(ZERO, n)], [p for p, _ in c.ovs], n):
            out.append(close_map(b, lo, hi).val(c.default))
    for i, (p, v) in enumerate(c.ovs):
        if not isinstance(p, Lin) and p[0] == 'I':
            for lo, hi in remaining([(p[1], p[2])], [q for q, _ in c.ovs[i + 1:]], n):
                out.append(close_at(v, b, ('I', lo, hi)))
        else:
            out.append(close_at(v, b, p))
    out += [close_map(b, ZERO, None).val(v) for v in c.some]
    return out


def mixmap(c, vs):
    """Positions of c become positions of unknown relation to the variables vs: together all of
    them, unless c is cut from something longer or only one of them is meant (vs None)."""
    b = bsym(c.bh)
    n = c.len.lin
    if vs is None or n is not None and (
            n.is_const() or n.c < 0 or any(s[0] == 'op' and s[1] == 'min' for s, _ in n.t)):
        return Map({}, close={b: (ZERO, 'brk')})
    return Map({}, mx={b: vs})


def close_at(v, b, p):
    """Element value v (under position variable b) for all positions of token p."""
    if isinstance(p, Lin):
        return Map({b: p}).val(v)
    if p[0] == 'I':
        return close_map(b, p[1], p[2]).val(v)
    if p[0] == 'pi':
        # positions of earlier iterations: close later through the loop variable
        vs = [s for s, _ in p[1].t if s[0] == 'v']
        return Map({}, mx={b: frozenset(vs)}).val(v)
    if p[0] == 'mx':
        return Map({}, mx={b: p[1]}).val(v)
    return Map({}, close={b: (ZERO, 'brk')}).val(v)


_flat = {}


def leaves(v):
    """All leaves inside v, positions closed.  [(Leaf)]"""
    r = _flat.get(v)
    if r is not None:
        return r
    if len(_flat) > 60000:
        _flat.clear()
    if v is None:
        r = []
    elif isinstance(v, Leaf):
        r = [v]
    elif isinstance(v, Agg):
        r = [l for _, x in v.fields for l in leaves(x)]
    elif isinstance(v, Enum):
        r = [l for _, fs, _ in v.vs for _, x in fs for l in leaves(x)]
        r.append(Leaf(v.must, v.may, ty='tag'))
    elif isinstance(v, Coll):
        r = [l for x in elems_closed(v) for l in leaves(x)]
        r.append(v.len.but(ty='len', cls=frozenset('P')))
    elif isinstance(v, Ref):
        r = [l for a in v.alts if a[0] == 'V' for l in leaves(a[1])]
    elif isinstance(v, Iter):
        r = [l for a in v.args if isinstance(a, Val) for l in leaves(a)]
    else:
        r = []
    seen, out = set(), []
    for l in r:
        if l not in seen:
            seen.add(l)
            out.append(l)
    r = out
    if v is not None:
        _flat[v] = r
    return r


def must_of(v):
    r = set()
    for l in leaves(v):
        if l.ty not in ('len', 'tag'):
            r |= l.must
    return frozenset(r)


def may_of(v):
    r = set()
    for l in leaves(v):
        r |= l.may
        r |= l.must
    return frozenset(r)


def cls_of(v):
    r = set()
    for l in leaves(v):
        if l.ty not in ('len', 'tag', 'int'):
            r |= l.cls
    return frozenset(r) or frozenset('P')


def kind_of(v):
    """Coarse type of a value: point, cpoint, scalar, int, ..., with 's' appended for vectors."""
    if isinstance(v, Leaf):
        return v.ty
    if isinstance(v, Ref):
        for a in v.alts:
            if a[0] == 'V':
                return kind_of(a[1])
        return '?'
    if isinstance(v, Coll):
        for x in ([v.default] if v.default is not None else []) + [y for _, y in v.ovs] + list(
                v.some):
            return kind_of(x) + 's'
        return 's'
    if isinstance(v, Agg):
        return '(' + ','.join(kind_of(x) for _, x in v.fields) + ')'
    return '?'


def blur(v, ty=None):
    """v as a single leaf."""
    if isinstance(v, Leaf) and (ty is None or ty == v.ty):
        return v
    return Leaf(must_of(v), may_of(v), cls=cls_of(v), ty=ty or kind_of(v))


def addmay(v, m):
    """v with additional possible dependences on every leaf."""
    if not m or v is None:
        return v
    if isinstance(v, Leaf):
        return v if m <= v.may else v.but(may=v.may | m)
    if isinstance(v, Agg):
        return Agg(v.kind, v.name, [(n, addmay(x, m)) for n, x in v.fields])
    if isinstance(v, Enum):
        return Enum(v.name, [(n, tuple((f, addmay(x, m)) for f, x in fs), fa)
                             for n, fs, fa in v.vs], v.must, v.may | m)
    if isinstance(v, Coll):
        return Coll(v.kind, addmay(v.len, m), v.bh, addmay(v.default, m),
                    [(p, addmay(x, m)) for p, x in v.ovs], [addmay(x, m) for x in v.some])
    if isinstance(v, Ref):
        return Ref([('V', addmay(a[1], m)) if a[0] == 'V' else a for a in v.alts])
    return v


# ---------------------------------------------------------------- collections
def mkcoll(kind, n, elem, var):
    """Collection of length leaf n whose element at position var is elem."""
    h, body = bind(elem, var)
    return Coll(kind, n, h, body)


def empty(kind='vec'):
    return Coll(kind, ileaf(ZERO), 1, None)


def raise_to(c, h):
    """c with the position variable renamed to height h."""
    if c.bh == h:
        return c
    return Coll(c.kind, c.len, h, lift(c.default, c.bh, h),
                [(p, lift(v, c.bh, h)) for p, v in c.ovs], [lift(v, c.bh, h) for v in c.some])


def fit(c, v):
    """Raises c so that v can be an element of it."""
    return raise_to(c, max(c.bh, height(v) + 1))


def rel(p, i):
    """Does token p contain position i: 'yes', 'no', 'len' (leniently yes), 'maybe'."""
    if isinstance(p, Lin):
        if i is None:
            return 'maybe'
        if i == p:
            return 'yes'
        r = lcmp(p, i)
        if '=' not in r:
            return 'no'
        d = sub(p, i)
        if not d.is_const() and p.is_const() and any(s[0] == 'v' for s, _ in i.t):
            return 'maybe'
        return 'maybe'
    if p[0] == 'I':
        if i is None:
            return 'maybe'
        lo, hi = p[1], p[2]
        a = lcmp(i, lo)
        if a == {'<'}:
            return 'no'
        sure = '<' not in a
        if hi is None or hi == LEND:
            return 'yes' if sure else 'len'
        b = lcmp(i, hi)
        if '<' not in b:
            return 'no'
        if b == {'<'} and sure:
            return 'yes'
        if hi == lo:
            return 'no'
        return 'len' if sure else 'maybe'
    if p[0] == 'pi':
        if i is None:
            return 'maybe'
        l = p[1]
        if i == l:
            return 'no'
        d = sub(i, l)
        vs = [(s, k) for s, k in l.t if s[0] == 'v']
        if len(vs) == 1 and vs[0][1] > 0 and d.is_const():
            if d.c >= 0:
                return 'no'
            return 'len'
        if len(vs) == 1 and vs[0][1] > 0:
            lo = lower(sub(i, l))
            if lo is not None and lo >= 0:
                return 'no'
            # below the first prior position?
            first = Map({vs[0][0]: const(VEC_MIN.get(vs[0][0][1], 0))}).lin(l)
            if '<' in lcmp(i, first) and lcmp(i, first) == {'<'}:
                return 'no'
            return 'len'
        return 'maybe'
    return 'maybe'


def at(v, b, i):
    if i is None:
        return Map({}, close={b: (ZERO, 'brk')}).val(v)
    return Map({b: i}).val(v)


def union(vals):
    """Value standing for any of vals, dependences joined generously (see rel)."""
    vals = [v for v in vals if v is not None]
    if not vals:
        return None
    r = vals[0]
    for v in vals[1:]:
        r = join(r, v, lenient=True)
    return r


def read(c, idx):
    """Element of collection c at idx (Leaf)."""
    i = idx.lin
    b = bsym(c.bh)
    cand = []
    done = False
    for p, v in reversed(c.ovs):
        r = rel(p, i)
        if r == 'no':
            continue
        if not isinstance(p, Lin) and p[0] == 'pi' and i is None:
            x = at(v, b, None)
        elif isinstance(p, Lin) and r == 'maybe':
            x = at(v, b, p)
        else:
            x = at(v, b, i)
        cand.append((r, x))
        if r == 'yes':
            done = True
            break
    d = None
    if not done and c.default is not None:
        d = at(c.default, b, i)
    somes = [at(v, b, i) for v in c.some]
    if len(cand) == 1 and cand[0][0] == 'yes' and not somes:
        x = cand[0][1]
    elif not cand and not somes:
        x = d
    else:
        if d is not None and overwritten(c, i):
            d = None
        lens = [x for r, x in cand if r == 'len']
        if len(cand) == 1 and lens and not somes:
            x = lens[0]
        else:
            x = union([x for _, x in cand] + ([d] if d is not None else []) + somes)
            if isinstance(x, Leaf) and (x.mo is None or type(x.mo) is tuple) and \
                    i is not None and not somes:
                x = same_law(c, i, d, x)
    if x is None:
        return None
    if idx.lin is None or not idx.lin.is_const():
        x = addmay(x, idx.may | idx.must)
        k = idx.lin is not None and isinstance(x, Leaf) and x.mo is None and folded(idx.lin)
        if k:
            x = addmay(x, frozenset([(k, ())]))
    return x


def folded(l):
    """Does position l, of a loop, repeat ('wrap') or change only now and then ('step')?"""
    for s, _ in l.t:
        if s[0] == 'op' and s[1] in ('rem', 'div', 'min') and any(
                a.is_const() for a in s[2]) and any(q[0] in 'vw' for a in s[2] for q, _ in a.t):
            return 'step' if s[1] == 'div' else 'wrap'
    return None


def before(c, i):
    """The position before the first one written, if position i starts out as one of those
    written so far, one after the other."""
    ps = [p.c for p, _ in c.ovs if isinstance(p, Lin) and p.is_const()]
    if len(ps) < 2 or len(ps) < len(c.ovs) or min(ps) < 1 or max(ps) - min(ps) != len(ps) - 1:
        return None
    vs = [s for s, n in i.t if s[0] == 'v' and n == 1]
    if len(vs) != 1:
        return None
    first = Map({vs[0]: const(VEC_MIN.get(vs[0][1], 0))}).lin(i)
    return const(min(ps) - 1) if first.is_const() and first.c in ps else None


def overwritten(c, i):
    """Is position i one that an earlier iteration, or one looked at by itself, wrote?"""
    if i is None:
        return False
    for p, _ in c.ovs:
        if isinstance(p, Lin) or p[0] != 'pi':
            continue
        k = sub(p[1], i)
        vs = [s for s, n in p[1].t if s[0] == 'v' and n == 1]
        if len(vs) != 1 or not k.is_const() or not 0 < k.c < 4:
            continue
        first = Map({vs[0]: const(VEC_MIN.get(vs[0][1], 0))}).lin(p[1])
        if all(any(q == add(first, const(-j)) for q, _ in c.ovs) for j in range(1, k.c + 1)):
            return True
    return False


def settle(c):
    """c without its default element where all but the first few elements were overwritten."""
    n = c.len.lin
    if c.default is None or c.some or n is None:
        return c
    cut = [p[1].c for p, _ in c.ovs if not isinstance(p, Lin) and p[0] == 'I' and
           p[1].is_const() and p[2] == n]
    if not cut or min(cut) > 3:
        return c
    have = {p.c for p, _ in c.ovs if isinstance(p, Lin) and p.is_const()}
    b = bsym(c.bh)
    return c.but(default=None, ovs=[(const(k), Map({b: const(k)}).val(c.default))
                                    for k in range(min(cut)) if k not in have] + list(c.ovs))


def same_law(c, i, d, x):
    """x, read at position i, with what the candidates have in common as a function of i."""
    b = bsym(c.bh)
    cs = []
    for p, v in c.ovs:
        if rel(p, i) == 'no':
            continue
        if not isinstance(v, Leaf):
            return x
        if isinstance(p, Lin):
            cs.append((p, mo_map(mo_of(v), Map({b: p}))))
        else:
            cs.append((None, mo_of(v)))
    if d is not None:
        if not isinstance(c.default, Leaf):
            return x
        k = before(c, i)
        cs.append((k, mo_map(mo_of(c.default), Map({b: k}))) if k is not None else
                  (None, mo_of(c.default)))
    t = mo_template(cs, b)
    return x if t is None else x.but(mo=mo_map(t, Map({b: i})))


def write(c, idx, v, weak=False):
    """c with element idx replaced by v."""
    i = idx.lin
    c = fit(c, v)
    if i is None or weak:
        old = read(c, idx)
        if i is not None:
            v = v if old is None else join(old, v)
            c = fit(c, v)
        else:
            s = union(list(c.some) + [v])
            c = fit(c, s)
            return c.but(some=(s,))
    b = bsym(c.bh)
    ovs = []
    for p, x in c.ovs:
        if p == i:
            continue
        ovs.append((p, x))
    # a write that restores the default element is no override
    if not ovs and c.default is not None and at(c.default, b, i) == v and not c.some:
        return c.but(ovs=())
    ovs.append((i, v))
    c = c.but(ovs=ovs)
    if len(ovs) > 40:
        u = union([at(x, b, None) for _, x in ovs])
        c = fit(c.but(ovs=()), u)
        c = c.but(some=(union(list(c.some) + [u]),))
    return c


def elem_fn(c):
    """(height-normalised) generic element and True if one expression serves all positions."""
    if c.default is not None and not c.ovs and not c.some:
        return c.default
    return None


def push(c, v):
    n = c.len
    c = fit(c, v)
    if n.lin is None:
        s = union(list(c.some) + [v])
        c = fit(c, s)
        return c.but(some=(s,))
    ovs = [(p, x) for p, x in c.ovs if p != n.lin]
    c = c.but(ovs=ovs + [(n.lin, v)])
    return c.but(len_=n.but(lin=add(n.lin, ONE)))


def shift_tok(p, k):
    if isinstance(p, Lin):
        return add(p, k)
    if p[0] == 'I':
        hi = p[2]
        if hi is not None and hi != LEND:
            hi = add(hi, k)
        lo = add(p[1], k)
        if lo.is_const() and lo.c < 0:
            lo = ZERO
        return ('I', lo, hi)
    if p[0] == 'pi':
        return ('pi', add(p[1], k))
    return p


def subslice(c, lo, n):
    """c[lo .. lo+n]; lo, n Leafs."""
    b = bsym(c.bh)
    if lo.lin == ZERO:
        return addidx(c.but(len_=n, ovs=trim(c.ovs, n.lin)), lo, n)
    if lo.lin is None:
        # unknown offset
        d = Map({}, mx={b: frozenset([b])}).val(union(
            ([c.default] if c.default is not None else []) + [close_at(v, b, p)
                                                             for p, v in c.ovs] + list(c.some)))
        return addidx(Coll('slice', n, c.bh, d), lo, n)
    k = lo.lin
    m = Map({b: add(sym(b), k)})
    ovs = []
    for p, v in c.ovs:
        if isinstance(p, Lin):
            if lcmp(p, k) == {'<'} or (p.is_const() and not k.is_const()):
                continue
        elif p[0] == 'I' and p[2] is not None and p[2] != LEND and '>' not in lcmp(p[2], k):
            continue
        ovs.append((shift_tok(p, scale(k, -1)), m.val(v)))
    ovs = trim(ovs, n.lin)
    r = Coll(c.kind, n, c.bh, m.val(c.default), ovs, [m.val(v) for v in c.some])
    return addidx(r, lo, n)


def trim(ovs, n):
    """The overlays without the positions from n on."""
    if n is None:
        return ovs
    out = []
    for p, v in ovs:
        if not isinstance(p, Lin) and p[0] == 'I' and p[2] is not None and p[2] != LEND and \
                n != p[2] and '>' not in lcmp(n, p[2]):
            p = ('I', p[1], n)
        if n.is_const() and not rel_before(p, n):
            continue
        out.append((p, v))
    return out


def rel_before(p, n):
    if isinstance(p, Lin):
        return '<' in lcmp(p, n)
    if p[0] == 'I':
        return '<' in lcmp(p[1], n)
    return True


def addidx(c, lo, n):
    m = frozenset()
    if lo.lin is None or not lo.lin.is_const():
        m = lo.may | lo.must
    return addmay(c, m) if m else c


def segs(c):
    """c as a list of (token, value) covering it, for concatenation."""
    out = []
    if c.default is not None:
        n = c.len.lin
        out.append((('I', ZERO, n), c.default))
    out += list(c.ovs)
    return out


def concat(a, b):
    """a followed by b."""
    h = max(a.bh, b.bh)
    a, b = raise_to(a, h), raise_to(b, h)
    n = a.len.lin
    if a.len.lin == ZERO:
        return b.but(kind=a.kind)
    if b.len.lin == ZERO:
        return a
    ln = Leaf(a.len.must | b.len.must, a.len.may | b.len.may, add(a.len.lin, b.len.lin), ty='int')
    if n is None:
        bb = bsym(h)
        parts = []
        for c in (a, b):
            for p, v in segs(c):
                parts.append(Map({}, mx={bb: frozenset([bb])}).val(v)
                             if not isinstance(p, Lin) else at(v, bb, p))
            parts += c.some
        u = union(parts)
        h2 = max(h, height(u) + 1)
        return Coll(a.kind, ln, h2, None, (), (lift(u, h, h2),))
    m = Map({bsym(h): sub(sym(bsym(h)), n)})
    ovs = segs(a)
    for p, v in segs(b):
        if not isinstance(p, Lin) and p[0] == 'I' and p[2] is None:
            q = ('I', add(p[1], n), None)
        else:
            q = shift_tok(p, n)
        ovs.append((q, m.val(v)))
    return Coll(a.kind, ln, h, None, ovs, list(a.some) + [m.val(v) for v in b.some])


def same_dim(p, q):
    """Interval tokens that denote the same stretch as far as is known."""
    if p == q:
        return True
    if isinstance(p, Lin) or isinstance(q, Lin):
        return False
    if p[0] == 'I' and q[0] == 'I' and p[1] == q[1]:
        if p[2] is None or q[2] is None:
            return True
        d = sub(p[2], q[2])
        return not d.is_const()
    return False


def zip_colls(a, b, mk, kind='vec', same=False):
    """Pairs of a and b, aligned by position; mk(x, y) makes an element.  same: they are known to
    have the same length."""
    h = max(a.bh, b.bh)
    a, b = raise_to(a, h), raise_to(b, h)
    n = min_leaf(a.len, b.len)
    va = bsym(h)

    def val(c, p):
        for q, v in reversed(c.ovs):
            if same_dim(q, p):
                return v
        if isinstance(p, Lin):
            return read(c, ileaf(p))
        hits = []
        for q, v in reversed(c.ovs):
            if isinstance(q, Lin):
                if not isinstance(p, Lin) and p[0] == 'I' and (
                        lcmp(q, p[1]) == {'<'} or (p[2] is not None and p[2] != LEND and
                                                   '<' not in lcmp(q, p[2]))):
                    continue
                hits.append(at(v, va, q))
            elif q[0] == 'I' and p[0] == 'I':
                if q[2] is not None and q[2] != LEND and '>' not in lcmp(q[2], p[1]):
                    continue
                if p[2] is not None and p[2] != LEND and '>' not in lcmp(p[2], q[1]):
                    continue
                hits.append(v)
            else:
                hits.append(v)
        if c.default is not None:
            hits.append(c.default)
        hits += c.some
        return union(hits)

    pos = []
    for c in (a, b):
        for p, _ in c.ovs:
            if not any(same_dim(p, q) for q in pos):
                pos.append(p)
    ovs = []
    h2 = h
    for p in pos:
        x, y = val(a, p), val(b, p)
        if x is None or y is None:
            continue
        e = mk(x, y)
        h2 = max(h2, height(e) + 1)
        if not same and not isinstance(p, Lin) and p[0] == 'I' and p[2] is not None and \
                p[2] != LEND and n.lin is not None and '>' in lcmp(p[2], n.lin):
            p = ('I', p[1], lmin(p[2], n.lin))
        ovs.append((p, e))
    d = None
    da, db = a.default, b.default
    if (da is not None or a.some) and (db is not None or b.some):
        d = mk(union(([da] if da is not None else []) + list(a.some)),
               union(([db] if db is not None else []) + list(b.some)))
    elif da is not None and pos and all(isinstance(p, Lin) and p.is_const() for p in pos):
        d = None
    if d is not None:
        h2 = max(h2, height(d) + 1)
    return Coll(kind, n, h2, lift(d, h, h2), [(p, lift(e, h, h2)) for p, e in ovs])


def map_coll(c, fn, kind='vec'):
    """Applies fn to the element expressions of c (position variable bsym(c.bh) left free)."""
    h = c.bh
    parts = []
    d = fn(c.default) if c.default is not None else None
    ovs = [(p, fn(v)) for p, v in c.ovs]
    some = [fn(v) for v in c.some]
    h2 = max([h] + [height(x) + 1 for x in ([d] if d is not None else []) + [v for _, v in ovs]
                    + some])
    return Coll(kind, c.len, h2, lift(d, h, h2), [(p, lift(v, h, h2)) for p, v in ovs],
                [lift(v, h, h2) for v in some])


EQUAL = frozenset()     # pairs of lengths that are equal where the analysis is now


def looping_lin(l):
    return any(not isinstance(x, str) for s, _ in l.t for x in s[2])


_reps = {}


def reps(pairs):
    """{length: the length among those equal to it that varies the least}."""
    r = _reps.get(pairs)
    if r is None:
        cls = {}
        for x, y in pairs:
            u = cls.get(x, {x}) | cls.get(y, {y})
            for z in u:
                cls[z] = u
        r = _reps[pairs] = {x: min(u, key=lambda x: (
            looping_lin(x), any(s[1] == 'self' for s, _ in x.t), repr(x))) for x, u in cls.items()}
    return r


def min_leaf(a, b):
    if a == b:
        return a
    l = None
    if a.lin is not None and b.lin is not None:
        r = lcmp(a.lin, b.lin)
        if '>' not in r:
            l = a.lin
        elif '<' not in r:
            l = b.lin
        elif EQUAL and (r := reps(EQUAL)) is not None and \
                len({r.get(x, x) for x in minargs(a.lin) + minargs(b.lin)}) == 1:
            # known to be the same
            l = r.get(minargs(a.lin)[0])
        else:
            l = lmin(a.lin, b.lin)
    return Leaf(a.must | b.must, a.may | b.may, l, ty='int')


# ---------------------------------------------------------------- joins
def is_false(v):
    return isinstance(v, Leaf) and v.const == ('bool', False)


def is_true(v):
    return isinstance(v, Leaf) and v.const == ('bool', True)


class Ctl:
    """Context of a join: control dependences and facts of both sides."""

    def __init__(self, may=EMPTY, pa=EMPTY, pb=EMPTY, key=None):
        self.may, self.pa, self.pb, self.key = may, pa, pb, key


NOCTL = Ctl()


def join(a, b, ctl=NOCTL, path=(), lenient=False):
    if a is b or a is None:
        return b
    if b is None or a == b:
        return a
    if isinstance(a, Leaf) and isinstance(b, Leaf):
        return join_leaf(a, b, ctl, path, lenient)
    if isinstance(a, Ref) and isinstance(b, Ref):
        return join_ref(a, b, ctl, path, lenient)
    if type(a) is type(b):
        if isinstance(a, Agg) and a.kind == b.kind and a.name == b.name:
            ns = [n for n, _ in a.fields] + [n for n, _ in b.fields if a.get(n) is None]
            return Agg(a.kind, a.name, [(n, join(a.get(n), b.get(n), ctl, path + (n,), lenient))
                                        for n in ns])
        if isinstance(a, Enum):
            return join_enum(a, b, ctl, path, lenient)
        if isinstance(a, Coll):
            return join_coll(a, b, ctl, path, lenient)
        if isinstance(a, Iter) and a.kind == b.kind and len(a.args) == len(b.args):
            if all(isinstance(x, Val) == isinstance(y, Val) and (isinstance(x, Val) or x == y)
                   for x, y in zip(a.args, b.args)):
                return Iter(a.kind, [join(x, y, ctl, path + (i,), lenient)
                                     if isinstance(x, Val) else x
                                     for i, (x, y) in enumerate(zip(a.args, b.args))],
                            join(a.pos, b.pos, ctl, path + ('pos',), lenient))
    # different shapes
    ma, mb = must_of(a), must_of(b)
    return Leaf(ma | mb if lenient else meet(ma, mb), may_of(a) | may_of(b) | ctl.may,
                cls=cls_of(a) | cls_of(b), ty=kind_of(a))


def join_leaf(a, b, ctl, path, lenient):
    must = a.must | b.must if lenient else meet(a.must, b.must)
    may = a.may | b.may | a.must | b.must | ctl.may
    l = None
    if a.lin is not None and a.lin == b.lin:
        l = a.lin
    elif a.ty == 'int' and b.ty == 'int' and ctl.key is not None:
        l = sym(('w', ('j',) + ctl.key + path))
    c = a.const if a.const == b.const else None
    tf = ff = EMPTY
    if a.ty == 'bool':
        ea, eb = ctl.pa, ctl.pb
        if is_false(a):
            tf = b.tf | eb
        elif is_false(b):
            tf = a.tf | ea
        elif a.tf or b.tf or ea or eb:
            tf = meet_facts(a.tf | ea, b.tf | eb)
        if is_true(a):
            ff = b.ff | eb
        elif is_true(b):
            ff = a.ff | ea
        elif a.ff or b.ff or ea or eb:
            ff = meet_facts(a.ff | ea, b.ff | eb)
        # a constant refusal does not weaken what acceptance depends on
        if is_false(a) and not lenient:
            must = b.must
        elif is_false(b) and not lenient:
            must = a.must
    ty = a.ty if a.ty == b.ty else (a.ty or b.ty)
    mo = a.mo if a.mo == b.mo else None if lenient else mo_alt((mo_of(a), mo_of(b)))
    return Leaf(must, may, l, c, tf, ff, a.cls | b.cls, ty, mo)


def join_enum(a, b, ctl, path, lenient):
    vs = []
    for n in sorted({x[0] for x in a.vs} | {x[0] for x in b.vs}):
        x, y = a.variant(n), b.variant(n)
        if x is None or y is None:
            z, extra = (y, ctl.pb) if x is None else (x, ctl.pa)
            vs.append((n, tuple((f, addmay(v, ctl.may)) for f, v in z[1]), z[2] | extra))
        else:
            fs = []
            for (f, v), (_, w) in zip(x[1], y[1]):
                fs.append((f, join(v, w, ctl, path + (n, f), lenient)))
            vs.append((n, tuple(fs), meet_facts(x[2] | ctl.pa, y[2] | ctl.pb)))
    return Enum(a.name, vs, meet(a.must, b.must), a.may | b.may | ctl.may)


def join_ref(a, b, ctl, path, lenient):
    if len(a.alts) == 1 and len(b.alts) == 1:
        x, y = a.alts[0], b.alts[0]
        if x[0] == 'V' and y[0] == 'V':
            return Ref([('V', join(x[1], y[1], ctl, path, lenient))])
        if x[0] == 'P' and y[0] == 'P' and x[1:3] == y[1:3] and len(x[3]) == len(y[3]):
            ok, ps = True, []
            for i, (p, q) in enumerate(zip(x[3], y[3])):
                if p == q:
                    ps.append(p)
                elif p[0] == 'sub' and q[0] == 'sub':
                    ps.append(('sub', join(p[1], q[1], ctl, path + (i, 0)),
                               join(p[2], q[2], ctl, path + (i, 1))))
                else:
                    ok = False
            if ok:
                return Ref([('P', x[1], x[2], tuple(ps))])
    alts = list(a.alts)
    for x in b.alts:
        if x not in alts:
            alts.append(x)
    if len(alts) > 6:
        vs = [x for x in alts if x[0] == 'V']
        ps = [x for x in alts if x[0] != 'V']
        if len(vs) > 1:
            u = vs[0][1]
            for v in vs[1:]:
                u = join(u, v[1], ctl, path, lenient)
            alts = [('V', u)] + ps
    return Ref(alts)


def join_coll(a, b, ctl, path, lenient):
    h = max(a.bh, b.bh)
    a, b = raise_to(a, h), raise_to(b, h)
    n = join(a.len, b.len, ctl, path + ('len',), lenient)
    if not (n.lin is not None):
        n = n.but(lin=None)
    d = None
    if a.default is not None and b.default is not None:
        d = join(a.default, b.default, ctl, path + ('each',), lenient)
    elif a.default is not None or b.default is not None:
        d = a.default if a.default is not None else b.default
        d = addmay(d, ctl.may)
    bb = bsym(h)

    def val(c, p):
        for q, v in reversed(c.ovs):
            if same_dim(q, p):
                return v
        if isinstance(p, Lin):
            if c.len.lin is not None and '<' not in lcmp(p, c.len.lin):
                return None
            return read(c, ileaf(p))
        if c.default is not None:
            return c.default
        if c.ovs or c.some:
            return union([at(v, bb, q) if isinstance(q, Lin) else v for q, v in c.ovs] +
                         list(c.some))
        return None
    pos = []
    for c in (a, b):
        for p, _ in c.ovs:
            if not any(p == q or same_dim(p, q) for q in pos):
                pos.append(p)
    ovs = []
    h2 = h
    for p in pos:
        x, y = val(a, p), val(b, p)
        e = join(x, y, ctl, path + (p,), lenient)
        h2 = max(h2, height(e) + 1)
        ovs.append((p, e))
    some = list(a.some)
    for x in b.some:
        if x not in some:
            some.append(x)
    if len(some) > 1:
        some = [union(some)]
    for x in some + ([d] if d is not None else []):
        h2 = max(h2, height(x) + 1)
    return Coll(a.kind, n, h2, lift(d, h, h2), [(p, lift(e, h, h2)) for p, e in ovs],
                [lift(x, h, h2) for x in some])
