"""Abstract domain: linear index expressions, index tokens, dependence atoms, values.

Everything is immutable and hashable.
"""
from functools import lru_cache

# ------------------------------------------------------------------ Lin
# symbols (tuples):
#   ('val', root, path)   an integer component of an input
#   ('len', root, path)   length of a collection component of an input
#   ('v', key)            loop variable / bound position variable
#   ('w', key)            value changed by a loop in no linear way
#   ('op', name, args)    other operation on Lins
#   ('u', key)            unknown value created at a program point
#   END = ('END',)        one past the last index of whatever dimension it is used for


class Lin:
    __slots__ = ('t', 'c', 'h')

    def __init__(self, t, c):
        self.t = t
        self.c = c
        self.h = hash((t, c))

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o or (isinstance(o, Lin) and self.h == o.h and self.c == o.c and self.t == o.t)

    def is_const(self):
        return not self.t

    def __repr__(self):
        if not self.t:
            return str(self.c)
        r = ''
        for s, k in self.t:
            n = symstr(s)
            r += ('+' if k > 0 else '-') + (n if abs(k) == 1 else '%d*%s' % (abs(k), n))
        if self.c:
            r += '%+d' % self.c
        return r.lstrip('+')


def symstr(s):
    if s[0] == 'END':
        return 'END'
    if s[0] == 'v':
        return 'v(%s)' % str(s[1])[-24:]
    if s[0] in ('val', 'len'):
        return '%s(%s)' % (s[0], pathstr(s[1], s[2]))
    if s[0] == 'w':
        return 'w(%s)' % str(s[1])[-24:]
    if s[0] == 'op':
        return '%s%r' % (s[1], s[2])
    return repr(s)


def tokstr(t):
    if isinstance(t, Lin):
        return repr(t)
    if t[0] == 'I':
        if t[1] == ZERO and t[2] == LEND:
            return '*'
        return '%r..%s' % (t[1], '?' if t[2] is None else repr(t[2]))
    if t[0] == 'pi':
        return 'prior(%r)' % (t[1],)
    if t[0] == 'mx':
        return '~' + ','.join(str(x[1])[-8:] for x in t[1])
    return t[0]


def pathstr(root, path):
    r = str(root)
    for p in path:
        r += '.' + p if isinstance(p, str) else '[%s]' % tokstr(p)
    return r


_key_cache = {}


def _key(s):
    k = _key_cache.get(s)
    if k is None:
        k = _key_cache[s] = repr(s)
    return k


def lin(terms, c=0):
    t = tuple(sorted(((s, k) for s, k in terms.items() if k), key=lambda x: _key(x[0])))
    return Lin(t, c)


def const(c):
    return Lin((), c)


ZERO, ONE = const(0), const(1)
END = ('END',)
LEND = lin({END: 1})


def sym(s):
    return lin({s: 1})


def add(a, b, k=1):
    if a is None or b is None:
        return None
    if not b.t:
        return Lin(a.t, a.c + k * b.c)
    d = dict(a.t)
    for s, n in b.t:
        d[s] = d.get(s, 0) + k * n
    return lin(d, a.c + k * b.c)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    if a is None:
        return None
    return lin({s: n * k for s, n in a.t}, a.c * k)


FOLD = {
    'div': lambda a, b: a // b if b else None,
    'rem': lambda a, b: a % b if b else None,
    'tz': lambda a: (a & -a).bit_length() - 1 if a else None,
    'ilog2': lambda a: a.bit_length() - 1 if a else None,
    'next_power_of_two': lambda a: 1 << (a - 1).bit_length() if a else 1,
    'count_ones': lambda a: bin(a).count('1'),
    'div_ceil': lambda a, b: -(-a // b) if b else None,
}


def op(name, *args):
    if any(a is None for a in args):
        return None
    if name in FOLD and all(not a.t and a.c >= 0 for a in args):
        r = FOLD[name](*[int(a.c) for a in args])
        if r is not None:
            return const(r)
    return sym(('op', name, tuple(args)))


def minargs(l):
    """The quantities l is the minimum of."""
    if len(l.t) == 1:
        s, k = l.t[0] if isinstance(l.t, tuple) else next(iter(l.t))
        if k == 1 and s[0] == 'op' and s[1] == 'min':
            return [y for x in s[2] for y in minargs(add(x, const(l.c)))]
    return [l]


def lmin(*ls):
    """Minimum of quantities."""
    out = []
    for x in (y for l in ls for y in minargs(l)):
        if any('<' not in lcmp(x, y) for y in out):
            continue
        out = [y for y in out if not ('<' not in lcmp(y, x))]
        out.append(x)
    if len(out) == 1:
        return out[0]
    return op('min', *sorted(out, key=repr))


VEC_MIN = {}   # loop variable key -> minimum value


def sym_min(s):
    if s[0] == 'v':
        return VEC_MIN.get(s[1], 0)
    if s[0] in ('len', 'END'):
        return 0
    if s[0] == 'val':
        return 0      # all integer inputs of the crate are unsigned
    if s[0] == 'op' and s[1] in ('max',):
        return max((lower(a) or 0) for a in s[2])
    if s[0] == 'op' and s[1] in ('div', 'min', 'tz', 'rem', 'absdiff'):
        return 0
    return None


def lower(l):
    """A lower bound of l, or None."""
    r = l.c
    for s, k in l.t:
        if k < 0:
            return None
        m = sym_min(s)
        if m is None:
            return None
        r += k * m
    return r


def lcmp(a, b):
    """Returns subset of {'<','=','>'} possible for a ? b."""
    if a is None or b is None:
        return {'<', '=', '>'}
    d = sub(a, b)
    if not d.t:
        return {'<' if d.c < 0 else '=' if d.c == 0 else '>'}
    r = {'<', '=', '>'}
    lo = lower(d)
    if lo is not None:
        if lo > 0:
            return {'>'}
        if lo == 0:
            r.discard('<')
    hi = lower(scale(d, -1))
    if hi is not None:
        if hi > 0:
            return {'<'}
        if hi == 0:
            r.discard('>')
    # max(a, b, ..) >= each of its arguments, min(a, b, ..) <= each of them
    for s, k in d.t:
        if s[0] != 'op' or s[1] not in ('max', 'min') or k not in (1, -1):
            continue
        for x in s[2]:
            y = add(sub(d, scale(sym(s), k)), scale(x, k))
            if (s[1] == 'max') == (k == 1):
                lo = lower(y)
                if lo is not None and lo >= 0:
                    r = r & ({'>'} if lo > 0 else {'>', '='})
            else:
                lo = lower(scale(y, -1))
                if lo is not None and lo >= 0:
                    r = r & ({'<'} if lo > 0 else {'<', '='})
    return r


def whole(l):
    """All pieces of a whole, the last one perhaps shorter, are the whole."""
    for s, k in l.t:
        if s[0] == 'op' and s[1] == 'div_ceil' and s[2][1] == const(k):
            return add(sub(l, lin({s: k})), s[2][0])
        if s[0] == 'op' and s[1] == 'min':
            xs = [scale(x, k) for x in s[2]]
            ys = [whole(x) for x in xs]
            if all(x != y for x, y in zip(xs, ys)):
                return add(sub(l, lin({s: k})), lmin(*ys))
    return l


EMPTY = frozenset()

# ------------------------------------------------------------------ tokens
# Lin | ('I', lo, hi|None) | ('pi', Lin) | ('mx', frozenset(var syms)) | ('pt',) | ('st', k, r)
ALL = ('I', ZERO, LEND)
PT = ('pt',)
MXE = ('mx', frozenset())
FL = ('fl', 'fl')       # in 'mx': every position comes up (a flattened collection)


def depth(l):
    """Nesting depth of operations in a Lin; a looped value counts as deep."""
    r = 0
    for s, _ in l.t:
        if s[0] == 'w':
            return 9
        if s[0] == 'op':
            r = max(r, (0 if s[1] == 'min' else 1) + max([depth(x) for x in s[2]] or [0]))
            if s[1] == 'min':
                r = max(r, 1 if len(s[2]) < 5 else 9)
    return r


def simp(t):
    """Positions too complex to be worth keeping become 'some position of many'."""
    if isinstance(t, Lin):
        if t.t and (len(t.t) > 3 or depth(t) > 1):
            return MXE
    elif t[0] == 'I' and t != ALL:
        if len(t[1].t) > 3 or depth(t[1]) > 1 or (t[2] is not None and (
                len(t[2].t) > 3 or depth(t[2]) > 1)):
            return MXE
    return t


def hull(toks):
    """One interval for a set of tokens that join up without a gap; otherwise MXE."""
    iv = []
    for t in toks:
        if t == ALL:
            return ALL
        if isinstance(t, Lin):
            iv.append((t, add(t, ONE)))
        elif t == PT:
            continue
        elif t[0] == 'I':
            iv.append((t[1], t[2]))
        else:
            return MXE
    if not iv:
        return PT
    start = None
    for lo, _ in iv:
        if all('>' not in lcmp(lo, x) for x, _ in iv):
            start = lo
            break
    if start is None:
        return MXE
    cur, left = start, list(iv)
    while left:
        for x in left:
            lo, hi = x
            if '>' not in lcmp(lo, cur):
                left.remove(x)
                if hi is None:
                    return ('I', start, None)
                if '<' not in lcmp(hi, cur):
                    cur = hi
                elif '>' in lcmp(hi, cur):
                    return MXE
                break
        else:
            return MXE
    return ('I', start, cur)


_compact = {}
GROUP = 8


def compact(s):
    """Bounds a dependence set: many positions of one component become 'many positions'."""
    r = _compact.get(s)
    if r is not None:
        return r
    if len(_compact) > 60000:
        _compact.clear()
    g = {}
    for a in s:
        k = (a[0], tuple(x if isinstance(x, str) else None for x in a[1]))
        g.setdefault(k, []).append(a)
    out = []
    for k, l in g.items():
        if len(l) <= GROUP:
            out += l
            continue
        p = list(l[0][1])
        for i, x in enumerate(p):
            if not isinstance(x, str) and any(a[1][i] != x for a in l):
                p[i] = hull({a[1][i] for a in l})
        out.append((k[0], tuple(p)))
    r = frozenset(out)
    _compact[s] = r
    return r


class Map:
    """A substitution of symbols by Lins, applied to tokens, atoms and values."""

    def __init__(self, m, back=None, close=None, mx=None, point=False):
        self.point = point
        # mx: {sym: frozenset(loop var syms)}: positions of unknown but complete relation
        self.mx = mx or {}
        # m: {sym: Lin}; back: loop var sym whose current iteration becomes 'prior';
        # close: {sym: (lo, hi|None)} variables that range over an interval from now on
        self.m = m or {}
        self.back = back
        self.close = close or {}
        self.memo = {}

    def lin(self, l):
        """Lin -> Lin (closing is not possible here: unknown 'w' results)."""
        if not l.t:
            return l
        r = self.memo.get(l)
        if r is not None:
            return r
        d = {}
        c = l.c
        for s, k in l.t:
            if s in self.m:
                x = self.m[s]
                c += k * x.c
                for s2, k2 in x.t:
                    d[s2] = d.get(s2, 0) + k * k2
                continue
            if s in self.close or s == self.back or s in self.mx:
                s = ('w', ('cl',) + s[1:])
            else:
                s = self.sym(s)
            d[s] = d.get(s, 0) + k
        r = self.memo[l] = lin(d, c)
        return r

    def sym(self, s):
        if s[0] in ('val', 'len'):
            p = self.path(s[2])
            return s if p is s[2] else (s[0], s[1], p)
        if s[0] == 'op':
            a = tuple(self.lin(x) for x in s[2])
            return s if a == s[2] else (s[0], s[1], a)
        return s

    def path(self, p):
        ch = False
        out = []
        for x in p:
            if isinstance(x, str):
                out.append(x)
            else:
                y = self.tok(x)
                ch = ch or y is not x
                out.append(y)
        return tuple(out) if ch else p

    def tok(self, t):
        r = self.memo.get(('t', t))
        if r is None:
            r = self.memo[('t', t)] = simp(self._tok(t))
        return r

    def _tok(self, t):
        if isinstance(t, Lin):
            for s, k in t.t:
                if s in self.mx:
                    vs = set(q for q, _ in t.t if q[0] == 'v' and q not in self.mx)
                    for q, _ in t.t:
                        vs |= self.mx.get(q, EMPTY)
                    return ('mx', frozenset(vs))
            hit = [(s, k) for s, k in t.t if s in self.close or s == self.back]
            if not hit:
                return self.lin(t)
            others = [s for s, k in t.t if s[0] == 'v' and (s, k) not in hit]
            if len(hit) == 1 and not others:
                s, k = hit[0]
                if s == self.back:
                    return ('pi', t)
                lo, hi = self.close[s]
                if s[1][-2:] == '#f' or hi == 'brk' or self.point:
                    return PT
                return self._close(t, s, k, lo, hi)
            if self.back:
                # a combination of several variables: leave it to closing
                return t if not (set(self.m) & {s for s, _ in t.t}) else self.lin(t)
            if len(hit) == len(others) == 1 and not self.point:
                s, k = hit[0]
                lo, hi = self.close[s]
                if k == 1 and s != self.back and isinstance(lo, Lin) and isinstance(hi, Lin) and \
                        sub(hi, lo) == const(dict(t.t)[others[0]]):
                    # pieces of equal length next to each other
                    rest = self.lin(sub(t, sym(s)))
                    return ('I', add(rest, lo), add(rest, hi))
            return ('mx', frozenset(s for s in others))
        if t[0] == 'I':
            for s, k in t[1].t:
                if t[2] is not None and k > 1 and sub(t[2], t[1]) == const(k) and (
                        s in self.close or s == self.back):
                    if s == self.back:
                        return MXE
                    lo, hi = self.close[s]
                    if hi == 'brk' or s[1][-2:] == '#f' or self.point:
                        return PT
                    rest = self.lin(sub(t[1], lin({s: k})))
                    return ('I', add(rest, scale(lo, k)),
                            None if hi is None or hi == LEND else whole(add(rest, scale(hi, k))))
            lo, hi = self.lin(t[1]), (None if t[2] is None else self.lin(t[2]))
            if lo == t[1] and hi == t[2]:
                return t
            if any(s[0] == 'w' for s, _ in lo.t):
                lo = ZERO if not any(s[0] == 'w' for s, _ in t[1].t) else lo
            if hi is not None and any(s[0] == 'w' for s, _ in hi.t):
                hi = None
            return ('I', lo, hi)
        if t[0] == 'pi':
            vs = [(s, k) for s, k in t[1].t if s in self.close]
            if vs:
                s, k = vs[0]
                lo, hi = self.close[s]
                if len([1 for s2, _ in t[1].t if s2[0] == 'v']) > 1:
                    return MXE
                if hi == 'brk':
                    return PT
                return self._close(t[1], s, k, lo, hi)
            l = self.lin(t[1])
            if l == t[1] or any(s == self.back for s, _ in t[1].t):
                return t
            return ('pi', l)
        if t[0] == 'mx':
            if self.back in t[1] and FL in t[1]:
                # what the earlier iterations left, all of it
                return ('mx', t[1] - {self.back, FL} | {('p', self.back)})
            ps = [s for s in t[1] if s[0] == 'p' and s[1] in self.close]
            if ps:
                if any(self.close[s[1]][1] == 'brk' or s[1][1][-2:] == '#f' for s in ps):
                    return PT
                return ('mx', t[1] - set(ps))
            hs = [s for s in t[1] if s in self.close]
            if any(self.close[s][1] == 'brk' or s[1][-2:] == '#f' for s in hs):
                return PT
            ms = [s for s in t[1] if s in self.m]
            if not hs and not ms:
                return t
            rest = set(t[1]) - set(hs) - set(ms) - {FL}
            for s in ms:
                x = self.m[s]
                vs = [q for q, _ in x.t if q[0] == 'v']
                if vs:
                    rest |= set(vs)
                else:
                    return PT if not any(q[0] == 'w' for q, _ in x.t) else MXE
            return ('mx', frozenset(rest))
        return t

    def _close(self, t, s, k, lo, hi):
        rest = self.lin(sub(t, lin({s: k})))
        if k == 1:
            lo2 = add(lo, rest)
            hi2 = None if hi is None else add(hi, rest)
            if hi2 is not None and any(q == END for q, _ in hi2.t) and not rest.is_const():
                hi2 = None
            if hi == LEND and rest.is_const() and rest.c != 0:
                hi2 = LEND if rest.c > 0 else hi2
            if lo2.is_const() and lo2.c < 0:
                lo2 = ZERO
            return ('I', lo2, hi2)
        if k == -1:
            hi2 = add(sub(rest, lo), ONE)
            lo2 = ZERO if hi is None else add(sub(rest, hi), ONE)
            return ('I', lo2, hi2)
        return ('st', k, rest)

    def atom(self, a):
        p = self.path(a[1])
        return a if p is a[1] else (a[0], p)

    def atoms(self, s):
        if not s:
            return s
        r = self.memo.get(('s', s))
        if r is None:
            r = self.memo[('s', s)] = frozenset(self.atom(a) for a in s)
        return r

    def fact(self, f):
        return (f[0], self.atoms(f[1]), self.atoms(f[2]),
                self.flin(f[3]), self.flin(f[4]), f[5])

    def flin(self, l):
        """A Lin in a fact; variables inside paths close to intervals, bare ones stay unknown."""
        return None if l is None else self.lin(l)

    def facts(self, fs):
        if not fs:
            return fs
        r = self.memo.get(('f', fs))
        if r is None:
            r = self.memo[('f', fs)] = frozenset(self.fact(f) for f in fs)
        return r

    def val(self, v):
        if v is None:
            return None
        r = self.memo.get(('V', v))
        if r is None:
            r = self.memo[('V', v)] = v.map(self)
        return r


# ------------------------------------------------------------------ sums of products
# What a scalar or group element is as a sum of products of inputs and challenges, where that is
# known: frozenset of (coefficient, ((atom, exponent), ...)).  REST stands for unknown summands.
MO_ZERO = frozenset()
MO_ONE = frozenset([(1, ())])
REST = ((('?', ()), ONE),)
MO_MAX = 8


def mo_norm(d):
    out = []
    for f, k in d.items():
        if f == REST:
            k = 1 if k else 0
        if k:
            out.append((k, f))
    if len(out) > MO_MAX or (len(out) == 1 and out[0][1] == REST):
        return None
    return frozenset(out)


def mo_var(root, path, e=ONE):
    return frozenset([(1, (((root, path), e),))])


def mo_alts(a):
    """The alternatives of a: sums of products, or None where one is not known."""
    return a[1] if type(a) is tuple else (a,)


def mo_alt(alts):
    """One of alts."""
    s = {x for a in alts for x in mo_alts(a)}
    if None in s or len(s) > 4:
        return None
    return next(iter(s)) if len(s) == 1 else ('alt', frozenset(s))


def mo_add(a, b, sign=1):
    if type(a) is tuple or type(b) is tuple:
        return mo_alt([mo_add(x, y, sign) for x in mo_alts(a) for y in mo_alts(b)])
    if a is None and b is None:
        return None
    d = {}
    for m, s in ((a, 1), (b, sign)):
        if m is None:
            d[REST] = 1
            continue
        for k, f in m:
            d[f] = 1 if f == REST else d.get(f, 0) + s * k
    return mo_norm(d)


def mo_mul(a, b):
    if a == MO_ZERO or b == MO_ZERO:
        return MO_ZERO
    if a is None or b is None:
        return None
    if type(a) is tuple or type(b) is tuple:
        return mo_alt([mo_mul(x, y) for x in mo_alts(a) for y in mo_alts(b)])
    d = {}
    for k, f in a:
        for l, g in b:
            if f == REST or g == REST:
                d[REST] = 1
                continue
            e = {}
            for x, n in f + g:
                e[x] = add(e[x], n) if x in e else n
            h = tuple(sorted(((x, n) for x, n in e.items() if n != ZERO), key=repr))
            if len(h) > 5:
                return None
            d[h] = d.get(h, 0) + k * l
    return mo_norm(d)


def mo_inv(a):
    if type(a) is tuple:
        return mo_alt([mo_inv(x) for x in a[1]])
    if a is None or len(a) != 1:
        return None
    (k, f), = a
    if k not in (1, -1) or f == REST:
        return None
    return frozenset([(k, tuple((x, scale(n, -1)) for x, n in f))])


def mo_map(a, m):
    if not a:
        return a
    if type(a) is tuple:
        return mo_alt([mo_map(x, m) for x in a[1]])
    r = m.memo.get(('m', a), 0)
    if r == 0:
        r = m.memo[('m', a)] = _mo_map(a, m)
    return r


def _mo_map(a, m):
    d = {}
    for k, f in a:
        e = {}
        for x, n in f:
            y = m.atom(x)
            if any(not isinstance(t, (str, Lin)) for t in y[1]):
                e = None
                break
            n2 = m.lin(n)
            if any(s[0] == 'w' for s, _ in n2.t):
                e = None
                break
            e[y] = add(e[y], n2) if y in e else n2
        if e is None:
            d[REST] = 1
            continue
        h = tuple(sorted(((x, n) for x, n in e.items() if n != ZERO), key=repr))
        d[h] = 1 if h == REST else d.get(h, 0) + k
    return mo_norm(d)


def mo_shape(f):
    """Products that may be the same up to positions and exponents."""
    return tuple((x[0], tuple(t if isinstance(t, str) else 0 for t in x[1])) for x, _ in f)


def mo_pair(a, b):
    """Pairs up the products of a and b: [(k, f, g)], or None."""
    if a is None or b is None or len(a) != len(b) or type(a) is tuple or type(b) is tuple:
        return None
    out = []
    g = {(k, mo_shape(f)): f for k, f in b}
    h = {(k, mo_shape(f)): f for k, f in a}
    if len(g) != len(b) or len(h) != len(a) or set(g) != set(h):
        return None
    return [(x[0], h[x], g[x]) for x in sorted(h, key=repr)]


def mo_zip(a, b, fn):
    """Combines a and b position by position, fn(lin, lin, where) -> Lin or None."""
    ps = mo_pair(a, b)
    if ps is None:
        return None
    d = {}
    for i, (k, f, g) in enumerate(ps):
        e = {}
        for j, ((x, n), (y, o)) in enumerate(zip(f, g)):
            path = []
            for c, (t, u) in enumerate(zip(x[1], y[1])):
                if not isinstance(t, str):
                    t = t if t == u and fn is None else fn(t, u, (i, j, c))
                    if t is None:
                        return None
                path.append(t)
            n = fn(n, o, (i, j))
            if n is None:
                return None
            e[(x[0], tuple(path))] = n
        h = tuple(sorted(((x, n) for x, n in e.items() if n != ZERO), key=repr))
        d[h] = d.get(h, 0) + k
    return mo_norm(d)


def mo_template(cands, b):
    """cands: [(position or None, mo)]: what all of them are as a function of the position b
    (None: already one), or None."""
    gen = [m for p, m in cands if p is None]
    pts = [(p, m) for p, m in cands if p is not None]
    if any(m is None for _, m in cands):
        return None
    if gen:
        t = gen[0]
        if any(m != t for m in gen):
            return None
    else:
        if len(pts) < 2:
            return None
        (p1, m1), (p2, m2) = pts[0], pts[1]
        dp = sub(p2, p1)
        if not dp.is_const() or not dp.c:
            return None

        def line(l1, l2, _):
            if l1 == l2:
                return l1
            d = sub(l2, l1)
            if not d.is_const() or d.c % dp.c:
                return None
            return add(l1, scale(sub(sym(b), p1), d.c // dp.c))
        t = mo_zip(m1, m2, line)
        if t is None:
            return None
    for p, m in pts:
        if mo_map(t, Map({b: p})) != m:
            return None
    return t


def mo_str(a):
    if a is None:
        return '?'
    if type(a) is tuple:
        return ' or '.join(sorted(map(mo_str, a[1])))
    if not a:
        return '0'
    out = []
    for k, f in sorted(a, key=repr):
        if f == REST:
            out.append('..')
            continue
        fs = [pathstr(*x) + ('' if n == ONE else '^(%r)' % (n,)) for x, n in f]
        out.append(('' if k == 1 and fs else '-' if k == -1 and fs else str(k)) + '*'.join(fs))
    return ' + '.join(out)


# ------------------------------------------------------------------ values
class Val:
    __slots__ = ('h',)

    def __hash__(self):
        return self.h

    def height(self):
        return 0


def _eq(cls):
    names = [s for s in cls.__slots__ if s != 'h' and s != 'hh']

    def __eq__(self, o):
        if self is o:
            return True
        if type(o) is not cls or o.h != self.h:
            return False
        for n in names:
            if getattr(self, n) != getattr(o, n):
                return False
        return True
    cls.__eq__ = __eq__
    cls.__hash__ = lambda self: self.h
    return cls


@_eq
class Leaf(Val):
    """A scalar, group element, byte string, integer, bool, or anything not modelled further.

    must/may: atoms it depends on for sure / possibly.  lin: value as Lin (integers).
    const: known constant (int via lin; ('bytes', b), ('bool', x), 'zero', 'one').
    tf/ff: facts implied by true / false.  cls: possible blinding classes.
    """
    __slots__ = ('must', 'may', 'lin', 'const', 'tf', 'ff', 'cls', 'ty', 'mo', 'h')

    def __init__(self, must=EMPTY, may=EMPTY, lin=None, const=None, tf=EMPTY, ff=EMPTY,
                 cls=frozenset('P'), ty='', mo=None):
        if len(must) > GROUP:
            must = compact(must)
        if len(may) > GROUP:
            may = compact(may)
        self.must, self.may, self.lin, self.const = must, may, lin, const
        self.tf, self.ff, self.cls, self.ty, self.mo = tf, ff, cls, ty, mo
        self.h = hash((must, may, lin, const, tf, ff, cls, ty, mo))

    def map(self, m):
        l = self.lin
        if l is not None:
            l = m.lin(l)
        return Leaf(m.atoms(self.must), m.atoms(self.may), l, self.const, m.facts(self.tf),
                    m.facts(self.ff), self.cls, self.ty, mo_map(self.mo, m))

    def but(self, **kw):
        d = dict(must=self.must, may=self.may, lin=self.lin, const=self.const, tf=self.tf,
                 ff=self.ff, cls=self.cls, ty=self.ty)
        d.update(kw)
        if 'must' not in kw and 'const' not in kw and 'mo' not in kw:
            d['mo'] = self.mo
        return Leaf(**d)

    def __repr__(self):
        r = self.ty or 'leaf'
        if self.lin is not None:
            r += '=%r' % (self.lin,)
        if self.const is not None:
            r += '#%r' % (self.const,)
        r += '/' + ''.join(sorted(self.cls))
        r += '{' + ','.join(sorted(pathstr(*a) for a in self.must)) + '}'
        ex = self.may - self.must
        if ex:
            r += '?{' + ','.join(sorted(pathstr(*a) for a in ex)) + '}'
        if self.tf:
            r += ' T%d' % len(self.tf)
        if self.mo is not None:
            r += ' [' + mo_str(self.mo) + ']'
        return r


def mo_of(l):
    if l.const == 'zero':
        return MO_ZERO
    if l.const == 'one':
        return MO_ONE
    return l.mo


@_eq
class Agg(Val):
    """Struct, tuple or closure."""
    __slots__ = ('kind', 'name', 'fields', 'h', 'hh')

    def __init__(self, kind, name, fields):
        self.kind, self.name = kind, name
        self.fields = tuple(fields)       # ((field, Val), ...)
        self.h = hash((kind, name, self.fields))
        self.hh = max([height(v) for _, v in self.fields] or [0])

    def get(self, f):
        for n, v in self.fields:
            if n == f:
                return v
        return None

    def set(self, f, v):
        out, done = [], False
        for n, x in self.fields:
            if n == f:
                out.append((n, v))
                done = True
            else:
                out.append((n, x))
        if not done:
            out.append((f, v))
        return Agg(self.kind, self.name, out)

    def map(self, m):
        return Agg(self.kind, self.name, [(n, m.val(v)) for n, v in self.fields])

    def height(self):
        return self.hh

    def __repr__(self):
        return '%s{%s}' % (self.name or self.kind, ', '.join('%s: %r' % f for f in self.fields))


@_eq
class Enum(Val):
    """Enum value: the possible variants with their payload and the facts each implies."""
    __slots__ = ('name', 'vs', 'must', 'may', 'h', 'hh')

    def __init__(self, name, vs, must=EMPTY, may=EMPTY):
        self.name = name
        self.vs = tuple(sorted(vs, key=lambda x: x[0]))   # (variant, ((field, val),..), facts)
        self.must, self.may = must, may
        self.h = hash((name, self.vs, must, may))
        self.hh = max([height(v) for _, fs, _ in self.vs for _, v in fs] or [0])

    def variant(self, n):
        for x in self.vs:
            if x[0] == n:
                return x
        return None

    def payload(self, n, f='0'):
        x = self.variant(n)
        if x is None:
            return None
        for a, b in x[1]:
            if a == f:
                return b
        return None

    def map(self, m):
        return Enum(self.name, [(n, tuple((f, m.val(v)) for f, v in fs), m.facts(fa))
                                for n, fs, fa in self.vs], m.atoms(self.must), m.atoms(self.may))

    def height(self):
        return self.hh

    def __repr__(self):
        return '|'.join('%s(%s)' % (n, ', '.join(repr(v) for _, v in fs)) for n, fs, _ in self.vs)


def bsym(h):
    return ('v', ('b', h))


@_eq
class Coll(Val):
    """A collection: length, optional default element (under bound variable bsym(bh)),
    overrides ((position token, element under bsym(bh)), ...) later ones win, and values
    stored at unknown positions."""
    __slots__ = ('kind', 'len', 'bh', 'default', 'ovs', 'some', 'h', 'hh')

    def __init__(self, kind, len_, bh, default, ovs=(), some=()):
        self.kind, self.len, self.bh, self.default = kind, len_, bh, default
        self.ovs = tuple(ovs)
        self.some = tuple(some)
        self.h = hash((kind, len_, bh, default, self.ovs, self.some))
        self.hh = bh

    def map(self, m):
        c = Coll(self.kind, m.val(self.len), self.bh, m.val(self.default),
                 [(m.tok(p), m.val(v)) for p, v in self.ovs], [m.val(x) for x in self.some])
        done = [(k, q[1].c) for k, ((p, _), (q, _)) in enumerate(zip(self.ovs, c.ovs))
                if not isinstance(p, Lin) and not isinstance(q, Lin) and p[0] == 'pi' and
                q[0] == 'I' and q[1].is_const() and q[2] is not None and q[2] == c.len.lin]
        if done:
            # written over by a loop that has ended
            ovs = [(q, v) for k, (q, v) in enumerate(c.ovs) if not any(k < j and (
                isinstance(q, Lin) and q.is_const() and q.c >= lo or
                not isinstance(q, Lin) and q[0] == 'I' and q[1].is_const() and q[1].c >= lo)
                for j, lo in done)]
            if len(ovs) < len(c.ovs):
                c = c.but(ovs=ovs)
                if c.default is not None:
                    from .vals import settle
                    return settle(c)
                return c
        if c.default is not None and any(
                not isinstance(p, Lin) and not isinstance(q, Lin) and p[0] == 'pi' and
                q[0] == 'I' for (p, _), (q, _) in zip(self.ovs, c.ovs)):
            from .vals import settle
            return settle(c)
        return c

    def but(self, **kw):
        d = dict(kind=self.kind, len_=self.len, bh=self.bh, default=self.default, ovs=self.ovs,
                 some=self.some)
        d.update(kw)
        return Coll(**d)

    def height(self):
        return self.hh

    def __repr__(self):
        r = '%s(len %r' % (self.kind, self.len.lin)
        if self.default is not None:
            r += ', each %r' % (self.default,)
        for p, v in self.ovs:
            r += ', [%s] %r' % (tokstr(p), v)
        if self.some:
            r += ', some %r' % (self.some,)
        return r + ')'


@_eq
class Ref(Val):
    """alts: ('P', frame, local, path) places or ('V', val) borrowed values."""
    __slots__ = ('alts', 'h', 'hh')

    def __init__(self, alts):
        self.alts = tuple(alts)
        self.h = hash(('ref', self.alts))
        self.hh = max([height(a[1]) for a in self.alts if a[0] == 'V'] or [0])

    def map(self, m):
        out = []
        for a in self.alts:
            if a[0] == 'V':
                out.append(('V', m.val(a[1])))
            else:
                out.append(('P', a[1], a[2], tuple(mapproj(m, p) for p in a[3])))
        return Ref(out)

    def height(self):
        return self.hh

    def __repr__(self):
        return '&' + '|'.join(repr(a[1]) if a[0] == 'V' else '%s:_%s%s' % (a[1][-12:], a[2], a[3])
                              for a in self.alts)


def mapproj(m, p):
    """Projections: ('f', name), ('d', variant), ('x', Leaf), ('sub', Leaf, Leaf)."""
    if p[0] == 'x':
        return ('x', m.val(p[1]))
    if p[0] == 'sub':
        return ('sub', m.val(p[1]), m.val(p[2]))
    return p


@_eq
class Iter(Val):
    """Lazy iterator; see models.  args: tuple of Val/Iter/str; pos: Leaf."""
    __slots__ = ('kind', 'args', 'pos', 'h', 'hh')

    def __init__(self, kind, args, pos=None):
        self.kind, self.args = kind, tuple(args)
        self.pos = pos if pos is not None else ILEAF0
        self.h = hash((kind, self.args, self.pos))
        self.hh = max([height(a) for a in self.args if isinstance(a, Val)] or [0])

    def map(self, m):
        return Iter(self.kind, [m.val(a) if isinstance(a, Val) else a for a in self.args],
                    m.val(self.pos))

    def height(self):
        return self.hh

    def at(self, pos):
        return Iter(self.kind, self.args, pos)

    def __repr__(self):
        return 'Iter:%s%r@%r' % (self.kind, self.args, self.pos.lin)


def height(v):
    return v.height() if v is not None else 0


def ileaf(l, must=EMPTY, may=EMPTY):
    return Leaf(must, may, l, ty='int')


ILEAF0 = ileaf(ZERO)


def bleaf(b):
    return Leaf(const=('bool', b), ty='bool')


UNIT = Agg('tuple', '', ())


def bind(v, var):
    """Abstract v over loop variable symbol var; returns (height, body)."""
    h = height(v) + 1
    return h, Map({var: sym(bsym(h))}).val(v)


def lift(v, h0, h):
    """Rename bound variable of height h0 to h."""
    return v if h0 == h or v is None else Map({bsym(h0): sym(bsym(h))}).val(v)


# ---------------------------------------------------------------- coverage
def same_len(a, b, eqs):
    """Is a == b by the equalities eqs (pairs of Lins)?"""
    seen, todo = {a}, [a]
    while todo:
        x = todo.pop()
        if x == b:
            return True
        if len(seen) > 60:
            return False
        for u, v in eqs:
            for p, q in ((u, v), (v, u)):
                d = sub(x, p)
                if d.is_const():
                    y = add(q, d)
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
    return False


def unmin(l, eqs):
    """l with minima of provably equal values resolved."""
    for s, k in l.t:
        if s[0] == 'op' and s[1] == 'min':
            xs = []
            for x in s[2]:
                x = x if x.is_const() else unmin(x, eqs)
                if not any(same_len(x, y, eqs) for y in xs):
                    xs.append(x)
            y = lmin(*xs)
            if y != lin({s: 1}):
                return unmin(add(sub(l, lin({s: k})), scale(y, k)), eqs)
    return l


def norm_hi(hi, lens, eqs):
    """END-normalises an upper bound for a dimension whose length may be any of lens."""
    if hi is None:
        return None
    hi = unmin(hi, eqs)
    for l in lens:
        d = sub(hi, l)
        if d.is_const():
            return add(LEND, d)
    for (x, y) in eqs:
        for a, b in ((x, y), (y, x)):
            d = sub(hi, a)
            if d.is_const():
                for l in lens:
                    d2 = sub(b, l)
                    if d2.is_const():
                        return add(LEND, add(d, d2))
    return hi


def has_div(l):
    for s, k in l.t:
        if s[0] == 'op' and s[1] in ('div', 'shr', 'rem'):
            return True
        if s[0] == 'op' and s[1] == 'min':
            return True
        if s[0] == 'op' and any(has_div(x) for x in s[2]):
            return True
    return False


def halves(l):
    return any(s[0] == 'op' and s[1] in ('div', 'shr') for s, k in l.t if k > 0)


def looping(l):
    """Does a quantity change from iteration to iteration?"""
    return any(s[0] in ('w', 'v') or s[0] == 'op' and any(looping(x) for x in s[2])
               for s, _ in l.t)


def covers_const(toks, n):
    """covers_dim for a dimension of the constant length n."""
    iv = []
    for t in toks:
        if isinstance(t, Lin):
            ends = (t, add(t, ONE))
        elif t[0] == 'I':
            ends = (t[1], const(n) if t[2] is None else t[2])
        elif t[0] in ('mx', 'pi', 'st'):
            return True
        else:
            continue
        ends = [add(sub(x, LEND), const(n)) if END in dict(x.t) else x for x in ends]
        if not all(x.is_const() for x in ends):
            return True
        iv.append((ends[0].c, ends[1].c))
    return all(any(a <= i < b for a, b in iv) for i in range(n))


def covers_dim(toks, lens, eqs):
    """Do the tokens of one dimension cover it?  Lenient: only positive evidence of a gap
    counts as not covered."""
    if lens and all(l.is_const() for l in lens):
        return covers_const(toks, lens[0].c)
    iv = []
    strided = set()
    for t in toks:
        if isinstance(t, Lin):
            if looping(t):
                return True
            t2 = norm_hi(t, lens, eqs)
            iv.append((t2, add(t2, ONE)))
        elif t[0] == 'I':
            iv.append((norm_hi(t[1], lens, eqs), norm_hi(t[2], lens, eqs)))
        elif t[0] in ('mx',):
            return True
        elif t[0] == 'pi':
            return True
        elif t[0] == 'st':
            strided.add(t)
    if len(strided) > 1:
        return True
    # halves folded onto each other: one part starts at 0, another at a fraction of the length
    if any(lo.is_const() and lo.c <= 0 for lo, _ in iv) and \
            any(not lo.is_const() and halves(lo) for lo, _ in iv):
        return True
    cur = ZERO
    for _ in range(len(iv) + 1):
        best = None
        for lo, hi in iv:
            if hi is not None and hi != LEND:
                # a minimum reaches the end if all its parts do
                ps = [norm_hi(x, lens, eqs) for x in minargs(hi)]
                ps = [x for x in ps if not (sub(x, LEND).is_const() and sub(x, LEND).c >= 0)]
                hi = lmin(*ps) if ps else LEND
            d = sub(lo, cur)
            ok = (d.is_const() and d.c <= 0)
            if not ok and not d.is_const():
                l = lower(scale(d, -1))
                ok = l is not None and l >= 0
            if not ok:
                continue
            if hi is None or hi == LEND:
                return True
            e = sub(hi, LEND)
            if e.is_const():
                if e.c >= 0:
                    return True
                cand = hi
            elif hi.is_const():
                cand = hi
            elif has_div(hi):
                cand = hi
            elif any(s == END for s, _ in hi.t):
                cand = hi
            else:
                return True        # an unrelated symbolic bound: assume it is the length
            if best is None:
                best = cand
            else:
                d = sub(cand, best)
                if not d.is_const() or d.c > 0:
                    best = cand
        if best is None or best == cur:
            return False
        cur = best
    return False


def covers(pats, lens_of, eqs):
    """pats: list of token tuples (same dimensionality); lens_of(dim) -> candidate lengths."""
    def rec(ps, dim):
        ps = list(ps)
        if not ps:
            return False
        if len(ps[0]) == 0:
            return True
        groups = {}
        for p in ps:
            groups.setdefault(p[0], []).append(p[1:])
        good = []
        allrest = [r for t, rs in groups.items() for r in rs]
        for t, rs in groups.items():
            # tokens that are wider also serve this piece
            rest = list(rs)
            for t2, rs2 in groups.items():
                if t2 == ALL or (not isinstance(t2, Lin) and t2[0] == 'mx'):
                    rest += rs2
            if rec(rest, dim + 1):
                good.append(t)
        return bool(good) and covers_dim(good, lens_of(dim), eqs)
    return rec(pats, 0)
