"""Scaling factors: batching (C13), the pinned first element (C18), the copy argument (C16) and
Pedersen commitments (C19).  All of them compare the known sums of products of values (dom.mo_*)
with what the argument needs; a value whose sum of products is not known raises no alarm, unless
what it depends on already shows that something is missing."""
from .dom import *
from .vals import leaves, at, read, must_of, may_of
from . import par, cg
from .algebra import unsupported
from .props import (Acc, accept_eqs, covered, label, partstr, short, squeezes, syms_of, union_of)
from .par import Find


def ischal(a):
    return a[0][:2] == 'C:'


def single(m):
    """(coefficient, ((atom, exponent), ...)) of a sum with one known summand."""
    if not isinstance(m, frozenset) or len(m) != 1:
        return None
    (k, f), = m
    return None if f == REST or not k else (k, f)


def one_atom(m):
    """The atom m is, up to sign: an input or a challenge to the power of one."""
    s = single(m)
    if s is None or len(s[1]) != 1 or s[1][0][1] != ONE:
        return None
    return s[1][0][0]


def power(m):
    """(atom, exponent) if m is, up to sign, a power of one challenge."""
    s = single(m)
    if s is None or s[0] not in (1, -1) or len(s[1]) != 1 or not ischal(s[1][0][0]):
        return None
    return s[1][0]


def pieces(c):
    """[(position token or None, element)] of a collection, elements under bsym(c.bh)."""
    out = [] if c.default is None else [(None, c.default)]
    return out + list(c.ovs)


def has_loopvar(l):
    return any(s[0] in ('v', 'w') for s, _ in l.t)


def law(t, e):
    """(c, d) with e = c * t + d and d the same in all iterations, where t names positions that
    differ between iterations; None if there are none."""
    for s, k in t.t:
        if s[0] != 'v':
            continue
        j = dict(e.t).get(s, 0)
        if not j or j % k:
            return None
        c = j // k
        d = sub(e, scale(t, c))
        return None if has_loopvar(d) else (c, d)
    return None


class Laws:
    """Is every position scaled by its own power of one challenge?"""

    def __init__(self, f, key, where, what):
        self.f, self.key, self.where, self.what = f, key, where, what
        self.law = None
        self.atom = None
        self.pts = {}
        self.undecided = 0

    def bad(self, text, at):
        self.f.need(False, self.key, '%s: %s%s' % (self.where, text, ' at ' + at if at else ''))

    def add(self, t, m, leaf, at=''):
        """position t is scaled by leaf, one alternative of whose sum of products is m"""
        self.f.count('scalings')
        if m is None:
            cs = [a for a in leaf.must | leaf.may if ischal(a)]
            if not cs and leaf.const is None:
                self.bad('%s %s is scaled by something that is no challenge: %s' % (
                    self.what, tokstr(t), short(leaf.must | leaf.may)), at)
            elif not cs:
                self.bad('%s %s is not scaled by a challenge' % (self.what, tokstr(t)), at)
            elif ('wrap', ()) in leaf.may and ('step', ()) not in leaf.may:
                self.bad('%ss %s are scaled by powers of a challenge taken from positions that '
                         'repeat' % (self.what, tokstr(t)), at)
            else:
                self.undecided += 1
            return
        p = power(m)
        if p is None:
            if not m or all(f == () for k, f in m):
                self.bad('%s %s is scaled by the constant %s' % (
                    self.what, tokstr(t), mo_str(m)), at)
            else:
                self.undecided += 1
            return
        atom, e = p
        if self.atom is None:
            self.atom = atom
        if atom != self.atom:
            # another challenge altogether: its own if it was drawn for this position
            self.undecided += 1
            return
        self.f.n += 1
        if not isinstance(t, Lin):
            lo, hi = (t[1], t[2]) if t[0] == 'I' else (None, None)
            n = sub(hi, lo) if hi is not None else None
            if n is None or not n.is_const() or n.c > 1:
                if not has_loopvar(e) and not any(s[0] == 'v' for s, _ in e.t):
                    self.bad('%ss %s all share the scaling factor %s' % (
                        self.what, tokstr(t), mo_str(m)), at)
            return
        if any(s[0] == 'v' for s, _ in t.t):
            l = law(t, e)
            if l is None or not l[0]:
                if any(s[0] == 'w' for s, _ in e.t) or any(s[0] == 'w' for s, _ in t.t):
                    self.undecided += 1
                    return
                self.bad('%ss %s are scaled by %s, which is not different for each of them' % (
                    self.what, tokstr(t), mo_str(m)), at)
                return
            if self.law is None:
                self.law = l
            elif self.law != l:
                self.bad('%ss are scaled by powers of %s with exponents %s and %s of their '
                         'index, so that two can share one' % (
                             self.what, pathstr(*atom), lawstr(self.law), lawstr(l)), at)
        else:
            for u, x in self.pts.items():
                d = sub(u, t)
                if x == e and d.is_const() and d.c:
                    self.bad('%ss %s and %s share the scaling factor %s' % (
                        self.what, tokstr(u), tokstr(t), mo_str(m)), at)
            self.pts[t] = e

    def end(self):
        if self.law:
            for t, e in self.pts.items():
                want = add(scale(t, self.law[0]), self.law[1])
                d = sub(want, e)
                self.f.n += 1
                if d.is_const() and d.c:
                    self.bad('%s %s is scaled by %s to the power of %r, the others by %s of '
                             'their index' % (self.what, tokstr(t), pathstr(*self.atom), e,
                                              lawstr(self.law)), '')
        self.f.count('scalings_not_decided', self.undecided)


def lawstr(l):
    return repr(add(scale(sym(('v', ('b', 0))), l[0]), l[1])).replace("v(('b', 0))", 'i')


def operands(e):
    yield e.a, e.b
    yield e.b, e.a


# ---------------------------------------------------------------- C13
# where the constraint matrices come in
MATRICES = {'ipa::qesa_inner::create': 4, 'ipa::qesa_inner::Inner::verify': 5,
            'qesa_zk::create': 4, 'qesa_zk::Zk::verify': 5}
BATCH = 'matrix::BlockMatrix::block_matrix_batch'


def c13_entry(crate, run, arg):
    f = Find()
    root = 'p%d' % arg
    lw = Laws(f, 'scale:' + run.path, run.path, 'matrix')
    for e in run.events:
        if e.kind == 'mul':
            for x, y in operands(e):
                for m in mo_alts(mo_of(x)):
                    a = one_atom(m)
                    if a is None or a[0] != root or a[1][:1] != ('block',):
                        continue
                    for k in mo_alts(mo_of(y)):
                        lw.add(a[1][1], k, y, e.at)
        elif e.kind == 'enter' and e.callee == BATCH:
            # the challenges handed over, position by position
            c = deref(e.vals[1])
            if not isinstance(c, Coll):
                continue
            f.count('challenge_vectors')
            cl = Laws(f, 'vector:' + run.path, run.path, 'challenge')
            b = sym(bsym(c.bh))
            for t, v in pieces(c):
                if not isinstance(v, Leaf):
                    continue
                for m in mo_alts(mo_of(v)):
                    if m is None:
                        continue
                    if t is None:
                        cl.add(b, m, v, e.at)
                    elif isinstance(t, Lin):
                        cl.add(t, mo_map(m, Map({bsym(c.bh): t})), v, e.at)
                    elif any(any(s == bsym(c.bh) for s, _ in n.t) for _, fs in m for _, n in fs):
                        cl.add(b, m, v, e.at)
                    else:
                        cl.add(t, m, v, e.at)
            cl.end()
    lw.end()
    # nothing is left out
    for e in run.events:
        if e.kind != 'filter' or not isinstance(e.pred, Leaf) or not isinstance(e.n, Lin) or not any(
                s[0] == 'len' and s[1] == root and s[2] == ('block',) for s, _ in e.n.t):
            continue
        f.count('matrix_filters')
        for x in e.pred.tf | e.pred.ff:
            if x[5] == 'int' and any(
                    isinstance(a, Lin) and isinstance(b, Lin) and a.is_const() and a.c > 1 and
                    any(s[0] in 'vw' for s, _ in b.t) for a, b in ((x[3], x[4]), (x[4], x[3]))):
                f.need(False, 'dropped:' + run.path,
                       '%s: which of the matrices are taken in is decided by comparing their '
                       'position with a constant at %s' % (run.path, e.at))
    if run.path in cg.VERIFIERS:
        eqs, pes = accept_eqs(run)
        u = union_of(pes)
        f.need(covered(root, ('block', None, None, None), u, eqs, syms_of(u, eqs)),
               'dropped:' + run.path,
               '%s: the deciding equality does not involve all entries of all matrices, only %s'
               % (run.path, short([a for a in u if a[0] == root])))
    else:
        for e in run.events:
            if e.kind != 'absorb':
                continue
            u = must_of(e.val)
            if not any(a[0] == root for a in u | may_of(e.val)) or \
                    not e.fn.startswith('ipa::qesa_inner'):
                continue
            f.count('absorbed_batches')
            f.need(covered(root, ('block', None, None, None), u, [], syms_of(u, [])),
                   'dropped:' + run.path,
                   '%s: "%s", absorbed at %s, does not involve all entries of all matrices, only %s'
                   % (run.path, label(e), e.at, short([a for a in u if a[0] == root])))
    unsupported(f, run)
    return f


def deref(v):
    while isinstance(v, Ref) and len(v.alts) == 1 and v.alts[0][0] == 'V':
        v = v.alts[0][1]
    return v


def c13(crate, r, tier):
    tot = par.merge(r, par.each(crate, list(MATRICES), c13_entry, args=MATRICES, watch=(BATCH,)))
    r.floor('challenge_vectors', tot.get('challenge_vectors', 0) + tot.get('scalings', 0), 1)


# ---------------------------------------------------------------- C18
# where the first generator comes in, the commitment that has to come before the challenge, and
# where the base and the witness commitment are handed on
PINNED = {
    'ipa::qesa_inner::create': ('p1', [('p5', (None,)), ('p6', (None,))],
                                'ipa::alm_zk::create', 1, None),
    'ipa::qesa_inner::Inner::verify': ('p2', [('self', ('c_prime_w',))],
                                       'ipa::alm_zk::AlmZK::verify', 2, 6),
}


def element(v, t):
    """Element t of a collection as (alternatives of) one value, None if not known."""
    c = deref(v)
    if not isinstance(c, Coll):
        return None
    return read(c, ileaf(t))


def c18_entry(crate, run, arg):
    f = Find()
    root, before, callee, gi, ci = arg
    g0 = (root, (const(0),))
    f.exps = set()
    found = False
    for e in run.events:
        if e.kind != 'enter' or e.callee != callee:
            continue
        found = True
        x = element(e.vals[gi], const(0))
        if not isinstance(x, Leaf):
            continue
        f.count('bases_handed_on')
        chals = set()
        for m in mo_alts(mo_of(x)):
            if m is None:
                f.need(any(ischal(a) for a in x.must | x.may), 'unscaled:' + run.path,
                       '%s: the first generator handed to %s at %s involves no challenge: %s' % (
                           run.path, callee, e.at, short(x.must | x.may)))
                chals |= {a for a in x.must if ischal(a)}
                f.count('not_decided')
                continue
            s = single(m)
            cs = [] if s is None else [(a, n) for a, n in s[1] if ischal(a)]
            if s is None and any(fs == REST for _, fs in m):
                f.count('not_decided')
                continue
            f.need(cs, 'unscaled:' + run.path,
                   '%s: the first generator handed to %s at %s is %s on some path, not rescaled '
                   'by a challenge' % (run.path, callee, e.at, mo_str(m)))
            chals |= {a for a, _ in cs}
            if s is not None and cs:
                rest = [(a, n) for a, n in s[1] if not ischal(a)]
                f.need(rest == [(g0, ONE)], 'other:' + run.path,
                       '%s: the first generator handed to %s at %s is %s, not a multiple of the '
                       'first generator' % (run.path, callee, e.at, mo_str(m)))
                f.exps.add((tuple(sorted((a[0], n) for a, n in cs)), s[0]))
        # drawn late
        for q in squeezes(run):
            if not any(a[0] == 'C:' + label(q) for a in chals):
                continue
            f.count('rescaling_challenges')
            for r, parts in before:
                must = q.absorbed[0]
                f.need(covered(r, parts, must, [], syms_of(must, [])),
                       'early:' + run.path,
                       '%s: challenge "%s", drawn at %s, rescales the first generator, but is '
                       'drawn before %s is absorbed' % (
                           run.path, label(q), q.at, partstr(r, parts)))
        if ci is None or not isinstance(e.vals[ci], Leaf):
            continue
        # the commitment is adjusted to match
        alts = [m for m in mo_alts(mo_of(e.vals[ci])) if m is not None]
        adj = [{(k, tuple(z for z in fs if z[0] != g0)) for k, fs in m
                if fs != REST and (g0, ONE) in fs} for m in alts]
        for m, g in zip(alts, adj):
            if not g:
                f.need(not any(adj) and any(fs == REST for _, fs in m), 'unadjusted:' + run.path,
                       '%s: the witness commitment handed to %s at %s is not adjusted for the '
                       'rescaled generator on some path: %s' % (run.path, callee, e.at, mo_str(m)))
                continue
            f.count('adjusted_commitments')
            for z in f.exps:
                f.need((-1, ()) in g and any(
                    k == z[1] and tuple(sorted((a[0], n) for a, n in fs)) == z[0] for k, fs in g),
                    'adjustment:' + run.path,
                    '%s: the witness commitment handed to %s at %s is adjusted by %s, which does '
                    'not match the rescaling of the first generator' % (
                        run.path, callee, e.at, mo_str(m)))
    f.need(found, 'none:' + run.path, '%s never calls %s' % (run.path, callee))
    unsupported(f, run)
    return f


def c18(crate, r, tier):
    res = par.each(crate, list(PINNED), c18_entry, args=PINNED,
                   watch=tuple(sorted({p[2] for p in PINNED.values()})))
    tot = par.merge(r, res)
    ex = [x.exps for _, x in res if x.exps]
    r.need(len(ex) < 2 or ex[0] == ex[1], 'differ',
           'prover and verifier rescale the first generator differently: %s' % (
               [sorted(x, key=repr) for x in ex]))
    r.floor('bases_handed_on', tot.get('bases_handed_on', 0), 2)
    r.floor('rescaling_challenges', tot.get('rescaling_challenges', 0), 2)


# ---------------------------------------------------------------- C19
# the generators, the index set (None: the generators are in order), the messages, the blinding
# scalar, and the generator that belongs to it
COMMIT = {'copy::mapping::commit': ('p0', 'p1', 'p2', 'p3', ('p0', 'last')),
          'lmpa::simple_zk::pedersen_commit': ('p1', None, 'p2', 'p3', ('p0', ()))}


def c19_entry(crate, run, arg):
    f = Find()
    gens, idx, msgs, rnd, (bg, bp) = arg
    if bp == 'last':
        bp = (sub(sym(('len', bg, ())), ONE),)
    blind = {(bg, bp), (rnd, ())}
    for e in run.events:
        if e.kind != 'mul':
            continue
        for x, y in operands(e):
            for m in mo_alts(mo_of(x)):
                a = one_atom(m)
                if a is None or a[0] not in (msgs, rnd):
                    continue
                for k in mo_alts(mo_of(y)):
                    f.count('products')
                    what = 'the blinding scalar' if a[0] == rnd else \
                        'message %s' % tokstr(a[1][0])
                    if k is None:
                        roots = {b[0] for b in y.must | y.may}
                        f.need((bg if a[0] == rnd else gens) in roots, 'unpaired:' + run.path,
                               '%s: %s is multiplied at %s with %s, not with a generator' % (
                                   run.path, what, e.at, short(y.must | y.may)))
                        f.count('not_decided')
                        continue
                    if a[0] == rnd:
                        want = (bg, bp)
                    elif idx is None:
                        want = (gens, a[1])
                    else:
                        want = (gens, (sym(('val', idx, a[1])),))
                    b = one_atom(k)
                    f.need(b == want and single(k)[0] * single(m)[0] == 1,
                           'paired:' + run.path,
                           '%s: %s is multiplied at %s with %s instead of %s' % (
                               run.path, what, e.at, mo_str(k), pathstr(*want)))
    n = 0
    for s, v in run.outs:
        if s.flag == 1 or not isinstance(v, Leaf):
            continue
        n += 1
        eqs = Acc.int_eqs(s.passed)
        lg, lm = sym(('len', idx or gens, ())), sym(('len', msgs, ()))
        if idx:
            f.need(any({x, y} == {lg, lm} for x, y in eqs), 'length:' + run.path,
                   '%s: returns a commitment without comparing the number of messages with the '
                   'number of indices' % run.path)
        else:
            # the shorter of the two says how many messages there are
            eqs = eqs + [(lg, lm)]
        u = v.must
        f.need(covered(msgs, (None,), u, eqs, syms_of(u, eqs)), 'left out:' + run.path,
               '%s: the commitment does not depend on all messages, only on %s' % (
                   run.path, short([a for a in u if a[0] == msgs])))
        for a in sorted(blind, key=repr):
            f.need(a in u or any(a[0] == b[0] and b[1] == () for b in u), 'blinding:' + run.path,
                   '%s: on some path the commitment does not depend on %s' % (
                       run.path, pathstr(*a)))
        for m in mo_alts(v.mo):
            if m is None:
                continue
            term = tuple(sorted(((a, ONE) for a in blind), key=repr))
            ks = [k for k, fs in m if fs != REST and tuple(sorted(fs, key=repr)) == term]
            f.need(ks == [1] or (not ks and any(fs == REST for _, fs in m)), 'sum:' + run.path,
                   '%s: the blinding is not added once: the commitment is %s' % (
                       run.path, mo_str(m)))
    f.need(n, 'none:' + run.path, '%s never returns a commitment' % run.path)
    f.count('returns', n)
    unsupported(f, run)
    return f


def c19(crate, r, tier):
    tot = par.merge(r, par.each(crate, list(COMMIT), c19_entry, args=COMMIT))
    r.floor('returns', tot.get('returns', 0), 2)


# ---------------------------------------------------------------- C16
# where the batch of equations is handed on, and the roots of the mapping, of the equations that
# were there before and of the commitments or openings; where the commitment is handed on
COPY = {'copy::copy::Copy::verify': ('ipa::qesa_inner::Inner::verify', 5, 'p6', 'p5', 'p7', 0),
        'copy::copy::create': ('ipa::qesa_inner::create', 4, 'p4', 'p5', 'p7', None)}


def valof(l, root, *parts):
    """The tokens of l = val(root.parts), parts with None for a position; None if it is not."""
    if not isinstance(l, Lin) or len(l.t) != 1 or l.t[0][1] != 1:
        return None
    s = l.t[0][0]
    if s[0] != 'val' or s[1] != root or len(s[2]) != len(parts):
        return None
    out = []
    for x, want in zip(s[2], parts):
        if want is None:
            out.append(x)
        elif x != want:
            return None
    return tuple(out), l.c


def entries(c, path=()):
    """((position tokens), leaf) of the elements of nested collections that were written."""
    for t, v in pieces(c):
        if isinstance(v, Coll):
            yield from entries(v, path + (t,))
        elif isinstance(v, Leaf):
            yield path + (t,), v


def where(t):
    return t[1] if isinstance(t, tuple) and t[0] == 'pi' else t


class Equations:
    def __init__(self, f, run, mp):
        self.f, self.run, self.mp = f, run, mp
        self.offs = set()
        self.keys = []
        self.open = False

    def bad(self, key, text, at):
        self.f.need(False, key + ':' + self.run.path, '%s: %s, handed on at %s' % (
            self.run.path, text, at))

    def matrix(self, t, m, b, at_):
        """One of the added matrices, at position t of the batch."""
        f, mp = self.f, self.mp
        keys, msgs, rows = [], [], set()
        known = True
        for path, v in entries(m):
            for k in mo_alts(mo_of(v)):
                if k is None:
                    known = False
                    continue
                if not k:
                    continue
                col = where(path[-1])
                s = single(k)
                if all(fs == () for _, fs in k):
                    u = valof(col, mp, 'unique_commitment_indices', None)
                    if u is not None and not u[1]:
                        keys.append((u[0][0], s[0]))
                        rows.add(path[-2])
                    elif isinstance(col, Lin):
                        self.bad('entry', 'an added equation has the coefficient %s at %s, which '
                                 'is no commitment index' % (mo_str(k), tokstr(col)), at_)
                    else:
                        known = False
                    continue
                p = power(k)
                if p is None:
                    if any(fs == REST for _, fs in k):
                        known = False
                    else:
                        self.bad('coefficient', 'an added equation has the coefficient %s at %s, '
                                 'which is no power of a challenge' % (
                                     mo_str(k), tokstr(path[-1]) if path[-1] else '*'), at_)
                    continue
                u = valof(col, mp, 'msgs_map', None, 'position_in_witness')
                if u is None or u[1]:
                    if isinstance(col, Lin):
                        self.bad('entry', 'an added equation has the coefficient %s at %s, which '
                                 'is no message position' % (mo_str(k), tokstr(col)), at_)
                    else:
                        known = False
                    continue
                e = valof(p[1], mp, 'msgs_map', None, 'commitment_crs_id')
                if e is None or e[0] != u[0]:
                    self.bad('power', 'the message at %s has the coefficient %s in an added '
                             'equation, not the challenge power of its commitment' % (
                                 tokstr(col), mo_str(k)), at_)
                    continue
                msgs.append(s[0])
                rows.add(path[-2])
                self.offs.add(e[1])
        f.count('equations')
        for k, c in keys:
            f.need(all(c == -s for s in msgs), 'sign:' + self.run.path,
                   '%s: an added equation weighs the aggregated value with %d and the messages '
                   'with %s times their challenge powers, handed on at %s' % (
                       self.run.path, c, sorted(set(msgs)), at_))
        if keys and msgs:
            f.need(len(rows) == 1, 'rows:' + self.run.path,
                   '%s: the aggregated value and the messages are in different equations (rows '
                   '%s), handed on at %s' % (self.run.path, sorted(map(str, rows)), at_))
        if known:
            f.need(keys and msgs, 'empty:' + self.run.path,
                   '%s: the matrix added at %s%s does not relate the aggregated value to the '
                   'messages' % (self.run.path, tokstr(t), '' if keys else ' and has no '
                                 'coefficient at the commitment index'))
        else:
            self.open = True
            f.count('not_decided')
        for k, _ in keys:
            if isinstance(t, Lin):
                self.keys.append(Map({bsym(b): t}).tok(k))
            elif t[0] == 'I':
                c = {bsym(b): (t[1], t[2])}
                self.keys.append(Map({}, close=c).tok(k) if isinstance(k, Lin) and any(
                    s == bsym(b) for s, _ in k.t) else k)
            else:
                self.open = True


def deepsyms(l):
    for s, _ in l.t:
        if s[0] == 'op':
            for x in s[2]:
                yield from deepsyms(x)
        else:
            yield s


def cut(l):
    """The number of elements that are left out or kept if l is a length cut by a constant."""
    for s, k in l.t:
        if s[0] == 'op' and s[1] == 'min':
            for x in s[2]:
                if x.is_const():
                    return x.c
    return l.c if l.t and l.c < 0 else None


def same_index(x, mp):
    """Does fact x say whether a message has the commitment index of the equation?"""
    if x[0] not in ('eq', 'ne') or x[3] is None or x[4] is None:
        return False
    for a, b in ((x[3], x[4]), (x[4], x[3])):
        u = valof(a, mp, 'msgs_map', None, 'commitment_index')
        v = valof(b, mp, 'unique_commitment_indices', None)
        if u and v and u[1] == v[1]:
            return True
    return False


def c16_entry(crate, run, arg):
    f = Find()
    callee, gi, mp, gamma, root, ci = arg
    base = sym(('len', gamma, ('block',)))
    count = sym(('len', mp, ('unique_commitment_indices',)))
    found = False
    offs = set()
    for e in run.events:
        if e.kind != 'enter' or e.callee != callee:
            continue
        found = True
        g = deref(e.vals[gi])
        c = deref(g.get('block')) if isinstance(g, Agg) else None
        if not isinstance(c, Coll):
            f.count('not_decided')
            continue
        eq = Equations(f, run, mp)
        n = c.len.lin
        new = []
        for t, m in pieces(c):
            rs = {a[0] for a in must_of(m) | may_of(m)}
            if t is not None and isinstance(m, Coll) and gamma not in rs:
                new.append((t, m))
        if n is not None and not any(s[0] in 'uw' for s, _ in n.t):
            f.need(n == add(base, count), 'number:' + run.path,
                   '%s: hands on a batch of %r equations at %s, not one more for each commitment '
                   'index' % (run.path, n, e.at))
            if n == base:
                continue
        for t, m in new:
            eq.matrix(t, m, c.bh, e.at)
        if not new:
            f.count('not_decided')
            continue
        if not eq.open:
            f.need(covers([(k,) for k in eq.keys], lambda d: [count], []), 'indices:' + run.path,
                   '%s: the added equations are not one for each commitment index but for %s, '
                   'handed on at %s' % (run.path, ', '.join(map(tokstr, eq.keys)), e.at))
        f.need(len(eq.offs) < 2, 'offsets:' + run.path,
               '%s: the messages in the added equations have challenge powers with different '
               'offsets: %s' % (run.path, sorted(eq.offs)))
        offs |= eq.offs
        # the commitment
        if ci is None:
            continue
        p = deref(e.vals[ci])
        w = p.get('c_prime_w') if isinstance(p, Agg) else None
        if not isinstance(w, Leaf):
            continue
        eqs, pes = accept_eqs(run)
        for x in pes:
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if a == w.must and len(a) == 1:
                    # checked to equal what is computed from the commitments
                    w = w.but(must=a | b, mo=None)
        f.need(covered(root, (None,), w.must, eqs, syms_of(w.must, eqs)), 'folded:' + run.path,
               '%s: the witness commitment handed on at %s involves only %s of the commitments'
               % (run.path, e.at, short([a for a in w.must if a[0] == root])))
        f.need(('self', ('C_w',)) in w.must, 'own:' + run.path,
               '%s: the witness commitment handed on at %s does not involve that of the proof'
               % (run.path, e.at))
        for m in mo_alts(w.mo):
            if m is not None:
                ks = [k for k, fs in m if fs == ((('self', ('C_w',)), ONE),)]
                f.need(ks == [1] or (not ks and any(fs == REST for _, fs in m)),
                       'own:' + run.path,
                       '%s: the witness commitment handed on at %s is %s, with the commitment of '
                       'the proof not added once' % (run.path, e.at, mo_str(m)))
    f.need(found, 'none:' + run.path, '%s never calls %s' % (run.path, callee))
    # each commitment has its own power, the one its messages have in the equations
    lw = Laws(f, 'fold:' + run.path, run.path, 'commitment')
    for e in run.events:
        if e.kind != 'mul' or not e.fn.startswith('copy::'):
            continue
        for x, y in operands(e):
            for m in mo_alts(mo_of(x)):
                a = one_atom(m)
                if a is None or a[0] != root or not a[1]:
                    continue
                if ci is None and a[1][1:] != ('1',):
                    continue
                for k in mo_alts(mo_of(y)):
                    if ci is None and not any(ischal(b) for b in y.must | y.may):
                        continue      # the commitment itself
                    lw.add(a[1][0], k, y, e.at)
            # the prover's aggregated values
            for m in mo_alts(mo_of(x)):
                p = power(m) if m is not None else None
                if p is None:
                    continue
                v = valof(p[1], mp, 'msgs_map', None, 'commitment_crs_id')
                if v is not None:
                    offs.add(v[1])
    lw.end()
    if lw.law and offs:
        f.need(lw.law[0] == 1 and all(lw.law[1] == const(k) for k in offs), 'match:' + run.path,
               '%s: commitments are scaled by powers of the challenge with exponents %s of their '
               'index, their messages with offsets %s' % (
                   run.path, lawstr(lw.law), sorted(offs)))
    for t, x in lw.pts.items():
        if offs and t.is_const():
            f.need(all(x == add(t, const(k)) for k in offs), 'match:' + run.path,
                   '%s: commitment %s is scaled by %s to the power of %r, its messages have '
                   'the offsets %s' % (run.path, tokstr(t), pathstr(*lw.atom), x, sorted(offs)))
    f.offs = offs
    # which messages
    legit = {sym(('len', mp, ('msgs_map',)))}
    mine = set()
    for e in run.events:
        if e.kind != 'filter' or not isinstance(e.pred, Leaf):
            continue
        fs = list(e.pred.tf | e.pred.ff)
        ats = {a[1][:1] for a in e.pred.must | e.pred.may if a[0] == mp}
        if ('unique_commitment_indices',) not in ats and not any(same_index(x, mp) for x in fs):
            continue
        f.count('message_filters')
        mine.add(e.at)
        other = [a for a in e.pred.must | e.pred.may
                 if a[0] == mp and a[1][:1] == ('msgs_map',) and a[1][-1] != 'commitment_index']
        f.need(not other and all(same_index(x, mp) for x in fs), 'filter:' + run.path,
               '%s: which messages an added equation has is not decided by their commitment '
               'index alone at %s%s' % (run.path, e.at, ' but by ' + short(other) if other else ''))
        f.need(e.n is None or e.n in legit or cut(e.n) is None, 'cut:' + run.path,
               '%s: only %r of the messages are looked at for an added equation at %s' % (
                   run.path, e.n, e.at))
    for e in run.events:
        if e.kind == 'branch' and not e.fn.startswith(('ipa::', 'matrix::', 'transcript::')):
            for x in e.tf | e.ff:
                if same_index(x, mp) or x[5] != 'int' or x[3] == x[4]:
                    continue
                on = [s for l in x[3:5] if l is not None for s, _ in l.t
                      if s[0] == 'val' and s[1] == mp and s[2][:1] in (
                          ('msgs_map',), ('unique_commitment_indices',)) or
                      s[0] == 'u' and s[1] in mine or
                      s[0] == 'val' and s[1] == mp and s[2] == ('last_index',) or
                      s[0] == 'len' and s[1] == mp and len(s[2]) == 1]
                other = [s for l in x[3:5] if l is not None for s, _ in l.t if s not in on]
                if not on or other:
                    continue
                if any(s[0] in ('u', 'len') for s in on) and any(
                        l is not None and l.is_const() and l.c < (
                            1 if x[0] in ('eq', 'ne') and all(s[0] == 'len' for s in on) else 2)
                        for l in x[3:5]):
                    continue
                if len(on) > 1 and all(s[0] == 'len' for s in on):
                    continue
                f.count('branches')
                f.need(False, 'branch:' + run.path,
                       '%s: %s decides by %s at %s what the added equations are' % (
                           run.path, e.fn, ' and '.join(repr(l) for l in x[3:5]), e.at))
        elif e.kind == 'loop' and e.fn.startswith('copy::') and isinstance(e.trip, Lin):
            f.count('loops')
            c = cut(e.trip)
            f.need(c is None or not any(
                s[0] == 'u' and s[1] in mine or s[0] == 'len' and s[1] == mp
                for s in deepsyms(e.trip)), 'cut:' + run.path,
                '%s: a loop in %s goes over %r messages or indices of the mapping, not all' % (
                    run.path, e.fn, e.trip))
    # the number of commitments
    num, ln = sym(('val', mp, ('num_commitments',))), sym(('len', root, ()))
    states = Acc(run).states if run.path in cg.VERIFIERS else [
        (s.passed, v, None) for s, v in run.outs if s.flag != 1]
    f.need(states, 'none:' + run.path, '%s never accepts' % run.path)
    for fs, v, _ in states:
        f.count('accepting_returns')
        f.need(any({x, y} == {num, ln} for x, y in Acc.int_eqs(fs)), 'count:' + run.path,
               '%s: goes on without comparing the number of commitments with that of the mapping'
               % run.path)
    unsupported(f, run)
    return f


def c16(crate, r, tier):
    res = par.each(crate, list(COPY), c16_entry, args=COPY,
                   watch=tuple(sorted({p[0] for p in COPY.values()})))
    tot = par.merge(r, res)
    o = [x.offs for _, x in res if x.offs]
    r.need(len(o) < 2 or o[0] == o[1], 'differ',
           'prover and verifier give messages challenge powers with different offsets: %s' % o)
    r.floor('accepting_returns', tot.get('accepting_returns', 0), 2)
