"""Challenges (C12), batching (C13), sizes (C14), the copy argument (C15, C16, C19) and others."""
from .dom import *
from .vals import leaves, atom_sub, tok_sub, must_of, may_of
from . import par, cg
from .props import (Acc, accept_eqs, covered, is_proof_root, label, partstr, proof_leaves, short,
                    squeezes, syms_of, union_of)
from .par import Find


def unsupported(f, run):
    for e in run.events:
        if e.kind == 'unsupported':
            f.need(False, 'unsupported:%s' % e.what, '%s: not understood: %s at %s' % (
                run.path, e.what, e.at))
        elif e.kind == 'unknown':
            f.notes.add('assumed to pass on all its arguments and nothing else: %s' % e.callee)
    f.count('functions_interpreted', len(run.it.fns_seen))


# ---------------------------------------------------------------- C12
WIDE = 48


def ischal(a):
    return a[0][:2] == 'C:'


def width(t):
    """How many bytes of a squeezed buffer token t stands for: None if not known."""
    if t == ALL:
        return None
    if isinstance(t, (str, Lin)):
        return 1
    if t[0] == 'I' and t[1].is_const() and t[2] is not None and t[2].is_const():
        return t[2].c - t[1].c
    return None


def c12_entry(crate, run, arg):
    f = Find()
    tr = arg
    sq = squeezes(run)
    f.need(sq, 'none:' + run.path, '%s draws no challenge' % run.path)
    for e in run.events:
        if e.kind in ('squeeze', 'absorb'):
            f.need(e.tr == tr, 'transcript:%s' % run.path,
                   '%s: "%s" at %s is not an operation on the transcript of the caller' % (
                       run.path, label(e), e.at))
        if e.kind == 'squeeze':
            f.count('challenge_sites')
            f.need(e.len is not None and e.len.is_const() and e.len.c >= WIDE,
                   'bytes:%s:%s' % (run.path, label(e)),
                   '%s: %s squeezes only %s bytes for challenge "%s" at %s' % (
                       run.path, e.fn, e.len, label(e), e.at))
        elif e.kind == 'reduce':
            cs = [a for a in e.val.may | e.val.must if ischal(a)]
            if not cs:
                continue
            f.count('reductions')
            f.need(e.rfn in ('from_bytes_mod_order_wide',), 'reduce:%s:%s' % (run.path, e.fn),
                   '%s: %s makes a scalar of squeezed bytes with %s at %s' % (
                       run.path, e.fn, e.rfn, e.at))
            full = [a for a in e.val.must if ischal(a) and a[1] and (width(a[1][-1]) or 0) >= WIDE]
            f.need(full and len({a[1][:-1] for a in cs}) == 1,
                   'narrow:%s:%s' % (run.path, e.fn),
                   '%s: at %s %s makes a scalar of %s, not of %d squeezed bytes' % (
                       run.path, e.at, e.fn, short(cs), WIDE))
        elif e.kind == 'chalop':
            f.need(False, 'altered:%s:%s' % (run.path, e.fn),
                   '%s: %s alters squeezed bytes (%s) at %s' % (run.path, e.fn, e.op, e.at))
        elif e.kind == 'tobytes':
            cs = [a for a in e.val.must | e.val.may if ischal(a)]
            other = [a for a in e.val.must | e.val.may if not ischal(a)]
            f.need(not cs or other, 'taken apart:%s:%s' % (run.path, e.fn),
                   '%s: %s takes a challenge apart at %s: %s' % (run.path, e.fn, e.at, short(cs)))
    # what the challenges end up in
    if run.path in cg.VERIFIERS:
        eqs, pes = accept_eqs(run)
        used = {a for a in union_of(pes) if ischal(a)}
        maybe = {a for _, v, _ in Acc(run).states for a in may_of(v) | must_of(v) if ischal(a)}
        for e in sq:
            good = [a for a in used if a[0] == 'C:' + label(e) and len(a[1]) == len(e.stk) + 1 and
                    (width(a[1][-1]) or 0) >= WIDE]
            for i, t in enumerate(e.stk):
                good = [a for a in good if tok_sub(t, a[1][i]) or
                        (isinstance(t, Lin) and not t.is_const() and not (
                            isinstance(a[1][i], Lin) and a[1][i].is_const()))]
            if not good and any(a[0] == 'C:' + label(e) and PT in a[1][:-1] for a in used) and any(
                    a[0] == 'C:' + label(e) and len(a[1]) == len(e.stk) + 1 and
                    (width(a[1][-1]) or 0) >= WIDE and
                    all(tok_sub(t, u) or isinstance(t, Lin) and not t.is_const()
                        for t, u in zip(e.stk, a[1])) for a in maybe):
                # certainly that of some round, possibly that of this one
                f.count('undecided_challenge_uses')
                continue
            f.need(good, 'unused:%s:%s' % (run.path, label(e)),
                   '%s: challenge "%s", drawn at %s%s, is not used in full in the deciding '
                   'equality' % (run.path, label(e), e.at, ''.join(
                       ' in round ' + tokstr(t) for t in e.stk)))
    unsupported(f, run)
    return f




def c12(crate, r, tier):
    from . import effects
    effects.c12_calls(crate, r, tier)
    args = dict([(p, 'p0') for p in cg.PROVERS] + [(v, 'p1') for v in cg.VERIFIERS])
    tot = par.merge(r, par.each(crate, cg.PROVERS + cg.VERIFIERS, c12_entry, args=args))
    r.floor('challenge_sites', tot.get('challenge_sites', 0), 60)
    r.floor('reductions', tot.get('reductions', 0), 40)


# ---------------------------------------------------------------- C14
# functions that combine two operands element by element, and how deep the operands are nested
COMBINE = {
    'math_utils::inner_product': 1,
    'matrix::row_row_add': 1, 'matrix::row_row_sub': 1, 'matrix::row_row_add_general': 1,
    'matrix::rowpoint_rowpoint_add': 1,
    'matrix::matrix_matrix_add': 2, 'matrix::matrix_matrix_add_general': 2,
    'matrix::matrixpoint_matrix_add': 2,
    'matrix::matrix_vector_mul': (2, 1),
}


def len_eq(passed, a, b, da, db, eqs):
    """Were the lengths of nesting level da of a and level db of b compared and found equal, in
    all of the outer positions?"""
    pats = {('len:' + a, da): [], ('len:' + b, db): []}
    for f in passed:
        if f[0] != 'eq' or f[5] != 'int':
            continue
        l = [x for x in f[1] | f[2] if x[0] == 'len:' + a and len(x[1]) == da]
        r = [x for x in f[1] | f[2] if x[0] == 'len:' + b and len(x[1]) == db]
        others = [x for x in f[1] | f[2] if x not in l and x not in r]
        if not l or not r or others:
            continue
        if f[3] is not None and f[4] is not None:
            if not plain_len(f[3], a, b) or not plain_len(f[4], a, b):
                continue
        pats[('len:' + a, da)] += [x[1] for x in l]
        pats[('len:' + b, db)] += [x[1] for x in r]
    for (root, d), ps in pats.items():
        if not ps:
            return False
        r = root[4:]
        if d and not covered(r, (None,) * d, [(r, p) for p in ps], eqs,
                             syms_of([(r, p) for p in ps], eqs)):
            return False
    return True


def plain_len(l, a, b):
    """Is l one of the lengths, and not a part of it or the smaller of two?"""
    if l.c or len(l.t) != 1:
        return False
    (s, k), = l.t
    return k == 1 and s[0] in ('len', 'w', 'v')


def c14_entry(crate, run, arg):
    f = Find()
    da, db = arg if isinstance(arg, tuple) else (arg, arg)
    n = 0
    for s, v in run.outs:
        n += 1
        f.count('returns')
        eqs = Acc.int_eqs(s.passed)
        # the lengths at every level that is combined
        for k in range(min(da, db)):
            f.need(len_eq(s.passed, 'p0', 'p1', da - 1 - k, db - 1 - k, eqs),
                   'len:%s:%d' % (run.path, k),
                   '%s returns without having compared the %s of its operands' % (
                       run.path, 'lengths' if da - 1 - k == 0 else 'lengths of all rows'))
        m = must_of(v)
        syms = syms_of(m, eqs)
        for root, d in (('p0', da), ('p1', db)):
            f.need(covered(root, (None,) * d, m, eqs, syms), 'part:%s:%s' % (run.path, root),
                   '%s: not all of operand %s is in the result, only %s' % (
                       run.path, root[1:], short([a for a in m if a[0] == root])))
        for l in leaves(v):
            if l.ty in ('len', 'int', 'tag'):
                continue
            a = {x[1][da - 1:] for x in l.must if x[0] == 'p0' and len(x[1]) == da}
            b = {x[1][db - 1:] for x in l.must if x[0] == 'p1' and len(x[1]) == db}
            f.need(not a or not b or a == b, 'pair:%s' % run.path,
                   '%s combines elements of different positions: %s' % (run.path, short(l.must)))
    f.need(n, 'none:' + run.path, '%s never returns' % run.path)
    unsupported(f, run)
    f.samples.append({'function': run.path, 'nesting': [da, db]})
    return f


def c14(crate, r, tier):
    have = [p for p in COMBINE]
    tot = par.merge(r, par.each(crate, have, c14_entry, args=COMBINE, rect=False))
    r.floor('returns', tot.get('returns', 0), 9)


# ---------------------------------------------------------------- C20
class Eqs:
    """Integer equalities known on a path, closed under linear reasoning and minima."""

    def __init__(self, passed, extra=()):
        self.rows = []
        self.pow2, self.le = [], []
        syms = set()
        for f in passed:
            if f[5] != 'int':
                continue
            if f[0] == 'eq' and f[3] is not None and f[4] is not None:
                self.add(sub(f[3], f[4]))
            elif f[0] == 'pow2' and f[3] is not None:
                self.pow2.append(f[3])
            elif f[0] in ('le', 'lt') and f[3] is not None and f[4] is not None:
                self.le.append((f[3] if f[0] == 'le' else add(f[3], ONE), f[4]))
            for l in f[3:5]:
                if l is not None:
                    syms |= {s for s, _ in l.t if s[0] == 'op' and s[1] == 'min'}
        for d in extra:
            self.add(d)
        for _ in range(2):
            for s in syms:
                xs = minargs(sym(s))
                if all(self.eq(xs[0], x) for x in xs[1:]):
                    self.add(sub(sym(s), xs[0]))

    def reduce(self, d):
        from fractions import Fraction
        v = {s: Fraction(k) for s, k in d.t}
        c = Fraction(d.c)
        for p, r, rc in self.rows:
            k = v.get(p)
            if k:
                for s, x in r.items():
                    v[s] = v.get(s, 0) - k * x
                c -= k * rc
        return {s: k for s, k in v.items() if k}, c

    def add(self, d):
        v, c = self.reduce(d)
        if not v:
            return
        p = min(v, key=lambda s: (s[0] not in ('w', 'op'), repr(s)))
        k = v[p]
        row = {s: x / k for s, x in v.items()}
        # keep the rows reduced
        new = []
        for q, r, rc in self.rows:
            y = r.get(p)
            if y:
                r = dict(r)
                for s, x in row.items():
                    r[s] = r.get(s, 0) - y * x
                    if not r[s]:
                        del r[s]
                rc = rc - y * (c / k)
            new.append((q, r, rc))
        self.rows = new + [(p, row, c / k)]

    def eq(self, a, b):
        v, c = self.reduce(sub(a, b))
        return not v and not c

    def ispow2(self, a):
        if a.is_const():
            return a.c > 0 and a.c & (a.c - 1) == 0
        return any(self.eq(a, x) for x in self.pow2)

    def isle(self, a, b):
        d = sub(b, a)
        if d.is_const():
            return d.c >= 0
        for x, y in self.le:
            v, c = self.reduce(sub(d, sub(y, x)))
            if not v and c >= 0:
                return True
        return False


def ln(r, *p):
    return ('len', r, tuple(p))


def val(r, *p):
    return ('val', r, tuple(p))


def show(s):
    k = s[0] if isinstance(s, tuple) else s
    return '%s(%s)' % ({'val': 'value'}.get(k, k), '.'.join(
        (s[1],) + tuple(x if isinstance(x, str) else tokstr(x) for x in s[2])))


# what every returned proof implies: ('eq', a, b, k): a = b + k; ('pow2', a); ('le', k, a);
# ('one', (root, path))
REFUSE = {
    'ipa::no_zk::create': [('pow2', ln('p1')), ('eq', ln('p2'), ln('p1'), 0),
                           ('eq', ln('p4'), ln('p1'), 0), ('eq', ln('p5'), ln('p1'), 0)],
    'ipa::alm_zk::create': [('pow2', ln('p1')), ('eq', ln('p2'), ln('p1'), 0),
                            ('eq', ln('p5'), ln('p1'), 0), ('eq', ln('p6'), ln('p1'), 0)],
    'ipa::qesa_inner::create': [('pow2', ln('p1')), ('eq', ln('p2'), ln('p1'), 0),
                                ('eq', ln('p5'), ln('p1'), -2), ('eq', ln('p6'), None, 2)],
    'qesa_zk::create': [('pow2', ln('p1')), ('eq', ln('p2'), ln('p1'), 0),
                        ('eq', ln('p5'), ln('p1'), -2)],
    'copy::copy::create': [('pow2', ln('p1')), ('eq', ln('p2'), ln('p1'), 0),
                           ('eq', ln('p7'), val('p4', 'num_commitments'), 0),
                           ('one', ('p6', (ZERO,))), ('fit', 'p7', 'p4')],
    'lmpa::no_zk::create': [('pow2', ln('p2'))],
    'lmpa::simple_zk::create': [('pow2', ln('p2'))],
    'lmpa::no_zk::create_lmpa_noZK': [('le', 2, val('p6'))],
    'lmpa::simple_zk::create_general': [('le', 2, val('p6'))],
}
# sizes at which the folding loops do not run
SMALL = {
    'ipa::no_zk::create': [{ln('p1'): 1}],
    'ipa::alm_zk::create': [{ln('p1'): 1}],
    'lmpa::no_zk::create': [{ln('p2'): 1}],
    'lmpa::simple_zk::create': [{ln('p2'): 1}],
}


def fits(run, facts, openings, mapping):
    """Is the number of messages in each opening compared with what the mapping records?
    None if they are compared with something unclear."""
    def of(e):
        return any(a[0].endswith(mapping) or a[0].startswith(mapping + '.')
                   for a in must_of(e.item) | may_of(e.item))

    kept = {('u', e.key) for e in run.events if e.kind == 'filter' and of(e)}
    got, unclear = set(), False
    for g in facts:
        if g[0] != 'eq' or g[5] != 'int' or g[3] is not None and g[3] == g[4]:
            continue
        for m, l, m2, l2 in ((g[1], g[3], g[2], g[4]), (g[2], g[4], g[1], g[3])):
            a = {x for x in m if x[0] == 'len:' + openings and x[1]}
            if not a:
                continue
            if l2 is not None and any(x in kept for x, _ in l2.t) or \
                    any(x[0].startswith('len:' + mapping + '.') for x in m2):
                got |= a
            else:
                unclear = True
    eqs = []
    if covered('len:' + openings, (None, '0'), got, eqs, syms_of(got, eqs)):
        return True
    return None if unclear or got else False


def c20_entry(crate, run, arg):
    f = Find()

    def q(s):
        if s is None:
            return ZERO
        return const(run.fix[s]) if s in run.fix else sym(s)
    at = '' if not run.fix else ' when ' + ', '.join('%s = %s' % (show(s), v)
                                                    for s, v in run.fix.items())
    n = 0
    for s, v in run.outs:
        n += 1
        f.count('returns')
        e = Eqs(s.passed)
        for r in REFUSE[run.path]:
            if r[0] == 'eq':
                ok = e.eq(q(r[1]), add(q(r[2]), const(r[3])))
                t = '%s is %s%s' % (show(r[1]), show(r[2]) if r[2] else r[3],
                                    '%+d' % r[3] if r[3] and r[2] else '')
            elif r[0] == 'pow2':
                ok, t = e.ispow2(q(r[1])), '%s is a power of two' % show(r[1])
            elif r[0] == 'fit':
                ok, t = fits(run, s.passed, r[1], r[2]), \
                    'every opening has as many messages as the mapping has for it'
                if ok is None:
                    f.count('not_decided')
                    continue
            elif r[0] == 'le':
                ok, t = e.isle(const(r[1]), q(r[2])), '%s is at least %d' % (show(r[2]), r[1])
            else:
                a = r[1]
                ok = any(x[0] == 'eq' and x[5] == 'scalar' and (
                    (x[1] == frozenset([a]) and x[2] == frozenset([('K:one', ())])) or
                    (x[2] == frozenset([a]) and x[1] == frozenset([('K:one', ())])))
                    for x in s.passed)
                t = '%s[%s] is one' % (a[0], tokstr(a[1][0]))
            f.need(ok, 'refuse:%s:%s' % (run.path, t),
                   '%s returns a proof%s without having made sure that %s' % (run.path, at, t))
    f.need(n or run.fix, 'none:' + run.path, '%s never returns' % run.path)
    unsupported(f, run)
    return f


def c20(crate, r, tier):
    tot = par.merge(r, par.each(crate, sorted(REFUSE), c20_entry, fixes=SMALL))
    r.floor('returns', tot.get('returns', 0), 9)
