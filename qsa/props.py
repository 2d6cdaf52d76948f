"""Rules over the interpretation of the entry points."""
from .dom import *
from .dom import pathstr
from .vals import atom_sub, tok_sub, must_of, may_of, leaves
from . import par, automata, cg
from .par import Find

PAIR_OF = {}
for _n, _p, _v in cg.PAIRS:
    PAIR_OF[_p] = PAIR_OF[_v] = _n


def short(atoms, n=8):
    s = sorted(pathstr(*a) for a in atoms)
    return '{' + ', '.join(x if len(x) < 90 else x[:40] + '..' + x[-40:] for x in s[:n]) + \
        (', ..' if len(s) > n else '') + '}'


# ---------------------------------------------------------------- C01
def c01_entry(crate, run, arg):
    f = Find()
    acc = frozenset(s.node for s, _ in run.outs if s.flag != 1)
    f.need(acc, 'none:' + run.path, '%s never returns normally' % run.path)
    f.dfa = automata.build(run.edges, 'start', acc)
    f.idle = automata.idle(run.edges, run.it.hdrs, run.it.skips)
    f.again = automata.repeated(run.edges, run.it.skips)
    f.looped = {(e.what, e.label) for e in run.events if e.kind == 'absorb' and any(
        looping(x) for x in e.stk)}
    f.way = {}
    for e in run.events:
        # the direction in which a loop walks what it absorbs
        if e.kind == 'absorb' and e.stk and looping(e.stk[-1]):
            for a in e.val.must:
                for x in a[1]:
                    k = dict(x.t).get(e.stk[-1].t[0][0]) if isinstance(x, Lin) else None
                    if k:
                        f.way.setdefault((e.what, e.label), set()).add(k > 0)
    f.count('transcript_operation_sites', len({(e.at, e.label) for e in run.events
                                               if e.kind in ('absorb', 'squeeze')}))
    f.count('functions_interpreted', len(run.it.fns_seen))
    return f


def c01(crate, r, tier):
    res = dict(par.each(crate, cg.PROVERS + cg.VERIFIERS, c01_entry))
    par.merge(r, list(res.items()))
    for n, p, v in cg.PAIRS:
        a, b = res[p].dfa, res[v].dfa
        d = automata.differ(a, b)
        r.need(d is None, 'seq:' + n, '' if d is None else
               '%s argument: the sequence [%s] is possible in %s but not in %s' % (
                   n, automata.word(d[0]), p if d[1] else v, v if d[1] else p))
        for x, y, fx, fy in ((p, v, res[p], res[v]), (v, p, res[v], res[p])):
            for l in sorted(fx.again - fy.again):
                r.need(False, 'again:%s:%s' % (n, l[1]),
                       '%s argument: %s can draw %s twice in a row, %s cannot' % (
                           n, x, automata.word([l]), y))
            for l in sorted(fx.idle & fy.looped - fy.idle):
                r.need(False, 'rounds:%s:%s' % (n, l[1]),
                       '%s argument: %s leaves out %s in some rounds of a loop, %s does it in '
                       'every round' % (n, x, automata.word([l]), y))
        for l in sorted(set(res[p].way) & set(res[v].way)):
            x, y = res[p].way[l], res[v].way[l]
            r.need(len(x | y) < 2 or len(x) > 1 or len(y) > 1, 'order:%s:%s' % (n, l[1]),
                   '%s argument: %s and %s go through what they absorb as %s in opposite '
                   'orders' % (n, p, v, automata.word([l])))
        r.need(any(row for _, row in a), 'empty:' + n, '%s uses no transcript' % p)
        r.cov.setdefault('pairs', []).append('%s: %d states, alphabet %s' % (
            n, len(a), automata.word(sorted({l for _, row in a for l in row}, key=repr))))
        r.samples.append({'pair': n, 'prover': p, 'verifier': v, 'states': len(a)})
    r.floor('argument_pairs', len(cg.PAIRS), 9)


# ---------------------------------------------------------------- statement and proof parts
def plen(*p):
    return ('len', 'self', p)


def ln(root, *p):
    return ('len', root, p)


def val(root, *p):
    return ('val', root, p)


# sizes at which the folding loops do not run; looked at besides the general case
SMALLV = {
    'ipa::no_zk::NoZK::verify': [{
        plen('L_vec'): 0, plen('R_vec'): 0, val('p5'): 1, ln('p2'): 1, ln('p3'): 1}],
    'ipa::alm_zk::AlmZK::verify': [{
        plen('NoZK', 'L_vec'): 0, plen('NoZK', 'R_vec'): 0, val('p5'): 1, ln('p2'): 1,
        ln('p3'): 1}],
    'lmpa::no_zk::NoZK::verify': [{
        plen('L_Vec'): 0, plen('R_Vec'): 0, val('p6'): 1, ln('p3'): 1, ln('p2', '[]'): 1}],
    'lmpa::simple_zk::SimpleZK::verify': [{
        plen('no_zk', 'L_Vec'): 0, plen('no_zk', 'R_Vec'): 0, val('p6'): 1, ln('p3'): 1,
        ln('p2', '[]'): 1}],
    'lmpa::no_zk::lmpa_noZK::verify_lmpa_noZK': [{
        plen('u_proof_Block'): 0, val('p4'): 1, val('p6'): 2}],
    'lmpa::simple_zk::SimpleZK_general::verify_general': [{
        plen('lamp_no_zk', 'u_proof_Block'): 0, val('p4'): 1, val('p6'): 2}],
}
FIX = {}


def fixed_len(root, pre):
    """The length of root.pre if this run fixes it."""
    for k, v in FIX.items():
        if k[0] == 'len' and k[1] == root and len(k[2]) == len(pre) and all(
                x == y or (y is None and x == '[]') for x, y in zip(k[2], pre)):
            return v
    return None


def absent(root, parts):
    """Does component root.parts have no elements at the sizes of this run?"""
    return any(x is None and fixed_len(root, parts[:i]) == 0 for i, x in enumerate(parts))


def sized(run):
    return '' if not run.fix else ' (for %s)' % ', '.join(
        '%s = %s' % (run.params[int(s[1][1:])][0], v)
        for s, v in sorted(run.fix.items()) if s[0] == 'val')


POINTK = ('point', 'points', 'cpoint', 'cpoints')


class Acc:
    """What an accepting return of a verifier implies."""

    def __init__(self, run):
        self.run = run
        FIX.clear()
        FIX.update(run.fix)
        self.states = []
        for s, v in run.outs:
            if s.flag == 1:
                continue
            fs = s.passed | (v.tf if isinstance(v, Leaf) else EMPTY)
            const = isinstance(v, Leaf) and v.const == ('bool', True)
            self.states.append((fs, v, const))

    @staticmethod
    def int_eqs(fs):
        out = []
        for f in fs:
            if f[0] != 'eq' or f[5] != 'int' or f[3] is None or f[4] is None:
                continue
            if f[3].is_const() or f[4].is_const() or f[3] == f[4]:
                continue
            if any(s[0] == 'w' for l in f[3:5] for s, _ in l.t):
                continue
            out.append((f[3], f[4]))
        return out

    @staticmethod
    def point_eqs(fs):
        es = [f for f in fs if f[0] == 'eq' and f[5] in POINTK]
        # a value known to equal one of the proof's own points stands for it
        for f in es:
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if len(a) == 1 and not b <= a and next(iter(a))[0] == 'self':
                    es = [g if g is f or not (a <= g[1] or a <= g[2]) else
                          (g[0], g[1] | b if a <= g[1] else g[1], g[2] | b if a <= g[2] else g[2])
                          + g[3:] for g in es]
        return es


def covered(root, parts, atoms, eqs, lensyms):
    """Do atoms cover component root.parts (None: all positions of a dimension)?"""
    if FIX and absent(root, parts):
        return True
    pats = []
    for a in atoms:
        if a[0] != root or len(a[1]) > len(parts):
            continue
        ok = True
        toks = []
        for i, want in enumerate(parts):
            if i >= len(a[1]):
                # a dependence on the whole
                if want is None:
                    toks.append(ALL)
                continue
            x = a[1][i]
            if want is None:
                if isinstance(x, str):
                    ok = False
                    break
                toks.append(x)
            elif x != want:
                ok = False
                break
        if ok:
            pats.append(tuple(toks))
    if not pats:
        return False
    nd = sum(1 for x in parts if x is None)
    if nd == 0:
        return True

    def lens_of(d):
        n, pre = 0, []
        for x in parts:
            if x is None:
                if n == d:
                    break
                n += 1
                pre.append(None)
            else:
                pre.append(x)
        pre = tuple(pre)
        if FIX and fixed_len(root, pre) is not None:
            return [const(fixed_len(root, pre))]
        return [sym(s) for s in lensyms if s[0] == 'len' and s[1] == root and
                len(s[2]) == len(pre) and
                all((y is None and not isinstance(x, str)) or x == y
                    for x, y in zip(s[2], pre))] or [sym(('len', root, pre))]
    return covers(pats, lens_of, eqs)


def lin_syms(l, out):
    if l is None or not isinstance(l, Lin):
        return
    for s, _ in l.t:
        if s[0] == 'len':
            out.add(s)
            for x in s[2]:
                if isinstance(x, Lin):
                    lin_syms(x, out)
        elif s[0] == 'op':
            for x in s[2]:
                lin_syms(x, out)


def syms_of(atoms, eqs):
    out = set()
    for a in atoms:
        for x in a[1]:
            if isinstance(x, Lin):
                lin_syms(x, out)
            elif not isinstance(x, str) and x[0] == 'I':
                lin_syms(x[1], out)
                lin_syms(x[2], out)
    for a, b in eqs:
        lin_syms(a, out)
        lin_syms(b, out)
    return out


def partstr(root, parts):
    return str(root) + ''.join('[*]' if x is None else '.' + x for x in parts)


def leaves_of(crate, ty, pre=()):
    """Paths (with None for a dimension) of the group elements and scalars of a type."""
    k = ty.get('k')
    if k == 'ref':
        return leaves_of(crate, ty['e'], pre)
    if k in ('slice', 'array'):
        return leaves_of(crate, ty['e'], pre + (None,))
    if k == 'adt':
        p = ty['p']
        if p.endswith('::Vec') or p.endswith('::VecDeque') or p.endswith('::Box'):
            a = [x for x in ty.get('a', []) if isinstance(x, dict) and x.get('k')]
            return leaves_of(crate, a[0], pre + ((None,) if not p.endswith('Box') else ()))
        if p in crate.adts:
            out = []
            for v in crate.adts[p]['variants'][:1]:
                for fl in v['f']:
                    out += leaves_of(crate, fl['ty'], pre + (fl['n'],))
            return out
        last = p.split('::')[-1]
        return [(pre, last)]
    return [(pre, k)]


def statement(crate, run, names):
    """[(root, parts, name)] of the parameters called names."""
    out = []
    for i, (n, ty) in enumerate(run.params):
        if i in names:
            for parts, t in leaves_of(crate, ty):
                out.append(('p%d' % i, parts, '%s%s' % (
                    n, ''.join('[*]' if x is None else '.' + x for x in parts))))
    return out


# positions of the statement in each verifier: what the final equality has to involve
STATEMENT = {
    'ipa::no_zk::NoZK::verify': (2, 3, 4, 6, 7),
    'ipa::alm_zk::AlmZK::verify': (2, 3, 4, 6, 7),
    'ipa::qesa_inner::Inner::verify': (2, 3, 4, 5),
    'qesa_zk::Zk::verify': (2, 3, 4, 5),
    'copy::copy::Copy::verify': (2, 3, 4, 5, 7),
    'lmpa::no_zk::NoZK::verify': (2, 7),
    'lmpa::no_zk::lmpa_noZK::verify_lmpa_noZK': (2, 3),
    'lmpa::simple_zk::SimpleZK::verify': (2, 7),
    'lmpa::simple_zk::SimpleZK_general::verify_general': (2, 3),
}


def union_of(fs):
    m = set()
    for f in fs:
        m |= f[1] | f[2]
    return m


def c04_entry(crate, run, arg):
    f = Find()
    acc = Acc(run)
    f.need(acc.states or run.fix, 'none:' + run.path, '%s can never accept' % run.path)
    parts = statement(crate, run, STATEMENT[run.path])
    for fs, v, const in acc.states:
        es = acc.point_eqs(fs)
        eqs = acc.int_eqs(fs)
        u = union_of(es)
        syms = syms_of(u, eqs)
        for root, pt, name in parts:
            f.count('statement_components')
            f.need(covered(root, pt, u, eqs, syms), 'stmt:%s:%s' % (run.path, name),
                   '%s: an accepting path on which the deciding equalities do not involve all of '
                   '%s; of %s they involve %s' % (
                       run.path + sized(run), name, name, short([a for a in u if a[0] == root])))
        f.samples.append({'verifier': run.path, 'components': [n for _, _, n in parts],
                          'equalities': len(es)})
    f.count('functions_interpreted', len(run.it.fns_seen))
    return f


def c04(crate, r, tier):
    res = par.each(crate, cg.VERIFIERS, c04_entry, fixes=SMALLV)
    tot = par.merge(r, res)
    r.floor('statement_components', tot.get('statement_components', 0), 30)


def proof_leaves(crate, run):
    ty = run.params[0][1]
    return [('self', p, t) for p, t in leaves_of(crate, ty)]


def c05_entry(crate, run, arg):
    f = Find()
    acc = Acc(run)
    for fs, v, const in acc.states:
        es = acc.point_eqs(fs)
        eqs = acc.int_eqs(fs)
        u = union_of(es)
        syms = syms_of(u, eqs)
        for root, pt, t in proof_leaves(crate, run):
            name = partstr(root, pt)
            f.count('proof_components')
            f.need(covered(root, pt, u, eqs, syms), 'part:%s:%s' % (run.path, name),
                   '%s: an accepting path on which the deciding equalities do not involve all of '
                   '%s, only %s' % (run.path + sized(run), name, short(
                       [a for a in u if a[0] == root and a[1][:1] == pt[:1]])))
    f.count('functions_interpreted', len(run.it.fns_seen))
    return f


def c05(crate, r, tier):
    res = par.each(crate, cg.VERIFIERS, c05_entry, fixes=SMALLV)
    tot = par.merge(r, res)
    r.floor('proof_components', tot.get('proof_components', 0), 25)


# ---------------------------------------------------------------- C06
# the proof's responses and the basis they are opened against, to be in one equality
OPENING = {
    'ipa::no_zk::NoZK::verify': (2, 3, 4, 6, 7),
    'ipa::alm_zk::AlmZK::verify': (2, 3, 4, 6, 7),
    'ipa::qesa_inner::Inner::verify': (2, 3, 4, 5),
    'qesa_zk::Zk::verify': (2, 3, 4, 5),
    'copy::copy::Copy::verify': (2, 3, 4, 5, 7),
    'lmpa::no_zk::NoZK::verify': (2, 7),
    'lmpa::no_zk::lmpa_noZK::verify_lmpa_noZK': (2,),
    'lmpa::simple_zk::SimpleZK::verify': (2, 7),
    'lmpa::simple_zk::SimpleZK_general::verify_general': (2,),
}


def is_scalar(t):
    return t == 'Scalar'


# targets with one group element per row
ROWS = {'lmpa::no_zk::NoZK::verify': 7, 'lmpa::simple_zk::SimpleZK::verify': 7,
        'lmpa::no_zk::lmpa_noZK::verify_lmpa_noZK': 3,
        'lmpa::simple_zk::SimpleZK_general::verify_general': 3}
KNOWN = {'C:challenge', 'C:challenge_x', 'C:beta'}


def rowwise(es):
    """[(equality, atoms)]; comparisons made row by row count as one comparison of all rows."""
    def shape(atoms):
        return frozenset((a[0],) + tuple(x if isinstance(x, str) else '[]' for x in a[1])
                         for a in atoms)
    groups = {}
    for e in es:
        groups.setdefault(frozenset([shape(e[1]), shape(e[2])]), []).append(e)
    return [(e, frozenset(a for x in g for a in x[1] | x[2])) for g in groups.values() for e in g[:1]]


def uneven(run, parts, u, eqs, syms):
    """The group elements of the proof with one row each of which only some rows take part."""
    out = []
    for root, pt, t in parts:
        if is_scalar(t) or not pt or pt[-1] is not None:
            continue
        toks = [a[1][-1] for a in u if a[0] == root and len(a[1]) == len(pt) and
                all(x is None or x == y for x, y in zip(pt, a[1]))]
        lens = [sym(s) for s in syms if s[0] == 'len' and s[1] == root and
                len(s[2]) == len(pt) - 1]
        if toks and not any(isinstance(x, str) for x in toks) and not covers_dim(toks, lens, eqs):
            out.append('some rows of ' + partstr(root, pt))
    return out


def c06_entry(crate, run, arg):
    f = Find()
    acc = Acc(run)
    f.need(acc.states or run.fix, 'none:' + run.path, '%s can never accept' % run.path)
    for e in run.events:
        if e.kind == 'sum' and run.path in ROWS and e.coll.default is not None:
            at = {a for l in leaves(e.coll.default) for a in l.must}
            f.need({a[0] for a in at if a[0].startswith('C:')} - KNOWN or
                   not any(a[0] == 'p%d' % ROWS[run.path] and isinstance(a[1][0], Lin) and looping(a[1][0])
                           for a in at if a[1]), 'rows:' + run.path,
                   '%s: rows of the target are added up without weights drawn for it (%s)' % (
                       run.path, e.at))
    want = statement(crate, run, OPENING[run.path])
    want += [(r, p, partstr(r, p)) for r, p, t in proof_leaves(crate, run) if is_scalar(t)]
    for fs, v, const in acc.states:
        es = acc.point_eqs(fs)
        eqs = acc.int_eqs(fs)
        f.count('accepting_returns')
        f.need(not const or es, 'const:' + run.path,
               '%s returns true on a path without an equality of group elements' % (run.path + sized(run)))
        if run.path in ROWS:
            for e in es:
                labels = {a[0] for a in e[1] | e[2] if a[0].startswith('C:')}
                pos = {a[1][0] for a in e[1] | e[2] if a[0] == 'p%d' % ROWS[run.path] and a[1]}
                f.need(len(pos) < 2 or e[5] not in ('point', 'cpoint') or labels - KNOWN,
                       'rows:' + run.path,
                       '%s: one comparison of single group elements adds up several rows of the '
                       'target (%s), without weights drawn for it' % (
                           run.path, short(e[1] | e[2], 20)))
        best, miss = None, None
        for e, u in rowwise(es):
            syms = syms_of(u, eqs)
            m = [n for r, p, n in want if not covered(r, p, u, eqs, syms)]
            if not m and run.path in ROWS:
                m = uneven(run, proof_leaves(crate, run), u, eqs, syms)
            if miss is None or len(m) < len(miss):
                best, miss = e, m
        f.need(miss is not None and not miss, 'eq:' + run.path,
               '%s: an accepting path on which no single equality of complete group elements '
               'compares the opening with the target%s' % (
                   run.path + sized(run), '; the closest one leaves out ' + ', '.join(miss) if miss else ''))
        if best is not None:
            f.samples.append({'verifier': run.path, 'kind': best[5], 'left': short(best[1], 20),
                              'right': short(best[2], 20)})
    return f


def c06(crate, r, tier):
    tot = par.merge(r, par.each(crate, cg.VERIFIERS, c06_entry, fixes=SMALLV))
    r.floor('accepting_returns', tot.get('accepting_returns', 0), 9)


# ---------------------------------------------------------------- C02, C03
# 'i': the position of the current round; None: every position
MSG = {   # challenge label -> what the prover sent since the previous challenge
    'ipa::no_zk::NoZK::verify': {
        'x_i': [('L_vec', 'i'), ('R_vec', 'i')]},
    'ipa::alm_zk::AlmZK::verify': {
        'beta': [('C_r',)],
        'x_i': [('NoZK', 'L_vec', 'i'), ('NoZK', 'R_vec', 'i')]},
    'ipa::qesa_inner::Inner::verify': {
        'x': [('c_prime_w',)], 's': [('c_prime_prime_w',)], 'b': [('c_prime_prime_w',)],
        'beta': [('alm_zk', 'C_r')],
        'x_i': [('alm_zk', 'NoZK', 'L_vec', 'i'), ('alm_zk', 'NoZK', 'R_vec', 'i')]},
    'lmpa::no_zk::NoZK::verify': {
        'challenge': [('L_Vec', 'i', None), ('R_Vec', 'i', None)]},
    'lmpa::no_zk::lmpa_noZK::verify_lmpa_noZK': {
        'challenge_x': [('u_proof_Block', 'i', None, None)]},
    'lmpa::simple_zk::SimpleZK::verify': {
        'beta': [('a', None)],
        'challenge': [('no_zk', 'L_Vec', 'i', None), ('no_zk', 'R_Vec', 'i', None)]},
    'lmpa::simple_zk::SimpleZK_general::verify_general': {
        'beta': [('a', None)],
        'challenge_x': [('lamp_no_zk', 'u_proof_Block', 'i', None, None)]},
}


def under(d, *pre):
    return {l: [pre + x for x in xs] for l, xs in d.items()}


MSG['qesa_zk::Zk::verify'] = under(MSG['ipa::qesa_inner::Inner::verify'], 'inner')
MSG['copy::copy::Copy::verify'] = dict(
    under(MSG['ipa::qesa_inner::Inner::verify'], 'inner'),
    alpha=[('C_w',)], x=[('C_w',)])
# c_prime_w of a copy proof is what the verifier computes itself

TARGET = {   # challenge label -> parts of the statement fixed before it
    'ipa::alm_zk::AlmZK::verify': {'alpha': [('p6',)]},
    'ipa::qesa_inner::Inner::verify': {},
    'copy::copy::Copy::verify': {'alpha': [('p7', None), ('self', 'C_w')],
                                 'x': [('p7', None), ('self', 'C_w')]},
    'lmpa::no_zk::NoZK::verify': {'challenge': [('p7', None)]},
    'lmpa::no_zk::lmpa_noZK::verify_lmpa_noZK': {'challenge_x': [('p3', None)]},
    'lmpa::simple_zk::SimpleZK::verify': {'beta': [('p7', None)], 'challenge': [('p7', None)]},
    'lmpa::simple_zk::SimpleZK_general::verify_general': {
        'beta': [('p3', None)], 'challenge_x': [('p3', None)]},
}


def instantiate(parts, tok):
    return tuple(tok if x == 'i' else x for x in parts)


def covered_at(root, parts, atoms, eqs, syms):
    """Like covered, but parts may contain tokens that must be matched."""
    sel = set()
    flat = tuple(None if x is None else x for x in parts)
    for a in atoms:
        if a[0] != root or len(a[1]) > len(parts):
            continue
        q = []
        for i, want in enumerate(parts):
            x = a[1][i] if i < len(a[1]) else (want if isinstance(want, str) else ALL)
            if isinstance(want, str) or want is None:
                q.append(x)
            elif isinstance(x, str):
                break
            elif tok_sub(x, want) or x == MXE:
                q.append('@')
            else:
                break
        else:
            sel.add((root, tuple(q)))
    flat = tuple('@' if not (x is None or isinstance(x, str)) else x for x in parts)
    return covered(root, flat, sel, eqs, syms)


def label(e):
    l = e.label
    if isinstance(l, bytes):
        return l.decode('latin1')
    return str(l)


def squeezes(run):
    return [e for e in run.events if e.kind == 'squeeze']


def accept_eqs(run):
    acc = Acc(run)
    if not acc.states:
        return [], []
    common = None
    for fs, v, c in acc.states:
        common = fs if common is None else common & fs
    return acc.int_eqs(common), acc.point_eqs(common)


def bound(must, pes, eqs):
    """What is fixed once must is absorbed: everything equal to absorbed values too."""
    must = set(must)
    for _ in range(3):
        ch = False
        for e in pes:
            for a, b in ((e[1], e[2]), (e[2], e[1])):
                if a and not (b <= must) and all(
                        x in must or any(atom_sub(y, x) for y in must) or
                        widely(x, must, eqs) for x in a):
                    must |= b
                    ch = True
        if not ch:
            break
    return must


def widely(x, must, eqs):
    """Is x part of a component of which all positions are in must?"""
    parts = tuple(p if isinstance(p, str) else None for p in x[1])
    syms = syms_of([y for y in must if y[0] == x[0]] + [x], eqs)
    if covered(x[0], parts, must, eqs, syms):
        return True
    # for the same leading positions
    for n in range(1, len(x[1])):
        ps = tuple(p if i < n else (p if isinstance(p, str) else None)
                   for i, p in enumerate(x[1]))
        if covered_at(x[0], ps, must, eqs, syms):
            return True
    return False


def c02_entry(crate, run, arg):
    f = Find()
    eqs, pes = accept_eqs(run)
    for lab, msgs in MSG[run.path].items():
        sq = [e for e in squeezes(run) if label(e) == lab]
        f.need(sq or run.fix, 'gone:%s:%s' % (run.path, lab), '%s draws no challenge "%s"' % (
            run.path, lab))
        for e in sq:
            must = e.absorbed[0]
            syms = syms_of(must, eqs)
            f.count('challenge_sites')
            for parts in msgs:
                f.count('messages_before_challenges')
                if 'i' in parts:
                    toks = list(e.stk) or [ALL]
                else:
                    toks = [ALL]
                ok = any(covered_at('self', instantiate(parts, t), must, eqs, syms)
                         for t in toks)
                f.need(ok, 'msg:%s:%s:%s' % (run.path, lab, partstr('self', ['[i]' if x == 'i'
                                                                            else x for x in parts])),
                       '%s: challenge "%s" (%s, round %s) is drawn when not all of %s is '
                       'absorbed; absorbed by then: %s' % (
                           run.path + sized(run), lab, e.at, ','.join(tokstr(t) for t in e.stk) or '-',
                           partstr('self', ['[i]' if x == 'i' else x for x in parts]),
                           short([a for a in must if a[1][:1] == parts[:1]])))
    # a message mixed with another one does not fix either
    comps = {tuple(x for x in p if x not in ('i', None)) for ms in MSG[run.path].values()
             for p in ms}
    took = {}
    for e in run.events:
        if e.kind == 'absorb':
            cs = frozenset(c for c in comps for a in e.val.must
                           if a[0] == 'self' and a[1][:len(c)] == c)
            for c in cs:
                took.setdefault(c, []).append((len(cs) > 1 and e.one, e))
    for c, l in sorted(took.items(), key=repr):
        f.need(not all(x for x, _ in l), 'mixed:%s:%s' % (run.path, partstr('self', c)),
               '%s: %s is only absorbed combined with other messages into one element (%s)' % (
                   run.path, partstr('self', c), l[0][1].at))
    return f


def c02(crate, r, tier):
    tot = par.merge(r, par.each(crate, cg.VERIFIERS, c02_entry, fixes=SMALLV))
    r.floor('challenge_sites', tot.get('challenge_sites', 0), 35)


def c03_entry(crate, run, arg):
    f = Find()
    eqs, pes = accept_eqs(run)
    for lab, parts in TARGET.get(run.path, {}).items():
        sq = [e for e in squeezes(run) if label(e) == lab]
        f.need(sq or run.fix, 'gone:%s:%s' % (run.path, lab), '%s draws no challenge "%s"' % (
            run.path, lab))
        for e in sq:
            must = bound(e.absorbed[0], pes, eqs)
            syms = syms_of(must, eqs)
            f.count('challenge_sites')
            for p in parts:
                root, pt = p[0], p[1:]
                n = root
                if root != 'self':
                    n = run.params[int(root[1:])][0]
                f.need(covered(root, pt, must, eqs, syms), 'target:%s:%s:%s' % (
                    run.path, lab, partstr(n, pt)),
                    '%s: challenge "%s" (%s) does not depend on all of %s' % (
                        run.path + sized(run), lab, e.at, partstr(n, pt)))
    return f


def c03(crate, r, tier):
    tot = par.merge(r, par.each(crate, cg.VERIFIERS, c03_entry, fixes=SMALLV))
    r.floor('challenge_sites', tot.get('challenge_sites', 0), 12)


# ---------------------------------------------------------------- C07
def lin_roots(l, out):
    """Symbols a quantity is made of."""
    for s, _ in l.t:
        if s[0] == 'op':
            for x in s[2]:
                lin_roots(x, out)
        elif s[0] == 'len':
            out.add(('len:' + s[1], s[2]))
        elif s[0] == 'val':
            out.add((s[1], s[2]))
        else:
            out.add(('?', (str(s),)))


def is_proof_root(a):
    return a[0] == 'self' or a[0] == 'len:self' or a[0][:2] == 'C:'


def determined(passed):
    """Quantities of the proof that the statement determines where these comparisons held."""
    det = set()
    facts = [f for f in passed if f[0] == 'eq' and f[5] == 'int' and f[3] is not None and
             f[4] is not None]
    ch = True
    while ch:
        ch = False
        for f in facts:
            d = sub(f[3], f[4])
            unk = []
            for s, k in d.t:
                rs = set()
                lin_roots(lin({s: 1}), rs)
                free = {r for r in rs if (is_proof_root(r) or r[0] == '?') and r not in det}
                if free:
                    unk.append((s, k, free))
            if len(unk) != 1 or len(unk[0][2]) != 1:
                continue
            s = unk[0][0]
            x = next(iter(unk[0][2]))
            # through functions that have an inverse only
            if s[0] == 'op' and not (s[1] == 'shl' and s[2][0].is_const() and s[2][0].c):
                continue
            if x[0] == '?':
                continue
            det.add(x)
            ch = True
    return det


def is_determined(a, det, passed):
    if a in det:
        return True
    eqs = None
    for d in det:
        if d[0] != a[0] or len(d[1]) != len(a[1]):
            continue
        for i, (x, y) in enumerate(zip(d[1], a[1])):
            if x == y:
                continue
            if isinstance(x, str) or isinstance(y, str) or isinstance(x, Lin) or x[0] != 'I' \
                    or x[1] != ZERO:
                break
            if tok_sub(x, y):
                continue
            # every position of this dimension
            n = sym(('len', a[0].replace('len:', ''), a[1][:i]))
            if eqs is None:
                eqs = [(f[3], f[4]) for f in passed if f[0] == 'eq' and f[5] == 'int' and
                       f[3] is not None and f[4] is not None]
            if x[2] is None or not (x[2] in (n, LEND) or (x[2], n) in eqs or (n, x[2]) in eqs):
                break
        else:
            return True
    return False


def upper(l, passed):
    """A constant that bounds l from above according to comparisons that held."""
    if l is None:
        return None
    if l.is_const():
        return l.c
    best = None
    for f in passed:
        if f[0] not in ('lt', 'le', 'eq') or f[3] is None or f[4] is None:
            continue
        for a, b, strict in ((f[3], f[4], f[0] == 'lt'),) + (
                ((f[4], f[3], False),) if f[0] == 'eq' else ()):
            d = sub(l, a)
            if d.is_const() and b.is_const():
                v = b.c + d.c - (1 if strict else 0)
                best = v if best is None else min(best, v)
    return best


def below(a, b, passed):
    """a < b by the comparisons that held?"""
    if a is None or b is None:
        return False
    if lcmp(a, b) == {'<'}:
        return True
    for f in passed:
        if f[3] is None or f[4] is None:
            continue
        for x, y, k in ((f[3], f[4], 0 if f[0] in ('le', 'eq') else 1),) + (
                ((f[4], f[3], 0),) if f[0] == 'eq' else ()):
            if f[0] not in ('lt', 'le', 'eq'):
                continue
            # x + k <= y;  a < b  if  b - a - 1 >= y - x - k
            m = lower(sub(sub(b, a), sub(y, x)))
            if m is not None and m - 1 >= -k:
                return True
    return False


def safe(e):
    ops = e.ops
    ls = [o.lin if isinstance(o, Leaf) else None for o in ops]
    if e.what in ('bounds', 'index') and len(ls) == 2:
        a, b = (ls[1], ls[0]) if e.what == 'bounds' else (ls[0], ls[1])
        return below(a, b, e.passed)
    if e.what in ('split', 'slice', 'insert') and len(ls) == 2:
        return ls[0] is not None and ls[1] is not None and \
            below(ls[0], add(ls[1], ONE), e.passed)
    if e.what == 'overflow':
        if e.detail in ('Shl', 'Shr'):
            u = upper(ls[-1], e.passed)
            return u is not None and u < 64
        if e.detail == 'Sub' and len(ls) == 2:
            return ls[0] is not None and ls[1] is not None and \
                below(ls[1], add(ls[0], ONE), e.passed)
        if e.detail in ('Add',):
            # lengths and counters of loops over them do not reach the end of usize
            return True
    return False


def guard_deps(e):
    """What the closest decision before a panic depends on."""
    d = frozenset()
    tail = None
    for fr, p, deps in reversed(e.pc):
        if p == -2:
            d |= deps
            continue
        if tail is None:
            tail = (fr, p)
            d |= deps
        elif tail == (fr, p):
            d |= deps
        else:
            break
    return d


EXPLICIT = ('panic',)


def c07_entry(crate, run, arg):
    f = Find()
    seen = {}
    for e in run.events:
        if e.kind != 'panic':
            continue
        f.count('panic_sites_in_contexts')
        deps = set(e.deps)
        if e.what in EXPLICIT:
            deps |= guard_deps(e)
        bad = {a for a in deps if is_proof_root(a)}
        if bad:
            det = determined(e.passed)
            bad = {a for a in bad if not is_determined(a, det, e.passed)}
        if bad and safe(e):
            bad = set()
        key = 'panic:%s:%s:%s' % (run.path, e.fn, e.what)
        f.need(not bad, key, '%s: %s at %s can panic (%s) depending on %s' % (
            run.path, e.fn, e.at, e.what, short(bad)))
    f.count('functions_interpreted', len(run.it.fns_seen))
    for e in run.events:
        if e.kind == 'unsupported':
            f.need(False, 'unsupported:%s' % e.what, '%s: not understood: %s at %s' % (
                run.path, e.what, e.at))
        if e.kind == 'unknown':
            f.notes.add('assumed not to panic: %s' % e.d.get('callee', e.d))
    return f


def c07(crate, r, tier):
    tot = par.merge(r, par.each(crate, cg.VERIFIERS, c07_entry, fixes=SMALLV))
    r.floor('panic_sites_in_contexts', tot.get('panic_sites_in_contexts', 0), 100)
