"""Positions of messages in the witness (C15) and what the mapping records about them (C21)."""
from .dom import *
from .vals import must_of, may_of, leaves
from . import par
from .algebra import unsupported
from .props import covered, short, syms_of, Acc
from .par import Find

ENTRY = 'copy::mapping::compute_mapping'
SETS = 'p2'
VN, VW = sym(('val', 'p0', ())), sym(('val', 'p1', ()))
INPUTS = {('val', 'p0', ()), ('val', 'p1', ()), ('len', SETS, ())}


# ---------------------------------------------------------------- inequalities
def le(a, b, facts, depth=5, seen=()):
    """Is a <= b known?"""
    if a is None or b is None:
        return False
    if '>' not in lcmp(a, b):
        return True
    if not depth or a in seen:
        return False
    for x, y in facts:
        d = sub(a, x)
        if d.is_const() and le(add(y, d), b, facts, depth - 1, seen + (a,)):
            return True
        # lower bounds of what is subtracted
        d = sub(y, b)
        if d.is_const() and a != x and le(a, sub(x, d), facts, 0, ()):
            return True
    return False


def ineqs(fs):
    """[(x, y)] with x <= y known"""
    out = []
    for f in fs:
        if f[5] != 'int' or f[3] is None or f[4] is None:
            continue
        if f[0] == 'le':
            out.append((f[3], f[4]))
        elif f[0] == 'lt':
            out.append((add(f[3], ONE), f[4]))
        elif f[0] == 'eq':
            out += [(f[3], f[4]), (f[4], f[3])]
    return out


def deep(l):
    """All symbols in l, with their nesting."""
    for s, _ in l.t:
        yield s
        if s[0] == 'op':
            for x in s[2]:
                yield from deep(x)


def loopvars(l):
    return [(s, k) for s, k in l.t if s[0] in ('v', 'w')]


def loopkey(s):
    k = s[1]
    while isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], tuple):
        k = k[1]
    return k


def kept(l):
    """(key, position) if l is the position-th element that went through a filter."""
    if l is None or len(l.t) != 1 or l.t[0][1] != 1:
        return None
    s = l.t[0][0]
    if s[0] == 'op' and s[1].startswith('kept:'):
        return s[1][5:], s[2][0], l.c
    return None


def elements(atoms):
    return any(a[0] == SETS and len(a[1]) == 2 for a in atoms)


class Positions:
    def __init__(self, f, run):
        self.f, self.run = f, run
        self.rets = [s.passed for s, v in run.outs if s.flag != 1]
        self.common = frozenset.intersection(*self.rets) if self.rets else frozenset()
        self.loops = {e.key: e for e in run.events if e.kind == 'loop'}

    def bad(self, key, text):
        self.f.need(False, key, '%s: %s' % (self.run.path, text))

    def all_in(self, fs, x):
        """Do facts fs say that x is no commitment index?  (known, involved)"""
        u = set()
        for g in fs:
            if g[0] == 'notin' and g[3] == x:
                u |= g[2]
        eqs = []
        return covered(SETS, (None, None), u, eqs, syms_of(u, eqs)), bool(u)

    def bounds(self, x, n, facts, at):
        """x runs over position + i for i < n: between the witness and the reserved slots?"""
        f = self.f
        vs = loopvars(x)
        f.count('ranges')
        if len(vs) > 1 or any(
                s[0] not in ('v', 'w', 'val', 'len') and s[:2] not in (('op', 'max'), ('op', 'min'), ('op', 'ssub'))
                for s, _ in x.t):
            f.count('not_decided')
            return
        if vs and vs[0][1] != 1:
            if vs[0][1] < 0:
                self.bad('order', 'positions are assigned in decreasing order at ' + at)
            else:
                f.count('not_decided')
            return
        lo = sub(x, sym(vs[0][0])) if vs else x
        fs = ineqs(facts | self.common)
        f.need(le(VW, lo, fs), 'low', '%s: the positions at %s start at %r, which is not known to '
               'be at or after the end of the witness' % (self.run.path, at, lo))
        if n is None:
            if not vs or not le(x, sub(VN, const(3)), fs):
                f.count('not_decided')
            return
        hi = add(lo, add(n, const(-1)))
        f.need(le(hi, sub(VN, const(3)), fs), 'high',
               '%s: the positions at %s go up to %r, which is not known to be before the two '
               'slots for randomness (%r)' % (self.run.path, at, hi, sub(VN, const(2))))


def c15_entry(crate, run, arg):
    f = Find()
    p = Positions(f, run)
    if not p.rets:
        f.need(False, 'none', '%s never returns' % run.path)
        return f
    f.count('returns', len(p.rets))
    # the reserved slot
    opaque = any(e.kind == 'branch' and all(g[3] is None for g in e.tf | e.ff) and
                 elements(e.deps) and
                 e.fn.startswith(ENTRY) for e in run.events)
    for fs in p.rets:
        u = set()
        for g in fs:
            for a, b, x, y in ((g[1], g[2], g[3], g[4]), (g[2], g[1], g[4], g[3])):
                if g[0] == 'notin' and x == ZERO and (a, b) == (g[1], g[2]):
                    u |= b
                elif g[0] in ('ne', 'lt', 'le') and y is not None and \
                        any(s[0] == 'val' and (s[1] == SETS or s[1].startswith('set@'))
                            for s, _ in y.t) and (
                            g[0] == 'ne' and x == ZERO or g[0] == 'lt' and x == ZERO and
                            (a, b) == (g[1], g[2]) or
                            g[0] == 'le' and x == ONE and (a, b) == (g[1], g[2])):
                    u |= b
        eqs = Acc.int_eqs(fs)
        full = covered(SETS, (None, None), u, eqs, syms_of(u, eqs))
        if not full and opaque:
            f.count('not_decided')
            continue
        f.need(full, 'slot',
               '%s: returns a mapping without refusing a commitment to slot 0 in every set%s' % (
                   run.path, ', only in ' + short(u) if u else ''))
    # sizes that fit
    for e in run.events:
        if e.kind == 'cast' and e.fn.startswith(ENTRY):
            x = e.val.lin
            if x is None:
                f.count('not_decided')
                continue
            f.count('narrowings')
            top = const((1 << e.bits) - 1)
            if le(x, top, ineqs(e.facts | p.common)):
                continue
            if all(s in INPUTS or s[0] == 'v' for s, _ in x.t):
                f.need(False, 'fit', '%s: %r is cut to %d bits at %s, and nothing refuses larger '
                       'values' % (run.path, x, e.bits, e.at))
            else:
                f.count('not_decided')
        elif e.kind == 'sub' and e.fn.startswith(ENTRY):
            f.count('subtractions')
            if le(e.b, e.a, ineqs(e.facts | p.common)):
                continue
            if all(s in INPUTS for l in (e.a, e.b) for s, _ in l.t):
                f.need(False, 'wrap', '%s: %r - %r wraps around at %s for small sizes, and nothing '
                       'refuses them' % (run.path, e.a, e.b, e.at))
            else:
                f.count('not_decided')
    # where positions come from
    filters = {}
    for e in run.events:
        if e.kind == 'filter':
            filters.setdefault(e.key, []).append(e)
    used = set()
    tests = []      # (position, length, facts that hold for the positions that are used)
    for e in run.events:
        if e.kind == 'branch' and e.fn.startswith(ENTRY):
            for g in e.tf | e.ff:
                if g[0] == 'notin' and g[3] is not None and not g[3].is_const():
                    tests.append((e, g))
    n_st = 0
    stores = [(e, e.val, e.path) for e in run.events
              if e.kind == 'store' and e.field == 'position_in_witness']
    builds = [(e, dict(e.vals)['position_in_witness'], None) for e in run.events
              if e.kind == 'build' and 'position_in_witness' in dict(e.vals)]
    if stores:
        builds = [b for b in builds if not (
            isinstance(b[1], Leaf) and b[1].lin is not None and b[1].lin.is_const())]
    for e, v, path in stores + builds:
        if not isinstance(v, Leaf):
            continue
        f.count('assignments')
        n_st += 1
        atoms = v.must | v.may
        k = kept(v.lin)
        if k:
            key, pos, c = k
            used.add(key)
            f.need(not c, 'shift', '%s: the position assigned at %s is not one that was checked '
                   'but %+d from it' % (run.path, e.at, c))
            t = None
            if path is not None:
                xs = [q[1].lin for q in path if q[0] == 'x']
                t = xs[-1] if xs else None
            else:
                x = dict(e.vals).get('msg_id')
                t = x.lin if isinstance(x, Leaf) else None
            if t is not None and not any(s[0] == 'w' for s, _ in t.t + pos.t):
                f.need(t == pos, 'order', '%s: message %r gets free position number %r at %s' % (
                    run.path, t, pos, e.at))
            elif any(s[0] == 'v' and c < 0 for s, c in pos.t):
                p.bad('order', 'positions are assigned in decreasing order at ' + e.at)
            else:
                f.count('not_decided')
            continue
        if v.lin is not None and v.lin.is_const():
            p.bad('constant', 'all messages get position %r at %s' % (v.lin, e.at))
            continue
        if not elements(atoms):
            p.bad('reserved', 'the positions assigned at %s do not depend on the commitment '
                  'indices, so they are not kept away from them' % e.at)
            continue
        f.count('not_decided')
    f.need(n_st, 'unassigned', '%s never assigns a position' % run.path)
    for key, es in filters.items():
        for e in es:
            x = e.item.lin if isinstance(e.item, Leaf) else None
            mine = x is not None and any(s in INPUTS for s, _ in x.t)
            if key not in used and not mine:
                continue
            f.count('filters')
            if not isinstance(e.pred, Leaf):
                continue
            if x is None:
                f.count('not_decided')
            else:
                full, some = p.all_in(e.pred.tf, x)
                if not full and elements(e.pred.must | e.pred.may) and not some and \
                        not any(g[0] in ('in', 'notin') for g in e.pred.tf | e.pred.ff):
                    f.count('not_decided')
                else:
                    f.need(full, 'reserved', '%s: the filter at %s does not keep exactly the '
                           'positions that are no commitment index%s' % (
                               run.path, e.at, ' of any set' if some else ''))
                p.bounds(x, e.n, frozenset(), e.at)
            if e.key in used:
                capacity(p, key, e.at)
    if not used:
        for e, g in tests:
            f.count('tests')
            vs = loopvars(g[3])
            lp = p.loops.get(vs[0][0][1]) if len(vs) == 1 else None
            p.bounds(g[3], lp.trip if lp is not None and isinstance(lp.trip, Lin) else None,
                     frozenset(), e.at)
            full, some = p.all_in([g], g[3])
            f.need(full, 'reserved', '%s: the test at %s does not look at the indices of all sets'
                   % (run.path, e.at))
        if not tests:
            f.count('not_decided')
    unsupported(f, run)
    return f


def capacity(p, key, at):
    """Are too many messages refused?"""
    u = ('u', key)
    p.f.count('capacities')
    for fs in p.rets:
        ok = False
        for g in fs:
            if g[0] not in ('eq', 'le', 'lt') or g[5] != 'int' or g[3] is None or g[4] is None:
                continue
            x, y = g[3], g[4]
            if not any(s == u for l in (x, y) for s in deep(l)) or x.is_const() or y.is_const():
                continue
            if x == y:
                continue
            vs = loopvars(x)
            if g[0] == 'lt' and vs:
                lp = p.loops.get(loopkey(vs[0][0]))
                if lp is not None and (lp.trip == y or lp.trip is None or len(vs) == 1 and any(
                        s == u for s in deep(lp.trip))):
                    continue      # how often a loop runs
            ok = True
        p.f.need(ok, 'capacity', '%s: nothing compares the number of messages with the number of '
                 'free positions found at %s' % (p.run.path, at))


def c15(crate, r, tier):
    tot = par.merge(r, par.each(crate, [ENTRY], c15_entry, watch=('-',)))
    r.floor('assignments', tot.get('assignments', 0), 1)


# ---------------------------------------------------------------- C21
def closed(run_loops, t):
    """Token t of an element met in a loop, over all iterations of the loop."""
    if not isinstance(t, Lin):
        return t
    vs = loopvars(t)
    if len(vs) != 1 or abs(vs[0][1]) != 1:
        return t if not vs else None
    lp = run_loops.get(loopkey(vs[0][0])) or run_loops.get(vs[0][0][1])
    if lp is None or not isinstance(lp.trip, Lin):
        return None
    first = getattr(lp, 'first', 0)
    base = sub(t, lin({vs[0][0]: vs[0][1]}))
    if vs[0][1] > 0:
        return ('I', add(base, const(first)), add(base, lp.trip))
    return ('I', add(sub(base, lp.trip), ONE), add(sub(base, const(first)), ONE))


def settrip(loops, s):
    lp = loops.get(loopkey(s)) or loops.get(s[1])
    return lp.trip if lp is not None and isinstance(lp.trip, Lin) else None


def c21_entry(crate, run, arg):
    f = Find()
    p = Positions(f, run)
    loops = p.loops
    nsets = sym(('len', SETS, ()))

    def writes(field):
        st = [(e, e.val, e.path) for e in run.events if e.kind == 'store' and e.field == field]
        bl = [(e, dict(e.vals)[field], None) for e in run.events
              if e.kind == 'build' and e.adt.endswith('::MessageMap') and field in dict(e.vals)]
        if st:
            bl = [b for b in bl if not (isinstance(b[1], Leaf) and b[1].lin is not None and
                                        b[1].lin.is_const())]
        return [(e, v, q) for e, v, q in st + bl if isinstance(v, Leaf)]

    # the index of the generator a message is committed with
    got, dec = set(), True
    ws = writes('commitment_index')
    f.count('assignments', len(ws))
    for e, v, q in ws:
        el = [a for a in v.must | v.may if a[0] == SETS and len(a[1]) == 2]
        if not el:
            if v.lin is not None:
                p.bad('index', 'the commitment index assigned at %s is %r, not an element of an '
                      'index set' % (e.at, v.lin))
            else:
                f.count('not_decided')
            continue
        if v.lin is not None:
            f.need(all(s[0] == 'val' or s[0] == 'w' for s, _ in v.lin.t) and not v.lin.c and
                   all(k == 1 for _, k in v.lin.t), 'index',
                   '%s: the commitment index assigned at %s is %r, not the element itself' % (
                       run.path, e.at, v.lin))
        if len(el) != 1 or el[0] not in v.must:
            dec = False
            continue
        a = el[0][1]
        if any(isinstance(t, Lin) and any(k < 0 for s, k in loopvars(t)) for t in a):
            p.bad('order', 'the indices are gone through backwards at %s' % e.at)
        cs = tuple(closed(loops, t) for t in a)
        if None in cs:
            dec = False
        else:
            got.add((SETS, cs))
    if ws and dec and got:
        # the first element of a loop is an interval of its own
        full = set(got)
        for _, (x, y) in got:
            for _, (x2, y2) in got:
                full.add((SETS, (x, y2)))
        f.need(covered(SETS, (None, None), full, [], syms_of(full, [])), 'index',
               '%s: only the messages of %s get their commitment index' % (run.path, short(got)))
    elif ws:
        f.count('not_decided')
    f.need(ws, 'index', '%s never assigns a commitment index' % run.path)
    # which commitment a message belongs to
    ws = writes('commitment_crs_id')
    f.count('assignments', len(ws))
    varying = False
    for e, v, q in ws:
        if v.lin is None:
            f.count('not_decided')
            varying = True
            continue
        vs = loopvars(v.lin)
        if not vs:
            varying |= not v.lin.is_const()
            if any(x[0] == 'op' and x[1] in ('min', 'rem', 'div') and any(
                    y[0] == 'v' for y in deep(sym(x))) for x, _ in v.lin.t):
                p.bad('set', 'the number of the commitment assigned at %s is %r, not the position '
                      'of its index set' % (e.at, v.lin))
            continue
        varying = True
        if len(vs) != 1 or any(s[0] == 'w' for s, _ in vs):
            f.count('not_decided')
            continue
        s, k = vs[0]
        base = sub(v.lin, lin({s: k}))
        f.need(k == 1 and not base.c and not base.t, 'set',
               '%s: the number of the commitment assigned at %s is %r, not the position of its '
               'index set' % (run.path, e.at, v.lin))
        for a, b in ineqs((e.facts if e.kind == 'store' else frozenset()) - p.common):
            if a.t == ((s, 1),) and b.is_const() and b.c - a.c < 65535:
                p.bad('set', 'the number of the commitment is only assigned up to %d at %s' % (
                    b.c - a.c, e.at))
        t = settrip(loops, s)
        kept_sets = {('u', e2.at) for e2 in run.events if e2.kind == 'filter' and e2.n == nsets}
        if t is not None and any(x in kept_sets for x, _ in t.t):
            p.bad('set', 'the number of the commitment assigned at %s counts only the index sets '
                  'that are kept by a filter' % e.at)
        elif t is not None and t != nsets and any(
                x[0] == 'len' and x[1] == SETS and len(x[2]) == 1 for x, _ in t.t):
            p.bad('set', 'the number of the commitment assigned at %s counts the indices of one '
                  'set, not the sets' % e.at)
        elif t is not None and t != nsets and (
                any(x == ('len', SETS, ()) for x, _ in t.t) or
                any(x.is_const() for x in minargs(t))):
            p.bad('set', 'the number of the commitment assigned at %s does not run over all sets '
                  'but up to %r' % (e.at, t))
        elif t != nsets:
            f.count('not_decided')
        # of the same message
        if q is None:
            i = dict(e.vals).get('commitment_index')
            ia = [a for a in i.must if a[0] == SETS and len(a[1]) == 2] if isinstance(i, Leaf) else []
            if len(ia) == 1 and isinstance(ia[0][1][0], Lin):
                f.need(ia[0][1][0] == v.lin, 'pair', '%s: at %s an index of set %r is recorded '
                       'for commitment %r' % (run.path, e.at, ia[0][1][0], v.lin))
    f.need(ws and varying, 'set', '%s: every message is recorded for the same commitment' % run.path)
    # the number of a message
    ws = writes('msg_id')
    f.count('assignments', len(ws))
    f.need(not ws or any(v.lin is None or not v.lin.is_const() for _, v, _ in ws), 'number',
           '%s: every message gets the same id' % run.path)
    for e, v, q in ws:
        if v.lin is None or any(s[0] != 'v' for s, _ in v.lin.t):
            f.count('not_decided')
            continue
        f.need(not v.lin.c and (v.lin.is_const() or len(v.lin.t) == 1 and v.lin.t[0][1] == 1) or
               v.lin.is_const(), 'number', '%s: message ids assigned at %s are %r, not 0, 1, 2, '
               '...' % (run.path, e.at, v.lin))
    # narrower than the type of a position
    for e in run.events:
        if e.kind == 'cast' and e.fn.startswith(ENTRY) and e.bits < 16 and e.val.lin is not None \
                and any(s[0] == 'v' or s[0] == 'val' and elements([(s[1], s[2])])
                        for s in deep(e.val.lin)) and \
                not le(e.val.lin, const((1 << e.bits) - 1), ineqs(e.facts | p.common)):
            p.bad('cut', '%r is cut to %d bits at %s' % (e.val.lin, e.bits, e.at))
    # the whole
    n = 0
    for s, v in run.outs:
        if s.flag == 1 or not isinstance(v, Agg):
            continue
        n += 1
        fl = dict(v.fields) if not isinstance(v.fields, dict) else v.fields
        x = fl.get('num_commitments')
        if isinstance(x, Leaf) and x.lin is not None:
            f.need(x.lin == nsets, 'count', '%s: the number of commitments recorded is %r, not the '
                   'number of index sets' % (run.path, x.lin))
        else:
            f.count('not_decided')
        x = fl.get('unique_commitment_indices')
        if x is not None:
            u = must_of(x)
            if elements(u):
                f.need(covered(SETS, (None, None), u, [], syms_of(u, [])), 'union',
                       '%s: the set of all commitment indices only takes in %s' % (
                           run.path, short(a for a in u if a[0] == SETS)))
            else:
                f.count('not_decided')
        x = fl.get('last_index')
        if isinstance(x, Leaf) and kept(x.lin):
            key, pos, c = kept(x.lin)
            f.need(not c and not (pos.is_const() and pos.c >= 0), 'last',
                   '%s: the last index recorded is position number %r%s' % (
                       run.path, pos, ' %+d' % c if c else ''))
        elif isinstance(x, Leaf) and x.lin is not None and not any(
                s[0] in ('w', 'op', 'u') for s, _ in x.lin.t):
            p.bad('last', 'the last index recorded is %r' % x.lin)
        else:
            f.count('not_decided')
    f.count('returns', n)
    f.need(n, 'none', '%s never returns' % run.path)
    unsupported(f, run)
    return f


def c21(crate, r, tier):
    tot = par.merge(r, par.each(crate, [ENTRY], c21_entry, watch=('-',)))
    r.floor('assignments', tot.get('assignments', 0), 3)
    r.floor('returns', tot.get('returns', 0), 1)
