"""Termination (C17): every loop moves something that cannot move forever."""
from .dom import *
from .iters import sym_inf, INF
from . import par, cg
from .par import Find
from .algebra import unsupported

BIG = 1 << 20


class Bounds:
    """Lower bounds of quantities that are never negative, from facts."""

    def __init__(self, facts, at_least=()):
        self.le = []          # (a, b): a <= b
        self.lows = dict(at_least)
        self.ne, self.eq = [], []
        for f in facts:
            a, b = f[3], f[4]
            if f[0] == 'pow2' and a is not None:
                self.le.append((ONE, a))
            if a is None or b is None:
                continue
            if f[0] in ('le', 'lt'):
                self.le.append((a if f[0] == 'le' else add(a, ONE), b))
            elif f[0] == 'ne':
                self.ne += [(a, b), (b, a)]
            elif f[0] == 'eq':
                self.eq.append(sub(a, b))
                self.le += [(a, b), (b, a)]
        self.busy = set()
        for _ in range(4):
            ch = False
            for a, b in self.le:
                # a <= b: what is left of b is at least what is left of a
                for s, k in b.t:
                    if k != 1:
                        continue
                    lo = self.low(sub(a, sub(b, sym(s))))
                    if lo is not None and lo > self.symlow(s):
                        self.lows[s] = lo
                        ch = True
            for a, b in self.ne:
                if len(a.t) == 1 and a.t and not a.c and b.is_const():
                    (s, k), = a.t
                    if k == 1 and self.symlow(s) == b.c:
                        self.lows[s] = b.c + 1
                        ch = True
            if not ch:
                break

    def symlow(self, s):
        r = self.lows.get(s)
        if r is None:
            r = sym_min(s)
            r = 0 if r is None else r
        if s[0] == 'op' and s not in self.busy:
            self.busy.add(s)
            if s[1] == 'div':
                a, q = s[2]
                x = self.low(a)
                if q.is_const() and q.c > 0 and x is not None:
                    r = max(r, x // q.c)
                elif self.ge(a, q, 0):
                    r = max(r, 1)
            elif s[1] == 'min':
                xs = [self.low(a) for a in s[2]]
                if None not in xs:
                    r = max(r, min(xs))
            elif s[1] == 'max':
                r = max([r] + [x for x in map(self.low, s[2]) if x is not None])
            elif s[1] in ('next_power_of_two',):
                r = max(r, 1)
            self.busy.discard(s)
        return r

    def low(self, l):
        """A lower bound of l, every symbol being a size."""
        r = l.c
        neg = []
        for s, k in l.t:
            if k < 0:
                neg.append((s, k))
            else:
                r += k * self.symlow(s)
        if neg:
            return None
        return r

    def ge(self, a, b, k=0):
        """a >= b + k"""
        return self.pos(sub(a, add(b, const(k))), 0)

    def pos(self, d, k, depth=3):
        """d >= k"""
        x = self.low(d)
        if x is not None:
            return x >= k
        if not depth:
            return False
        # something divided is smaller than it was
        for s, c in d.t:
            if c < 0 and s[0] == 'op' and s[1] == 'div':
                a, q = s[2]
                x, y = self.low(a), self.low(q)
                if x is not None and x >= 1 and y is not None and y >= 2:
                    top = add(a, const(-1))
                    if x >= 2 and q.is_const() and self.pos(
                            add(add(d, sym(s), -c), top, c), k, depth - 1):
                        return True
                    if self.pos(add(add(d, sym(s), -c), top, c), k, depth - 1):
                        return True
                if self.pos(add(add(d, sym(s), -c), a, c), k, depth - 1):
                    return True
            if c < 0 and s[0] == 'op' and s[1] == 'min':
                for a in s[2]:
                    if self.pos(add(add(d, sym(s), -c), a, c), k, depth - 1):
                        return True
        for a, b in self.le:
            # b - a >= 0
            e = sub(d, sub(b, a))
            if len(e.t) < len(d.t) and self.pos(e, k, depth - 1):
                return True
        return False


def plain(l):
    if l is not None and not l.c and len(l.t) == 1 and l.t[0][1] == 1:
        return l.t[0][0]
    return None


def lowered(e):
    """The sizes known to be at least one at the start of every iteration."""
    before = Bounds(e.before)
    inv = set()
    for s in e.steps:
        for x, (a, b) in s['syms'].items():
            if a is not None and before.pos(a, 1):
                inv.add(x)
    while inv:
        bad = set()
        for s in e.steps:
            B = Bounds(s['facts'] | e.during, {x: 1 for x in inv})
            for x in inv:
                if x in s['syms'] and not B.pos(s['syms'][x][1], 1):
                    bad.add(x)
        if not bad:
            break
        inv -= bad
    return inv


def certificate(e, s, inv):
    """Why this way through the body cannot be taken forever: a text, or None."""
    B = Bounds(s['facts'] | e.during, {x: 1 for x in inv})
    back = {e.iota: add(sym(e.iota), ONE)}
    back.update({x: v[1] for x, v in s['syms'].items()})
    m = Map(back)
    first = Map(dict([(e.iota, const(e.first - 1))] + [
        (x, v[0]) for x, v in s['syms'].items() if v[0] is not None]))
    start = Bounds(e.before)
    for h, b, n in s['iters']:
        if B.pos(sub(b, h), 1) and not (n is not None and sym_inf(n)):
            return 'iterates'
    for h, b in s['lens']:
        if h is not None and b is not None and B.pos(sub(h, b), 1):
            return 'a collection gets shorter'
    for x, (a, b) in s['syms'].items():
        if b is not None and B.pos(sub(sym(x), b), 1) and B.pos(b, 0):
            return '%s gets smaller' % symstr(x)
    for f in sorted(s['facts'], key=repr):
        a, b = f[3], f[4]
        if a is None or b is None:
            continue
        if f[0] in ('lt', 'le') and not sym_inf(b):
            d = sub(b, a)
            if B.pos(sub(d, m.lin(d)), 1):
                return '%s gets smaller' % d
        elif f[0] == 'ne':
            for d in (sub(a, b), sub(b, a)):
                if sub(d, m.lin(d)) == ONE:
                    z = first.lin(d)
                    if not any(lin_of(z, x) for x in list(s['syms']) + [e.iota]) and \
                            start.pos(z, 0):
                        return '%s reaches zero' % d
    return None


def lin_of(l, x):
    return any(s == x for s, _ in l.t)


def moved(e, s):
    return Map(dict([(e.iota, add(sym(e.iota), ONE))] + [(x, v[1]) for x, v in s['syms'].items()
                                                          if v[1] is not None]))


def staying(e, s):
    """The conditions of which the opposite leaves the loop."""
    from .interp import negs
    out = {g[:1] + g[3:] for d in e.leave for g in d}
    return {f for f in s['facts'] if any(g[:1] + g[3:] in out for g in negs(f))}


def vague(e, s):
    """Is what decides whether to go on only partly known?"""
    if s['other'] or not any(e.leave) and e.has_exit or None in [v[1] for v in s['syms'].values()]:
        return True
    m = moved(e, s)
    stay = staying(e, s)
    for f in s['facts']:
        for l, o in ((f[3], f[4]), (f[4], f[3])):
            if o is None and f[0] != 'pow2' and (l is None or f in stay or m.lin(l) != l):
                return True
            if l is not None and any(x[0] == 'w' and x not in s['syms'] and
                                     x[1] == (e.key[0][-60:], e.key[1]) for x, _ in l.t):
                return True
    return False


def goes_on(e, s):
    """Why this way through the body is taken again once it has been taken: a text, or None.
    What is taken again and again only if something not understood stays the same is not
    claimed to be."""
    if not e.has_exit:
        return 'there is no way out of it'
    if vague(e, s):
        return None
    m = moved(e, s)
    fs = [f for f in s['facts'] if f[3] is not None and f[4] is not None or f[0] == 'pow2']
    live = [f for f in fs if m.lin(f[3]) != f[3] or f[4] is not None and m.lin(f[4]) != f[4]]
    say = ' and '.join(sorted(map(said, fs))[:3])
    if not live:
        return 'it goes on while %s, and nothing of this changes' % say if fs else \
            'it changes none of its conditions'
    # the conditions hold more and more
    B = Bounds(s['facts'] | e.during)
    if all(f[0] in ('lt', 'le') and B.pos(sub(sub(m.lin(f[4]), m.lin(f[3])), sub(f[4], f[3])), 0)
           for f in live):
        return 'it goes on while %s, and this gets ever further from its end' % say
    # the conditions to stay hold at values that the body maps to themselves
    stay = staying(e, s)
    live = [f for f in live if f in stay]
    if not live:
        return None
    say = ' and '.join(sorted(map(said, live))[:3])
    # a count that has to be hit exactly, but moves in larger steps
    if len(live) == 1 == len(stay) and live[0][0] == 'ne' and len(
            {g[:1] + g[3:] for d in e.leave for g in d}) == 1:
        w = skips(e, s, sub(live[0][3], live[0][4]), m)
        if w:
            return 'it goes on while %s, and %s' % (say, w)
    xs = sorted({x for f in live for l in (f[3], f[4]) if l is not None for x in atoms(l)},
                key=repr)
    if len(xs) > 3 or any(x == INF for x in xs) or e.iota in xs:
        return None
    keep = [f for f in e.before | e.during | s['facts'] if f[3] is not None and (
        f[4] is not None or f[0] == 'pow2')]
    import itertools
    for vs in itertools.product(range(0, 6), repeat=len(xs)):
        env = dict(zip(xs, vs))
        if not any(x in s['syms'] for x in xs):
            continue
        old = {x: evals(sym(x), env) for x in xs}
        new = {x: evals(m.lin(sym(x)), env) for x in xs}
        if old != new or None in new.values():
            continue
        if all(holds(f, env) is True for f in live) and \
                all(holds(f, env) is not False for f in keep):
            # nothing at its start rules these values out
            at = {x: s['syms'][x][0] for x in xs if x in s['syms']}
            if all(a is not None for a in at.values()) and \
                    reach(e, s, env, at):
                return 'it goes on while %s, and the body leaves %s as it is' % (
                    say, ', '.join('%s = %d' % (symstr(x), v) for x, v in env.items()))
    return None


def skips(e, s, d, m):
    c = sub(m.lin(d), d)
    if not c.is_const() or abs(c.c) < 2:
        return None
    d0 = Map(dict([(e.iota, const(e.first - 1))] + [
        (x, v[0]) for x, v in s['syms'].items() if v[0] is not None])).lin(d)
    xs = sorted(atoms(d0), key=repr)
    if len(xs) > 2 or any(x in s['syms'] or x in (e.iota, INF) for x in xs):
        return None
    import itertools
    for vs in itertools.product(range(0, 10), repeat=len(xs)):
        env = dict(zip(xs, vs))
        v = evals(d0, env)
        if v is not None and v % c.c and all(holds(f, env) is not False for f in e.before
                                             if f[3] is not None):
            return 'the difference moves by %d from %d%s' % (c.c, v, ''.join(
                ', if %s = %d' % (symstr(x), y) for x, y in env.items()))
    return None


def reach(e, s, env, at):
    """Can the loop come to these values?  Only if its start has nothing against them: it starts
    at something that can be them, or its body takes something larger there."""
    pre = Bounds(e.before)
    inv = lowered(e)
    for x, a in at.items():
        if x in inv and env[x] < 1 or a.is_const() and a.c < env[x]:
            return False
        if a.is_const() and a.c == env[x]:
            continue
        lo = pre.low(a)
        if lo is not None and lo > env[x]:
            # a step down from above: by halving, only to what halving can give
            return any(evals(s['syms'][x][1], {**env, x: v}) == env[x] and
                       all(holds(f, {**env, x: v}) is not False for f in s['facts'])
                       for v in range(env[x] + 1, 12))
    return True


def atoms(l):
    r = set()
    for s, _ in l.t:
        if s[0] == 'op':
            for a in s[2]:
                r |= atoms(a)
        else:
            r.add(s)
    return r


def evals(l, env):
    r = l.c
    for s, k in l.t:
        if s in env:
            r += k * env[s]
        elif s[0] == 'op' and s[1] in CALC:
            xs = [evals(a, env) for a in s[2]]
            if None in xs or any(x < 0 for x in xs):
                return None
            y = CALC[s[1]](*xs)
            if y is None:
                return None
            r += k * y
        else:
            return None
    return r


CALC = dict(FOLD, min=min, max=max)


def holds(f, env):
    a = evals(f[3], env) if f[3] is not None else None
    if f[0] == 'pow2':
        return None if a is None else a > 0 and a & (a - 1) == 0
    b = evals(f[4], env) if f[4] is not None else None
    if a is None or b is None:
        return None
    return {'lt': a < b, 'le': a <= b, 'eq': a == b, 'ne': a != b}.get(f[0])


def said(f):
    if f[0] == 'pow2':
        return '%s is a power of two' % f[3]
    return '%s %s %s' % (f[3], {'le': '<=', 'lt': '<', 'ne': '!=', 'eq': '=='}.get(f[0], f[0]), f[4])


def c17_entry(crate, run, arg):
    f = Find()
    seen = set()
    for e in run.events:
        if e.kind == 'recursion':
            f.count('recursions')
            if e.same and e.told:
                f.need(False, 'recursion:%s:%s' % (run.path, e.callee),
                       '%s: %s calls itself with arguments of the same sizes at %s' % (
                           run.path, e.callee, e.at))
            else:
                f.count('not_decided')
        if e.kind != 'loop':
            continue
        f.count('loops')
        seen.add((e.fn, e.at))
        if not e.steps:
            f.count('loops_run_once')
            continue
        inv = lowered(e)
        for s in e.steps:
            f.n += 1
            f.count('ways_through')
            c = certificate(e, s, inv)
            if c:
                f.count('by: ' + ('iterator' if c == 'iterates' else 'size'))
                continue
            w = goes_on(e, s)
            if w is None:
                f.count('not_decided')
                f.notes.add('not decided: %s' % line(crate, e))
                continue
            f.need(False, 'loop:%s:%s' % (run.path, e.fn), '%s: the loop of %s at %s does not '
                   'end: %s' % (run.path, e.fn, line(crate, e), w))
    f.cov['distinct_loops'] = len(seen)
    unsupported(f, run)
    return f


def line(crate, e):
    """The source line a loop starts at."""
    try:
        b = crate.fns[e.fn]['blocks'][int(e.at)]
        return b['t'].get('at') or next(x['at'] for x in b['s'] if x.get('at'))
    except Exception:
        return 'its only iteration' if not str(e.at).isdigit() else 'block %s' % e.at


# what never ends, whatever it is made of
ENDLESS = {'Repeat', 'RepeatWith', 'Cycle', 'RangeFrom'}
# ends if what it is made of does
THROUGH = {'Map', 'Filter', 'FilterMap', 'Enumerate', 'Skip', 'StepBy', 'Cloned', 'Copied',
           'Inspect', 'Peekable', 'Rev', 'Fuse'}
ALL_OF_IT = {'collect', 'fold', 'sum', 'product', 'count', 'last', 'for_each', 'max', 'min',
             'max_by', 'min_by', 'max_by_key', 'min_by_key', 'unzip', 'partition', 'extend',
             'from_iter'}
WAITS = ('std::thread::sleep', 'std::thread::park', 'std::thread::JoinHandle', 'std::sync::mpsc',
         'std::sync::Mutex', 'std::sync::RwLock', 'std::sync::Condvar', 'std::sync::Barrier',
         'std::io::stdin', 'std::io::Stdin', 'std::net::', 'std::process::Command')


def endless(t):
    """Does an iterator of this type never end?"""
    if t.get('k') == 'ref':
        return endless(t['e'])
    if t.get('k') != 'adt':
        return False
    n = t['p'].split('::')[-1]
    a = t.get('a', [])
    if n in ENDLESS:
        return True
    if n in THROUGH and a:
        return endless(a[0])
    if n == 'Zip' and len(a) >= 2:
        return endless(a[0]) and endless(a[1])
    if n == 'Chain' and len(a) >= 2:
        return endless(a[0]) or endless(a[1])
    return False


def short(t):
    n = t.get('p', t.get('k', '?')).split('::')[-1]
    a = [short(x) for x in t.get('a', []) if x.get('k') in ('adt', 'ref')]
    return n + ('<%s>' % ', '.join(a) if a and n in THROUGH | ENDLESS | {'Zip', 'Chain'} else '')


def consumers(crate, r, entries):
    g = cg.CallGraph(crate)
    from .effects import match, chain
    reached = {}
    for e in entries:
        for fn, ch in g.reach(e).items():
            reached.setdefault(fn, ch)
    n = 0
    for fn, ch in sorted(reached.items()):
        body = crate.fns[fn]
        for p, q, at in g.ext.get(fn, []):
            w = match(p, q, WAITS)
            r.need(not w, 'waits:%s:%s' % (fn, q), '%s: %s calls %s, which can wait for ever; '
                   'reached by %s' % (at, fn, q, chain(ch)))
        for bl in body.get('blocks', []):
            t = bl['t']
            c = t['f'].get('fn') if t['t'] == 'call' and isinstance(t.get('f'), dict) else None
            if not c or c.get('name') not in ALL_OF_IT or not c.get('a'):
                continue
            n += 1
            x = c['a'][-1] if c['name'] in ('extend', 'from_iter') else c['a'][0]
            r.need(not endless(x), 'endless:%s:%s' % (fn, c['name']), '%s: %s takes all of an '
                   'iterator that never ends (%s of %s); reached by %s' % (
                       t.get('at', ''), fn, c['name'], short(x), chain(ch)))
    r.cov['functions_reached'] = len(reached)
    r.cov['iterators_taken_whole'] = n
    return n


MORE = ['copy::mapping::compute_mapping', 'copy::mapping::commit',
        'lmpa::simple_zk::pedersen_commit']


def c17(crate, r, tier):
    entries = cg.PROVERS + cg.VERIFIERS + MORE
    n = consumers(crate, r, entries)
    tot = par.merge(r, par.each(crate, entries, c17_entry))
    r.floor('loops', tot.get('loops', 0), 100)
    r.floor('iterators_taken_whole', n, 40)
