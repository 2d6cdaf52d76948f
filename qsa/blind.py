"""Secrecy of the zero-knowledge provers: what is emitted (C10), where blinding comes from (C11)."""
from .dom import *
from .vals import leaves
from . import par, cg
from .props import short, syms_of, covered, label, partstr
from .effects import match, chain
from .par import Find

# zero-knowledge provers: parameter positions that hold secrets (S) or fresh randomness (R)
SECRET = {
    'ipa::alm_zk::create': {5: 'S', 6: 'S'},
    'ipa::qesa_inner::create': {5: 'S', 6: 'R'},
    'qesa_zk::create': {5: 'S'},
    'copy::copy::create': {6: 'S', 7: {'0': 'S', '1': 'R'}},
    'lmpa::simple_zk::create': {5: 'S'},
    'lmpa::simple_zk::create_general': {2: 'S'},
}
# sub-protocols that hide nothing, with the position of their witness
BARE = {
    'ipa::no_zk::create': (4, 5),
    'lmpa::no_zk::create': (5,),
    'lmpa::no_zk::create_lmpa_noZK': (2,),
}
# the target of the linear map argument is computed by its prover: (label, matrix, witness)
TARGETS = {'lmpa::simple_zk::create': ('t', 1, 5)}


def is_target(run, e, l, eqs):
    """Is leaf l of absorb e the complete target, and nothing but the target?"""
    t = TARGETS.get(run.path)
    if t is None or label(e) != t[0]:
        return False
    a, w = 'p%d' % t[1], 'p%d' % t[2]
    for x in l.may | l.must:
        if x[0] not in (a, w) and x[0] not in ('len:' + a, 'len:' + w):
            return False
    u = l.must
    return covered(w, (None,), u, eqs, syms_of(u, eqs)) and any(x[0] == a for x in u)


def bare(l):
    """Does l contain a secret without a random summand?  A mask is sparse before it is made
    orthogonal, so a zero slot plus secret times random can occur next to proper masks."""
    return 'S' in l.cls or 'M' in l.cls and l.cls <= {'M', 'Z', 'P'}


def value_class(f, run, what, key, l, returned):
    """One emitted leaf."""
    if l.ty in ('len', 'int', 'tag', 'bool', 'discr', 'rng', 'transcript'):
        return
    f.count('emitted_values')
    f.need(not bare(l), 'bare:' + key,
           '%s: %s is not blinded; it depends on %s' % (run.path, what, short(
               [x for x in l.may | l.must])))
    if returned and 'point' not in l.ty:
        f.need('R' not in l.cls, 'mask:' + key, '%s: %s reveals a blinding value; it is %s' % (
            run.path, what, short([x for x in l.may | l.must])))


def c10_entry(crate, run, arg):
    f = Find()
    eqs = []
    t = TARGETS.get(run.path)
    if t:
        # the rows of the matrix are as long as the witness
        eqs.append((sym(('len', 'p%d' % t[1], ('[]',))), sym(('len', 'p%d' % t[2], ()))))
    n = 0
    for s, v in run.outs:
        for l in leaves(v):
            value_class(f, run, 'a returned value', '%s:returned' % run.path, l, True)
        n += 1
    f.need(n or run.fix, 'none:' + run.path, '%s never returns' % run.path)
    for e in run.events:
        if e.kind == 'absorb':
            for l in leaves(e.val):
                if l.cls == frozenset('S') and is_target(run, e, l, eqs):
                    f.count('targets')
                    continue
                value_class(f, run, 'what is absorbed as "%s" at %s' % (label(e), e.at),
                            '%s:%s' % (run.path, label(e)), l, False)
        elif e.kind == 'enter' and e.callee != run.path:
            f.count('sub_protocol_calls')
            for i in BARE[e.callee]:
                for l in leaves(e.vals[i]):
                    if l.ty in ('len', 'int', 'tag'):
                        continue
                    f.need(not bare(l) and 'P' not in l.cls, 'sub:%s:%s:%d' % (run.path, e.callee, i),
                           '%s: the witness handed to %s at %s is not blinded in every element; '
                           'it depends on %s' % (run.path, e.callee, e.at, short(l.may | l.must)))
        elif e.kind == 'unknown':
            f.notes.add('assumed to pass on all its arguments and nothing else: %s' % e.callee)
        elif e.kind == 'unsupported':
            f.need(False, 'unsupported:%s' % e.what, '%s: not understood: %s at %s' % (
                run.path, e.what, e.at))
    f.count('functions_interpreted', len(run.it.fns_seen))
    return f


def zk_runs(crate, fn):
    from .algebra import SMALL
    return par.each(crate, list(SECRET), fn, SECRET, watch=tuple(BARE),
                    fixes={p: x for p, x in SMALL.items() if p in SECRET})


def c10(crate, r, tier):
    tot = par.merge(r, zk_runs(crate, c10_entry))
    r.floor('emitted_values', tot.get('emitted_values', 0), 60)
    r.floor('sub_protocol_calls', tot.get('sub_protocol_calls', 0), 6)


# ---------------------------------------------------------------- C11
GOOD_RNG = ('rand::thread_rng', 'rand::rngs::thread::thread_rng', 'rand::prelude::thread_rng',
            'rand::rngs::OsRng', 'rand_core::OsRng')
RNG_NAMES = ('gen', 'gen_range', 'gen_bool', 'gen_ratio', 'sample', 'sample_iter', 'random',
             'random_iter', 'fill_bytes', 'try_fill_bytes', 'fill', 'next_u32', 'next_u64',
             'seed_from_u64', 'from_seed', 'from_rng', 'from_entropy', 'thread_rng',
             'build_rng', 'shuffle', 'choose')


# provers whose witness is masked as it came, so that positions are known exactly
PLAIN = ('ipa::alm_zk::create', 'lmpa::simple_zk::create', 'lmpa::simple_zk::create_general')
# the two slots of randomness of the extended witnesses of the quadratic argument
SLOTS = {
    'ipa::qesa_inner::create': ('c_prime_w', 'c_prime_prime_w'),
    'qesa_zk::create': ('c_prime_w', 'c_prime_prime_w'),
    'copy::copy::create': ('c_w', 'c_prime_w', 'c_prime_prime_w'),
}


def loopvars(toks):
    out = set()
    for t in toks:
        if isinstance(t, Lin):
            out |= {s for s, _ in t.t if s[0] in ('v', 'w')}
    return out


def fixed(t):
    """Is t one position, the same in all iterations?"""
    return isinstance(t, str) or isinstance(t, Lin) and not loopvars([t]) or \
        not isinstance(t, Lin) and t[0] == 'I' and t[1] == ZERO


def isr(a):
    return a[0].startswith('R:')


def c11_entry(crate, run, arg):
    f = Find()
    draws = {}
    fresh = {'p%d' % i for i, c in SECRET[run.path].items() if c == 'R'}
    for e in run.events:
        if e.kind == 'rng':
            f.count('draws')
            draws[e.atom[0]] = e
            f.need(e.src in ('thread_rng', 'OsRng'), 'source:%s:%s' % (run.path, e.fn),
                   '%s: %s draws at %s from %s, which is not the thread generator or OsRng' % (
                       run.path, e.fn, e.at, e.src))
        elif e.kind == 'rawrng':
            f.need(False, 'raw:%s:%s' % (run.path, e.fn),
                   '%s: %s at %s draws something else than a uniform scalar (%s)' % (
                       run.path, e.fn, e.at, e.d.get('callee')))
    # masks: one draw per element, and different draws for different vectors
    sites = {}
    for e in run.events:
        if e.kind != 'mask' or e.secret.cls & {'R', 'B'} or \
                any(isr(a) for a in e.secret.must | e.secret.may):
            continue
        f.count('masks')
        rs = [a for a in e.rand.must | e.rand.may if isr(a) or a[0] in fresh]
        sv = set()
        for a in e.secret.must | e.secret.may:
            if not isr(a) and not a[0].startswith('C:'):
                sv |= loopvars(a[1])
        f.need(not sv or any(loopvars(a[1]) or run.path not in PLAIN and
                             any(not fixed(t) for t in a[1]) for a in e.rand.must | e.rand.may),
               'shared:%s:%s' % (run.path, e.fn),
               '%s: at %s every element is blinded with the same value %s' % (
                   run.path, e.at, short(rs)))
        if rs:
            sites.setdefault((e.frame, e.at), set()).update(canon(a) for a in rs)
    same = {}
    for k, v in sorted(sites.items()):
        w = same.setdefault(frozenset(v), k)
        f.need(w == k, 'reuse:%s' % run.path, '%s: the same blinding is used at %s and at %s' % (
            run.path, w[1], k[1]))
    # the commitments to the witness have both of their blinding slots filled
    for e in run.events:
        if e.kind == 'absorb' and label(e) in SLOTS.get(run.path, ()):
            f.count('blinded_commitments')
            rs = set()
            for l in leaves(e.val):
                rs |= {a for a in l.must if isr(a) or a[0] in fresh}
            f.need(len(rs) > 1 or any(not isinstance(t, (Lin, str)) for a in rs for t in a[1]),
                   'slots:%s:%s' % (run.path, label(e)),
                   '%s: the commitment absorbed as "%s" at %s is not blinded by two independent '
                   'draws, only by %s' % (run.path, label(e), e.at, short(rs)))
    # one draw in several cells of a vector
    cells = {}
    for e in run.events:
        if e.kind not in ('cell', 'fill'):
            continue
        v = e.val
        f.count('stores_of_random_values')
        if len(v.must) != 1 or v.cls != frozenset('R'):
            continue
        a = next(iter(v.must))
        if not isr(a):
            continue
        have = loopvars(a[1])
        if e.kind == 'fill':
            f.need(have or any(not isinstance(t, (str, Lin)) for t in a[1]),
                   'fill:%s:%s' % (run.path, e.fn),
                   '%s: at %s all elements of a vector are the same draw' % (run.path, e.at))
            continue
        f.need(loopvars(e.stk) <= have, 'fill:%s:%s' % (run.path, e.fn),
               '%s: at %s one draw is stored in every iteration' % (run.path, e.at))
        cells.setdefault((e.frame, e.target, a), set()).add((e.at, e.cell))
    for (fr, t, a), ws in sorted(cells.items(), key=repr):
        f.need(len(ws) == 1, 'cells:%s' % run.path,
               '%s: the draw %s is stored in several elements of one vector (%s)' % (
                   run.path, short([a]), ', '.join(sorted({w[0] for w in ws}))))
    f.count('functions_interpreted', len(run.it.fns_seen))
    return f


def canon(a):
    """Atom a with loop positions named alike."""
    out = []
    for t in a[1]:
        vs = sorted(loopvars([t]), key=repr)
        out.append(repr(Map({v: sym(('v', ('canon', i))) for i, v in enumerate(vs)}).tok(t))
                   if vs else repr(t))
    return (a[0], tuple(out))


def c11(crate, r, tier):
    tot = par.merge(r, zk_runs(crate, c11_entry))
    g = cg.CallGraph(crate)
    sites = 0
    for p in cg.PROVERS:
        for fn, ch in g.reach(p).items():
            for x, y, at in g.ext[fn]:
                last = y.split('::')[-1].split('<')[0]
                if match(x, y, ('rand::', 'rand_core::', 'rand_chacha::', 'getrandom::', 'rand_os::',
                                'rand_pcg::', 'rand_xorshift::', 'rand_hc::', 'rand_isaac::')) \
                        or last in RNG_NAMES and ('Rng' in y or 'rand' in y):
                    sites += 1
                    good = match(x, y, GOOD_RNG) or last == 'random' and 'Scalar' in y
                    r.need(good, 'rng:%s:%s' % (fn, y), '%s: %s calls %s; blinding may only be '
                           'drawn with Scalar::random from the thread generator or OsRng; '
                           'reached by %s' % (at, fn, y, chain(ch)))
                elif last == 'random':
                    sites += 1
                    r.need('Scalar' in y or 'Ristretto' in y, 'rng:%s:%s' % (fn, y),
                           '%s: %s calls %s, not a uniform scalar' % (at, fn, y))
            for st, at in g.stat[fn]:
                r.need(False, 'static:%s:%s' % (fn, st),
                       '%s: %s keeps state in %s between proofs' % (at, fn, st))
    r.cov['generator_call_sites'] = sites
    r.floor('draws', tot.get('draws', 0), 20)
    r.floor('masks', tot.get('masks', 0), 4)
    r.floor('generator_call_sites', sites, 10)
