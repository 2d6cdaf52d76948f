"""Checks over the resolved call graph: C08, C09 and the call-graph half of C12."""
from .cg import CallGraph, PAIRS, PROVERS, VERIFIERS

# externals by resolved path prefix (after the reference/impl decoration is removed)
RANDOM = ('rand::', 'rand_core::', 'rand_chacha::', 'getrandom::', 'rand_os::')
CLOCK_ENV = ('std::time::', 'std::env::', 'std::fs::', 'std::net::', 'std::process::',
             'std::thread::', 'std::os::', 'std::io::', 'libc::', 'std::alloc::',
             'std::sync::', 'core::sync::', 'std::backtrace::', 'std::panic::', 'std::sys',
             'std::thread_local', 'std::hash::RandomState', 'std::collections::hash_map::RandomState',
             'std::random', 'std::arch::', 'core::arch::')
OUTPUT = ('std::io::', 'std::fs::', 'std::net::', 'std::process::', 'std::env::set_var',
          'std::env::remove_var', 'log::', 'tracing', 'libc::', 'std::os::', 'std::sync::',
          'core::sync::', 'std::thread::', 'std::panic::set_hook', 'std::sys', 'eprint',
          'std::backtrace::')
# constructs whose iteration order or identity is not a function of the values
UNSTABLE = ('std::collections::HashMap', 'std::collections::HashSet', 'std::collections::hash_map',
            'std::collections::hash_set', 'std::any::type_name', 'std::ptr::from_ref',
            'core::ptr::from_ref')


def names(p, r):
    """Path spellings a callee matches under."""
    out = {p, r}
    for x in (p, r):
        y = x.lstrip('<&')
        out.add(y)
        out.add(y.replace("'a ", '').replace("mut ", ''))
        if ' as ' in x:
            out.add(x.split(' as ', 1)[1].rstrip('>'))
    return out


def match(p, r, prefixes):
    for n in names(p, r):
        for pre in prefixes:
            if n.startswith(pre):
                return pre
    return None


def chain(c):
    return ' -> '.join(c)


def is_random(p, r):
    if match(p, r, RANDOM):
        return 'random number generator'
    last = r.split('::')[-1].split('<')[0]
    if last in ('random', 'gen', 'gen_range', 'fill_bytes', 'next_u32', 'next_u64', 'thread_rng',
                'from_entropy', 'build_rng'):
        return 'draws randomness'
    return None


def c08(crate, res, tier):
    cg = CallGraph(crate)
    sites = 0
    reached = set()
    for v in VERIFIERS:
        for fn, ch in cg.reach(v).items():
            reached.add(fn)
            for p, r, at in cg.ext[fn]:
                sites += 1
                why = is_random(p, r)
                if not why and match(p, r, CLOCK_ENV):
                    why = 'reads or changes state outside its arguments'
                if not why and match(p, r, UNSTABLE):
                    why = 'order or identity is not a function of the values'
                res.need(not why, '%s calls %s' % (fn, r), '%s: %s calls %s (%s); reached from '
                         'verifier by %s' % (at, fn, r, why, chain(ch)))
            for st, at in cg.stat[fn]:
                sf = crate.fns.get(st)
                if sf is not None and sf.get('kind') == 'static' and not sf.get('staticmut') \
                        and frozen(sf):
                    continue
                res.need(False, '%s uses static %s' % (fn, st),
                         '%s: %s uses global state %s; reached by %s' % (at, fn, st, chain(ch)))
            for o, at in cg.odd[fn]:
                if o == 'raw pointer':
                    continue
                res.need(False, '%s: %s' % (fn, o), '%s: %s in %s; reached by %s' % (
                    at, o, fn, chain(ch)))
    res.cov['external_call_sites'] = sites
    res.floor('verifiers', len(VERIFIERS), 9)
    res.floor('reached_functions', len(reached), 30)
    # the rule must be able to fire: the provers do draw randomness
    pos = sum(1 for f in crate.fns if f in cg.ext for p, r, _ in cg.ext[f] if is_random(p, r))
    res.floor('positive_instances_in_crate', pos, 8)
    res.assumptions.append('dalek and merlin operations named by the verifiers are pure '
                           'functions of their arguments')
    return res


def frozen(sf):
    return 'Cell' not in str(sf.get('sty', '')) and 'Atomic' not in str(sf.get('sty', ''))


def c09(crate, res, tier):
    cg = CallGraph(crate)
    sites = 0
    reached = set()
    entries = PROVERS + VERIFIERS + ['copy::mapping::compute_mapping', 'copy::mapping::commit',
                                     'lmpa::simple_zk::pedersen_commit']
    for v in entries:
        for fn, ch in cg.reach(v).items():
            reached.add(fn)
            for p, r, at in cg.ext[fn]:
                sites += 1
                bad = match(p, r, OUTPUT) or ('_print' if r.split('::')[-1] in (
                    '_print', '_eprint', 'write_fmt', 'write_all', 'write_str', 'write_volatile',
                    'set_var', 'exit', 'abort', 'leak', 'forget') else None)
                res.need(not bad, '%s calls %s' % (fn, r), '%s: %s calls %s, an output besides '
                         'the result and the transcript; reached from %s by %s' % (
                             at, fn, r, v, chain(ch)))
            for st, at in cg.stat[fn]:
                sf = crate.fns.get(st)
                if sf is not None and not sf.get('staticmut') and frozen(sf):
                    continue
                res.need(False, '%s uses static %s' % (fn, st), '%s: %s uses global state %s; '
                         'reached by %s' % (at, fn, st, chain(ch)))
    # arguments a prover or verifier could write its data to
    for v in PROVERS + VERIFIERS:
        f = crate.fns[v]
        for i in range(1, f['args'] + 1):
            ty = f['locals'][i]
            if ty['k'] == 'ref' and ty.get('m') and not (
                    ty['e'].get('p', '').endswith('Transcript')):
                res.need(False, '%s: mutable argument %d' % (v, i),
                         '%s takes a mutable reference besides the transcript' % v)
            else:
                res.ok()
    res.cov['external_call_sites'] = sites
    res.floor('entries', len(entries), 21)
    res.floor('reached_functions', len(reached), 60)
    return res


def c12_calls(crate, res, tier):
    """No transcript is made, cloned or replaced anywhere an argument can reach."""
    cg = CallGraph(crate)
    reached = set()
    squeezes = 0
    for v in PROVERS + VERIFIERS:
        for fn, ch in cg.reach(v).items():
            reached.add(fn)
            for p, r, at in cg.ext[fn]:
                n = r.split('::')[-1]
                bad = None
                if 'merlin::' in r or 'Transcript' in r:
                    if n in ('challenge_bytes',):
                        squeezes += 1
                    elif n not in ('append_message', 'append_u64', 'commit_bytes'):
                        bad = r
                if p in ('std::mem::swap', 'std::mem::replace', 'std::mem::take',
                         'core::mem::swap', 'core::mem::replace', 'core::mem::take'):
                    bad = bad or (r if 'Transcript' in str(r) else None)
                res.need(not bad, '%s calls %s' % (fn, r), '%s: %s calls %s: challenges must '
                         'come from the transcript the caller passed; reached by %s' % (
                             at, fn, r, chain(ch)))
            # a transcript held by value
            for i, ty in enumerate(crate.fns[fn].get('locals', [])):
                if ty.get('k') == 'adt' and ty.get('p', '').endswith('Transcript'):
                    res.need(False, '%s owns a transcript' % fn,
                             '%s holds a transcript of its own (local %d); reached by %s' % (
                                 fn, i, chain(ch)))
    res.floor('reached_functions', len(reached), 60)
    res.floor('squeeze_call_sites', squeezes, 1)
    return res
