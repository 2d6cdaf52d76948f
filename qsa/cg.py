"""Call graph over the MIR dump, and the entry points of the library."""
from .mir import ToolError

# (argument, prover, verifier)
PAIRS = [
    ('inner product', 'ipa::no_zk::create', 'ipa::no_zk::NoZK::verify'),
    ('masked inner product', 'ipa::alm_zk::create', 'ipa::alm_zk::AlmZK::verify'),
    ('quadratic equations, inner', 'ipa::qesa_inner::create', 'ipa::qesa_inner::Inner::verify'),
    ('quadratic equations', 'qesa_zk::create', 'qesa_zk::Zk::verify'),
    ('copy', 'copy::copy::create', 'copy::copy::Copy::verify'),
    ('linear map', 'lmpa::no_zk::create', 'lmpa::no_zk::NoZK::verify'),
    ('linear map, k-ary', 'lmpa::no_zk::create_lmpa_noZK',
     'lmpa::no_zk::lmpa_noZK::verify_lmpa_noZK'),
    ('masked linear map', 'lmpa::simple_zk::create', 'lmpa::simple_zk::SimpleZK::verify'),
    ('masked linear map, k-ary', 'lmpa::simple_zk::create_general',
     'lmpa::simple_zk::SimpleZK_general::verify_general'),
]
PROVERS = [p for _, p, _ in PAIRS]
VERIFIERS = [v for _, _, v in PAIRS]


def operands(bl):
    """All operand dicts of a block."""
    def walk(x):
        if isinstance(x, dict):
            if x.get('o') in ('const', 'copy', 'move'):
                yield x
                return
            for v in x.values():
                yield from walk(v)
        elif isinstance(x, list):
            for v in x:
                yield from walk(v)
    yield from walk(bl)


def rvalues(bl):
    for s in bl['s']:
        if s.get('s') == '=':
            yield s['v'], s['at']


class CallGraph:
    def __init__(self, crate):
        self.crate = crate
        self.ext = {}      # path -> [(callee path, resolved path, site)]
        self.loc = {}      # path -> {local callee: site}
        self.stat = {}     # path -> [(static path, site)]
        self.odd = {}      # path -> [(construct, site)]
        self.nodes = {}
        for path, f in crate.fns.items():
            if 'blocks' in f:
                self.scan(path, f)
                for p in f.get('promoted', []):
                    self.scan(path, p)

    def scan(self, path, body):
        ext = self.ext.setdefault(path, [])
        loc = self.loc.setdefault(path, {})
        stat = self.stat.setdefault(path, [])
        odd = self.odd.setdefault(path, [])
        for bl in body['blocks']:
            t = bl['t']
            at = t.get('at', '')
            if bl['t'].get('cleanup'):
                continue
            if t['t'] == 'unsupported':
                odd.append(('terminator ' + t.get('d', '')[:60], at))
            for o in operands(bl):
                fn = o.get('fn')
                if fn:
                    self.add_fn(fn, ext, loc, at)
                if o.get('static'):
                    stat.append((o['static'], at))
            for v, at2 in rvalues(bl):
                if v.get('r') == 'agg' and v.get('closure'):
                    loc.setdefault(v['closure'], at2)
                elif v.get('r') == 'tls':
                    stat.append(('thread local ' + str(v.get('d')), at2))
                elif v.get('r') == 'rawptr':
                    odd.append(('raw pointer', at2))
                elif v.get('r') == 'cast' and 'Expose' in str(v.get('ck')):
                    odd.append(('pointer to integer cast', at2))

    def add_fn(self, fn, ext, loc, at):
        r = fn.get('r')
        if r and r.get('local'):
            loc.setdefault(r['p'], at)
        elif fn.get('local') and not r and fn['p'] in self.crate.fns:
            loc.setdefault(fn['p'], at)
        elif fn.get('local') and fn.get('trait'):
            # an unresolved method of a local trait: every implementation
            hit = False
            for p, f in self.crate.fns.items():
                if f.get('implof') == fn['trait'] and p.endswith('::' + fn['name']):
                    loc.setdefault(p, at)
                    hit = True
            if not hit:
                ext.append((fn['p'], fn['p'], at))
        else:
            if not fn.get('ctor'):
                ext.append((fn['p'], (r or {}).get('p') or fn['p'], at))
            # a trait method resolved outside the crate may call back local implementations
            # through its type arguments (closures are covered where they are built)

    def reach(self, entry):
        """{reached path: call chain from entry}"""
        if entry not in self.ext:
            raise ToolError('entry point %s not found' % entry)
        seen = {entry: (entry,)}
        todo = [entry]
        while todo:
            p = todo.pop(0)
            for q in self.loc.get(p, {}):
                if q in self.ext and q not in seen:
                    seen[q] = seen[p] + (q,)
                    todo.append(q)
        return seen
