"""What the external functions do to abstract values."""
from .dom import *
from .vals import *
from .iters import *
from .mir import ToolError

SCALAR = 'curve25519_dalek::scalar::Scalar'
POINTS = ('curve25519_dalek::ristretto::RistrettoPoint', 'curve25519_dalek::edwards::EdwardsPoint')
CPOINT = 'curve25519_dalek::ristretto::CompressedRistretto'
TRANSCRIPT = 'merlin::Transcript'

VECS = ('std::vec::Vec', 'alloc::vec::Vec', 'std::collections::VecDeque',
        'std::collections::BTreeSet', 'std::collections::HashSet')


def leafty(ty):
    k = ty.get('k')
    if k == 'adt':
        p = ty['p']
        if p == SCALAR:
            return 'scalar'
        if p in POINTS:
            return 'point'
        if p == CPOINT:
            return 'cpoint'
        if p == TRANSCRIPT:
            return 'transcript'
        return '?'
    if k in ('uint', 'int'):
        return 'int'
    if k == 'bool':
        return 'bool'
    if k == 'str':
        return 'str'
    return '?'


def is_group(ty):
    return ty in ('scalar', 'point', 'cpoint', '?')


class Models(Iters):
    def __init__(self, crate):
        self.crate = crate
        self.it = None
        self.tcount = 0
        self.ext_seen = {}
        self.unknown = {}

    # ------------------------------------------------------------ inputs
    fix = {}

    def fixed(self, s):
        """A quantity of the input: a symbol unless this run is about one value of it."""
        return const(self.fix[s]) if s in self.fix else sym(s)

    def inval(self, ty, root, path=(), cls='P', h=0, rect=True):
        """Value of an input of type ty (references are removed by the caller)."""
        k = ty.get('k')
        if k == 'ref':
            return Ref([('V', self.inval(ty['e'], root, path, cls, h, rect))])
        if k in ('slice', 'array') or (k == 'adt' and ty['p'] in VECS):
            ety = ty['e'] if k in ('slice', 'array') else ty['a'][0]
            v = ('v', ('inp', root, len([x for x in path if not isinstance(x, str)])))
            VEC_MIN[v[1]] = 0
            e = self.inval(ety, root, path + (sym(v),), cls, h, rect)
            if k == 'array' and ty.get('n') is not None:
                n = ileaf(const(ty['n']))
            else:
                lp = tuple('[]' if not isinstance(x, str) else x for x in path) if rect else path
                n = Leaf(frozenset([('len:' + root, path)]), frozenset([('len:' + root, path)]),
                         self.fixed(('len', root, lp)), ty='int')
            kind = 'set' if k == 'adt' and 'Set' in ty['p'] else 'vec'
            return mkcoll(kind, n, e, v)
        if k == 'tuple':
            return Agg('tuple', '', [(str(i), self.inval(t, root, path + (str(i),), cls, h, rect))
                                     for i, t in enumerate(ty['a'])])
        if k == 'adt' and ty['p'] in self.crate.adts:
            a = self.crate.adts[ty['p']]
            if len(a['variants']) == 1:
                return Agg('adt', ty['p'], [
                    (f['n'], self.inval(f['ty'], root, path + (f['n'],), cls, h, rect))
                    for f in a['variants'][0]['f']])
            return Enum(ty['p'], [(v['n'], tuple(
                (f['n'], self.inval(f['ty'], root, path + (v['n'], f['n']), cls, h, rect))
                for f in v['f']), EMPTY) for v in a['variants']],
                frozenset([(root, path)]), frozenset([(root, path)]))
        if k == 'adt' and ty['p'].endswith('option::Option'):
            at = frozenset([(root, path)])
            return Enum(OPT, [('Some', (('0', self.inval(ty['a'][0], root, path + ('Some',), cls,
                                                         h, rect)),), EMPTY),
                              ('None', (), EMPTY)], at, at)
        t = leafty(ty)
        at = frozenset([(root, path)])
        if t == 'int':
            return Leaf(at, at, self.fixed(('val', root, path)), ty='int')
        if t == 'transcript':
            return Leaf(EMPTY, EMPTY, const=('tr', root), ty='transcript')
        if isinstance(cls, dict):
            cls = cls.get('.'.join(x for x in path if isinstance(x, str)), 'P')
        mo = None
        if t in ('scalar', 'point', 'cpoint') and all(isinstance(x, (str, Lin)) for x in path):
            mo = mo_var(root, path)
        return Leaf(at, at, cls=frozenset(cls if t != 'bool' else 'P'), ty=t, mo=mo)

    # ------------------------------------------------------------ interface
    def constant(self, it, o, ty):
        k = ty.get('k')
        if k == 'ref':
            e = ty['e']
            if e.get('k') == 'str':
                return Ref([('V', Leaf(const=('str', o.get('s') or ''), ty='str'))])
            if e.get('k') == 'array':
                return Ref([('V', Leaf(ty='bytes'))])
            return Ref([('V', Leaf(ty='?'))])
        t = leafty(ty)
        d = o.get('d') or o.get('def') or ''
        if t == 'int' and 'MAX' in str(d):
            return ileaf(sym(('u', 'max')))
        return Leaf(ty=t)

    def intercept(self, it, path):
        return False

    # ------------------------------------------------------------ dispatcher
    def ext(self, it, f, args, st, fr, site, at, dest):
        r = f.get('r') or {}
        p = r.get('p') or f['p']
        name = f.get('name') or f['p'].split('::')[-1]
        self.ext_seen[p] = self.ext_seen.get(p, 0) + 1
        c = C(self, it, f, p, name, args, st, fr, site, at, dest)
        m = getattr(self, 'm_' + name, None)
        if m is not None:
            res = m(c)
            if res is not None:
                if isinstance(res, list):
                    return res
                if res is DIV:
                    return []
                return [(c.st, res)]
        return [(c.st, self.fallback(c))]

    def fallback(self, c):
        """An external function without a model."""
        trivial = ('fmt', 'Arguments', 'panic', 'mem::drop', 'capacity', 'reserve', 'type_name',
                   'black_box', 'size_of')
        known = any(x in c.p for x in trivial)
        may = EMPTY
        cl = set()
        for a in c.args:
            may |= self.maydeep(c.st, a)
            cl |= cls_of(c.it.deref(c.st, a) if isinstance(a, Ref) else a)
        t = leafty(c.dest) if c.dest else '?'
        if not known:
            self.unknown.setdefault(c.p, set()).add(c.at)
            c.it.event('unknown', c.fr, c.at, callee=c.p)
            for a in c.args:
                if isinstance(a, Ref):
                    for x in a.alts:
                        if x[0] == 'P':
                            old = c.it.load1(c.st, x)
                            if isinstance(old, Leaf) and old.ty in ('transcript', 'rng'):
                                continue
                            if old is not None:
                                c.it.store(c.st, [x], addmay(old, may))
        return self.shape(c.dest, may, frozenset(cl) or frozenset('P'), (c.fr, c.site))

    def maydeep(self, st, v):
        n = 0
        r = may_of(v)
        if isinstance(v, Ref):
            for a in v.alts:
                if a[0] == 'P':
                    w = self.it.load1(st, a)
                    if w is not None:
                        r |= self.maydeep(st, w) if not isinstance(w, Ref) or n else may_of(w)
        return r

    def shape(self, ty, may, cls, key, depth=0):
        """An unknown value of type ty."""
        if ty is None or depth > 4:
            return Leaf(EMPTY, may, cls=cls, ty='?')
        k = ty.get('k')
        if k == 'ref':
            return Ref([('V', self.shape(ty['e'], may, cls, key, depth + 1))])
        if k in ('slice',) or (k == 'adt' and ty['p'] in VECS):
            e = self.shape(ty['e'] if k == 'slice' else ty['a'][0], may, cls, key, depth + 1)
            return Coll('vec', Leaf(EMPTY, may, sym(('u', key + (depth,))), ty='int'),
                        height(e) + 1, e)
        if k == 'tuple':
            return Agg('tuple', '', [(str(i), self.shape(t, may, cls, key + (i,), depth + 1))
                                     for i, t in enumerate(ty['a'])])
        if k == 'adt' and ty['p'].endswith('option::Option'):
            return opt(self.shape(ty['a'][0], may, cls, key, depth + 1), may=may)
        if k == 'never':
            return UNIT
        t = leafty(ty)
        if t == 'int' and not self.it.stk():
            # unknown, but one number
            return Leaf(EMPTY, may, sym(('u', key)), ty=t)
        return Leaf(EMPTY, may, cls=cls if t not in ('int', 'bool') else frozenset('P'), ty=t)

    # ------------------------------------------------------------ helpers
    def toiter(self, c, v):
        """IntoIterator."""
        st = c.st
        if isinstance(v, Iter):
            return v
        if isinstance(v, Agg) and v.name.endswith('RangeInclusive'):
            return rng(v.get('start'), plus(v.get('end'), ileaf(ONE)))
        if isinstance(v, Agg) and v.name.endswith('RangeFrom'):
            return rng(v.get('start'), ileaf(sym(INF)))
        if isinstance(v, Agg) and v.name.endswith('Range'):
            return rng(v.get('start'), v.get('end'))
        if isinstance(v, Coll):
            return seq(v, 'v')
        if isinstance(v, Enum):
            x = v.payload('Some')
            if x is not None and len(v.vs) == 1:
                return Iter('once', (x,))
            if x is None:
                return seq(empty(), 'v')
            return Iter('flatten', (Iter('once', (v,)), c.site))
        if isinstance(v, Ref):
            w = c.it.deref(st, v)
            if isinstance(w, Iter):
                if any(a[0] == 'P' for a in v.alts):
                    return v          # by_ref
                return w
            if isinstance(w, Agg) and 'Range' in w.name:
                return self.toiter(c, w)
            if isinstance(w, Coll):
                return seq(w, 'r')
            if isinstance(w, Enum):
                return self.toiter(c, w)
            m = self.maydeep(st, v)
            e = Leaf(EMPTY, m, ty='?')
            return seq(Coll('vec', unk((c.fr, c.site), EMPTY, m), 1, e), 'r')
        m = may_of(v)
        return seq(Coll('vec', unk((c.fr, c.site), EMPTY, m), 1, Leaf(EMPTY, m, ty='?')), 'v')

    def asiter(self, c, v):
        """The iterator in v, followed through references (consuming adaptors)."""
        if isinstance(v, Ref):
            w = c.it.deref(c.st, v)
            if isinstance(w, Iter):
                # consumed through a reference: whatever comes after is unknown
                for a in v.alts:
                    if a[0] == 'P':
                        c.it.store(c.st, [a], w.at(self.length(w)))
                return w
        r = self.toiter(c, v)
        return r if isinstance(r, Iter) else self.asiter(c, r)

    def matc(self, c, v):
        st, coll = self.mat(self.asiter(c, v), (c.st, c.fr, c.site, c.at))
        c.st = st
        return coll

    def call(self, c, f, args, tag=''):
        st, v = self.call1(f, args, (c.st, c.fr, c.site, c.at), str(c.site) + tag)
        c.st = st
        return v

    def seqval(self, c, v):
        """A Coll behind v, or None."""
        w = c.it.deref(c.st, v) if isinstance(v, Ref) else v
        if isinstance(w, Coll):
            return w
        if isinstance(w, Leaf) and w.ty == 'bytes' and w.const is not None:
            return None
        return None

    def ty0(self, c, i=0):
        a = c.f.get('a') or []
        return a[i] if i < len(a) else {}


DIV = object()


class C:
    """One call."""

    def __init__(self, m, it, f, p, name, args, st, fr, site, at, dest):
        self.m, self.it, self.f, self.p, self.name, self.args = m, it, f, p, name, args
        self.st, self.fr, self.site, self.at, self.dest = st, fr, site, at, dest

    def d(self, i):
        """Argument i with references removed."""
        v = self.args[i]
        return self.it.deref(self.st, v) if isinstance(v, Ref) else v

    def panic(self, kind, deps, ops=(), what=''):
        self.it.panic(self.st, self.fr, self.at, kind, deps, ops, what)

    def alts(self, i):
        v = self.args[i]
        return self.it.deref_alts(v) if isinstance(v, Ref) else [('V', v)]

    def put(self, i, v):
        self.it.store(self.st, self.alts(i), v)

    def has(self, *xs):
        return any(x in self.p for x in xs)


from . import model_fns  # noqa  (adds the m_* methods)
