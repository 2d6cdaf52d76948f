"""Models of single external functions, by name.  Each takes the call c and returns a value,
DIV (does not return), a list of (state, value), or None for 'no model here'."""
from .dom import *
from .vals import *
from .iters import *
from . import models
from .models import Models, DIV, leafty, is_group, SCALAR, POINTS, CPOINT, TRANSCRIPT


def model(*names):
    def deco(fn):
        for n in names:
            setattr(Models, 'm_' + n, fn)
        return fn
    return deco


def leafof(v):
    return v if isinstance(v, Leaf) else blur(v) if v is not None else Leaf(ty='?')


def isnum(c, i=0):
    """Argument i is an integer."""
    v = c.d(i)
    return isinstance(v, Leaf) and v.ty == 'int'


# ---------------------------------------------------------------- panics
@model('assert_failed', 'panic', 'panic_fmt', 'panic_explicit', 'panic_display', 'unreachable',
       'begin_panic', 'panic_str', 'panic_const', 'unwrap_failed', 'expect_failed',
       'panic_bounds_check', 'assert_failed_inner', 'panic_nounwind', 'abort', 'exit')
def _(self, c):
    deps = EMPTY
    for a in c.args:
        v = c.it.deref(c.st, a) if isinstance(a, Ref) else a
        if isinstance(v, Leaf) and v.ty in ('int', 'scalar', 'point', 'cpoint', 'bool'):
            deps |= may_of(v)
    c.panic('panic', deps)
    return DIV


# ---------------------------------------------------------------- identity-like
@model('deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'borrow_mut', 'as_slice',
       'as_mut_slice', 'by_ref', 'as_deref')
def _(self, c):
    v = c.args[0]
    if c.name in ('as_ref', 'as_mut', 'as_deref') and c.has('option::Option', 'result::Result'):
        w = c.d(0)
        if not isinstance(w, Enum):
            return None
        if c.name == 'as_mut' and isinstance(v, Ref) and all(a[0] == 'P' for a in v.alts):
            vs = []
            for n, fs, fa in w.vs:
                nf = tuple((f, Ref([('P', a[1], a[2], a[3] + (('d', n), ('f', f)))
                                    for a in v.alts])) for f, x in fs)
                vs.append((n, nf, fa))
            return Enum(w.name, vs, w.must, w.may)
        return Enum(w.name, [(n, tuple((f, Ref([('V', x)])) for f, x in fs), fa)
                             for n, fs, fa in w.vs], w.must, w.may)
    if isinstance(v, Ref):
        # a reference to a Vec, Box or reference
        w = c.it.load(c.st, c.it.deref_alts(v))
        if isinstance(w, Agg) and w.kind == 'box':
            return w.get('0')
        if isinstance(w, Ref) and c.name != 'by_ref':
            return w
        return v
    return v if isinstance(v, Iter) else Ref([('V', v)])


@model('clone', 'to_owned', 'to_vec', 'into_boxed_slice', 'into_vec', 'clone_into', 'cloned',
       'copied')
def _(self, c):
    if c.name in ('cloned', 'copied') and c.has('Iterator', 'iter::'):
        it = self.toiter(c, c.args[0])
        return Iter('cloned', (it,)) if isinstance(it, Iter) else None
    if c.name in ('cloned', 'copied'):
        w = c.d(0)
        if isinstance(w, Enum):
            return Enum(w.name, [(n, tuple((f, c.it.deref(c.st, x) if isinstance(x, Ref) else x)
                                           for f, x in fs), fa) for n, fs, fa in w.vs],
                        w.must, w.may)
        return None
    if c.name == 'clone_into':
        return None
    v = c.args[0]
    if isinstance(v, Ref):
        # clone of T through &T
        w = c.it.load(c.st, c.it.deref_alts(v))
        if isinstance(w, Leaf) and w.ty == 'transcript':
            c.it.event('clone_transcript', c.fr, c.at)
        v = w
    if isinstance(v, Coll):
        v = v.but(kind='vec' if v.kind == 'slice' else v.kind)
    return v


@model('from', 'into', 'try_from', 'try_into', 'identity', 'default', 'one', 'zero', 'new',
       'with_capacity', 'from_elem', 'as_usize', 'from_iter')
def _(self, c):
    n = c.name
    if n in ('one', 'zero', 'default', 'identity') and not c.args:
        t = leafty(c.dest) if c.dest else '?'
        if c.has('Scalar') or t == 'scalar':
            z = n != 'one'
            return Leaf(const='zero' if z else 'one', cls=frozenset('Z' if z else 'P'),
                        ty='scalar')
        if c.has('Ristretto', 'Edwards', 'Identity') or t in ('point', 'cpoint'):
            return Leaf(const='zero', cls=frozenset('Z'), ty=t if t != '?' else 'point')
        if c.has('Vec', 'BTreeSet', 'HashSet'):
            return empty('set' if c.has('Set') else 'vec')
        return None
    if n in ('new', 'with_capacity'):
        if c.has('Vec', 'BTreeSet', 'BTreeMap', 'HashSet', 'VecDeque'):
            return empty('set' if c.has('Set') else 'vec')
        if c.has('RangeInclusive'):
            return Agg('adt', 'std::ops::RangeInclusive',
                       [('start', c.args[0]), ('end', c.args[1])])
        if c.has('Box'):
            c.st.put('heap', (c.fr, c.site), c.args[0])
            return Agg('box', '', [('0', Ref([('P', 'heap', (c.fr, c.site), ())]))])
        if c.has('merlin::Transcript'):
            c.it.event('new_transcript', c.fr, c.at)
            t = 'own%s' % c.site
            c.st.tr.setdefault(t, (EMPTY, EMPTY))
            return Leaf(const=('tr', t), ty='transcript')
        return None
    if n == 'from_elem':
        e, k = c.args
        r = Coll('vec', k if isinstance(k, Leaf) else leafof(k), height(e) + 1, e)
        if c.it.watch:
            c.it.spread(c.fr, c.at, r)
        return r
    if n == 'from_iter':
        return collect(self, c)
    if n in ('from', 'into', 'try_from', 'try_into') and c.args:
        v = c.args[0]
        t = leafty(c.dest) if c.dest else '?'
        w = c.d(0)
        if t == 'scalar':
            w = leafof(w)
            if w.ty in ('int', 'bytes', '?'):
                c.it.event('reduce', c.fr, c.at, rfn=n, val=w, len=None, coll=None)
            k = None
            z = frozenset('P')
            if w.lin is not None and w.lin.is_const():
                k = {0: 'zero', 1: 'one'}.get(w.lin.c)
                if w.lin.c == 0:
                    z = frozenset('Z')
            elif w.ty != 'int':
                z = w.cls
            mo = frozenset([(w.lin.c, ())]) if w.lin is not None and w.lin.is_const() and \
                w.lin.c else w.mo if w.ty == 'scalar' else None
            return Leaf(w.must, w.may, const=k, cls=z, ty='scalar', mo=mo)
        if t == 'int' and isinstance(w, Leaf):
            return w
        if n.startswith('try'):
            if isinstance(w, Leaf):
                ok = w
                return Enum('std::result::Result',
                            [('Ok', (('0', ok),), EMPTY),
                             ('Err', (('0', Leaf(ty='?')),), EMPTY)], w.must, w.may)
            return None
        if isinstance(w, (Coll, Iter)):
            if c.dest and c.dest.get('k') == 'ref':
                return v
            return w
        if n == 'from' and c.has('From<T>') or n == 'into':
            return v
        return None
    return None


# ---------------------------------------------------------------- vectors
@model('len', 'count')
def _(self, c):
    if c.name == 'count':
        it = self.asiter(c, c.args[0])
        n = self.rest(it)
        return n
    w = c.d(0)
    if isinstance(w, Coll):
        return w.len
    if isinstance(w, Iter):
        return self.rest(w)
    if isinstance(w, Leaf) and w.ty == 'bytes':
        return ileaf(None) if w.const is None else Leaf(ty='int')
    return Leaf(EMPTY, may_of(w), ty='int')


@model('is_empty')
def _(self, c):
    w = c.d(0)
    n = w.len if isinstance(w, Coll) else Leaf(EMPTY, may_of(w), ty='int')
    return c.it.compare('eq', n, ILEAF0)


@model('push', 'push_back', 'insert', 'append', 'extend', 'extend_from_slice', 'resize',
       'truncate', 'clear', 'reverse', 'swap', 'fill', 'set_len')
def _(self, c):
    n = c.name
    alts = c.alts(0)
    w = c.it.load(c.st, alts)
    if n == 'fill' and not isinstance(w, Coll):
        return None
    if not isinstance(w, Coll):
        if len(c.args) > 1:
            m = EMPTY
            for a in c.args[1:]:
                m |= self.maydeep(c.st, a)
            if w is not None:
                c.it.store(c.st, alts, addmay(w, m))
        return UNIT
    if n in ('push', 'push_back'):
        if c.it.watch:
            c.it.stored(c.fr, c.at, tuple(a[1:3] for a in alts if a[0] == 'P'), c.args[1])
        c.it.store(c.st, alts, push(w, c.args[1]))
        return UNIT
    if n == 'insert':
        if w.kind == 'set':
            e = c.args[1]
            w2 = fit(w, e)
            s = union(list(w2.some) + [e])
            w2 = fit(w2, s).but(some=(s,), len_=unk(('ins', c.fr, c.site)))
            c.it.store(c.st, alts, w2)
            return Leaf(EMPTY, may_of(e) | may_of(w), ty='bool')
        i, e = c.args[1], c.args[2]
        if isinstance(i, Leaf):
            c.panic('insert', i.may | w.len.may, (i, w.len))
        if isinstance(i, Leaf) and i.lin is not None:
            a = subslice(w, ILEAF0, i)
            b = subslice(w, i, plus(w.len, i, -1))
            one = Coll('vec', ileaf(ONE), height(e) + 1, None, [(ZERO, e)])
            r = concat(concat(a, one), b)
        else:
            w2 = fit(w, e)
            s = union(list(w2.some) + [e])
            r = fit(w2, s).but(some=(s,), len_=plus(w.len, ileaf(ONE)))
        c.it.store(c.st, alts, r.but(kind=w.kind))
        return UNIT
    if n in ('append', 'extend', 'extend_from_slice'):
        if n == 'append':
            o = c.d(1)
            if isinstance(o, Coll):
                c.put(1, empty())
            else:
                o = Coll('vec', unk((c.fr, c.site)), 1, blur(o))
        else:
            v = c.args[1]
            o = self.matc(c, v)
            w = c.it.load(c.st, alts)
            b = bsym(o.bh)
            o = map_coll(o, lambda e: c.it.deref(c.st, e) if isinstance(e, Ref) and
                         not self.keepsref(w) else e)
        if w.kind == 'set':
            s = union([x for x in list(w.some) + elems_closed(o)])
            if s is not None:
                w = fit(w, s).but(some=(s,), len_=unk(('ext', c.fr, c.site)))
            c.it.store(c.st, alts, w)
            return UNIT
        c.it.store(c.st, alts, concat(w, o).but(kind=w.kind))
        return UNIT
    if n == 'resize':
        k, e = c.args[1], c.args[2]
        pad = Coll('vec', plus(k, w.len, -1), height(e) + 1, e)
        if c.it.watch:
            c.it.spread(c.fr, c.at, pad)
        if lcmp(k.lin, w.len.lin) & {'<'} and not ('>' in lcmp(k.lin, w.len.lin)):
            r = subslice(w, ILEAF0, k)
        else:
            r = concat(w, pad)
        c.it.store(c.st, alts, r.but(len_=k))
        return UNIT
    if n == 'truncate':
        k = c.args[1]
        c.it.store(c.st, alts, subslice(w, ILEAF0, min_leaf(w.len, k)))
        return UNIT
    if n == 'clear':
        c.it.store(c.st, alts, empty(w.kind))
        return UNIT
    if n == 'reverse':
        st, r = self.mat(Iter('rev', (seq(w, 'v'),)), (c.st, c.fr, c.site, c.at))
        c.st = st
        c.it.store(c.st, alts, r.but(kind=w.kind))
        return UNIT
    if n == 'swap':
        i, j = c.args[1], c.args[2]
        c.panic('index', i.may | j.may | w.len.may, (i, w.len))
        c.panic('index', j.may | w.len.may, (j, w.len))
        x, y = read(w, i), read(w, j)
        if x is not None and y is not None:
            w = write(write(w, i, y), j, x)
        c.it.store(c.st, alts, w)
        return UNIT
    if n == 'fill':
        e = c.args[1]
        w = Coll(w.kind, w.len, height(e) + 1, e)
        if c.it.watch:
            c.it.spread(c.fr, c.at, w)
        c.it.store(c.st, alts, w)
        return UNIT
    return None


def keepsref(self, w):
    for x in ([w.default] if w.default is not None else []) + [v for _, v in w.ovs]:
        return isinstance(x, Ref)
    return False


Models.keepsref = keepsref


def optlen(n, key=''):
    """Facts for 'the collection is (not) empty'."""
    nf = frozenset([('eq', n.must, EMPTY, n.lin, ZERO, 'int')])
    sf = frozenset([('lt', EMPTY, n.must, ZERO, n.lin, 'int')])
    return sf, nf


def optof(c, v, n, cond=None):
    """Some(v) if n > 0 (or whatever cond, the comparison leaf, says)."""
    r = lcmp(ZERO, n.lin) if n.lin is not None else {'<', '=', '>'}
    sf, nf = optlen(n)
    if cond is None and n.lin is not None and positive(c.st.passed, n.lin):
        r = {'<'}
    if cond is not None:
        sf, nf = cond.tf, cond.ff
        if is_true(cond):
            return some(v, must=cond.must, may=cond.may)
        if is_false(cond):
            return Enum(OPT, [('None', (), EMPTY)], cond.must, cond.may)
        return opt(v, sf, nf, cond.must, cond.may)
    if r == {'<'}:
        return some(v, must=n.must, may=n.may)
    if '<' not in r:
        return Enum(OPT, [('None', (), EMPTY)], n.must, n.may)
    return opt(v, sf, nf, n.must, n.may)


def positive(facts, n, deep=True):
    """Do the facts say that length n is not zero?  That of an argument is taken not to be."""
    if len(n.t) == 1 and not n.c and n.t[0][1] == 1 and n.t[0][0][0] == 'len' and \
            n.t[0][0][1][:1] == 'p' and not n.t[0][0][2]:
        return True
    for g in facts:
        if g[5] != 'int':
            continue
        if g[0] == 'pow2' and g[3] == n or g[0] == 'lt' and g[4] == n and g[3] is not None:
            return True
        if g[0] == 'le' and g[4] == n and g[3] is not None and '<' in lcmp(ZERO, g[3]) and \
                lcmp(ZERO, g[3]) == {'<'}:
            return True
        if g[0] == 'ne' and ZERO in g[3:5] and n in g[3:5]:
            return True
        if deep and g[0] == 'eq' and n in g[3:5]:
            o = g[3] if g[4] == n else g[4]
            if o is not None and (lcmp(ZERO, o) == {'<'} or positive(facts, o, False)):
                return True
    return False


@model('pop', 'pop_back', 'pop_front')
def _(self, c):
    alts = c.alts(0)
    w = c.it.load(c.st, alts)
    if not isinstance(w, Coll):
        return None
    n = w.len
    r = lcmp(ZERO, n.lin) if n.lin is not None else {'<', '=', '>'}
    if '<' not in r:
        return Enum(OPT, [('None', (), EMPTY)], n.must, n.may)
    i = n.but(lin=add(n.lin, const(-1)) if n.lin is not None else None)
    if c.name == 'pop_front':
        v = read(w, ILEAF0)
        rest = subslice(w, ileaf(ONE), i)
    else:
        v = read(w, i)
        rest = w.but(len_=i, ovs=[(p, x) for p, x in w.ovs if p != i.lin])
    if v is None:
        v = Leaf(ty='?')
    if r == {'<'}:
        c.it.store(c.st, alts, rest)
    else:
        c.it.store(c.st, alts, rest)
    return optof(c, v, n)


@model('remove', 'swap_remove')
def _(self, c):
    alts = c.alts(0)
    w = c.it.load(c.st, alts)
    if not isinstance(w, Coll):
        return None
    if w.kind == 'set':
        c.it.store(c.st, alts, w.but(len_=unk(('rm', c.fr, c.site), EMPTY, w.len.may)))
        return Leaf(EMPTY, may_of(w) | self.maydeep(c.st, c.args[1]), ty='bool')
    i = c.args[1]
    c.panic('index', i.may | w.len.may, (i, w.len))
    v = read(w, i)
    a = subslice(w, ILEAF0, i)
    b = subslice(w, plus(i, ileaf(ONE)), plus(plus(w.len, i, -1), ileaf(ONE), -1))
    c.it.store(c.st, alts, concat(a, b).but(kind=w.kind) if i.lin is not None else
               w.but(len_=plus(w.len, ileaf(ONE), -1)))
    return v if v is not None else Leaf(ty='?')


@model('split_off', 'drain')
def _(self, c):
    alts = c.alts(0)
    w = c.it.load(c.st, alts)
    if not isinstance(w, Coll):
        return None
    i = c.args[1]
    if c.name == 'drain':
        lo, hi = bounds(c, i, w)
        if lo is None:
            return None
        c.panic('slice', lo.may | hi.may | w.len.may, (hi, w.len, lo))
        mid = subslice(w, lo, plus(hi, lo, -1))
        c.it.store(c.st, alts, concat(subslice(w, ILEAF0, lo),
                                      subslice(w, hi, plus(w.len, hi, -1))).but(kind=w.kind))
        return seq(mid, 'v')
    c.panic('split', i.may | w.len.may, (i, w.len))
    c.it.store(c.st, alts, subslice(w, ILEAF0, i))
    return subslice(w, i, plus(w.len, i, -1))


@model('last', 'first', 'last_mut', 'first_mut', 'get', 'get_mut', 'max', 'min')
def _(self, c):
    n = c.name
    if n in ('max', 'min'):
        if c.has('Ord') and len(c.args) == 2:
            a, b = leafof(c.d(0)), leafof(c.d(1))
            l = None
            if a.lin is not None and b.lin is not None:
                r = lcmp(a.lin, b.lin)
                if '>' not in r:
                    l = b.lin if n == 'max' else a.lin
                elif '<' not in r:
                    l = a.lin if n == 'max' else b.lin
                else:
                    l = op(n, *sorted((a.lin, b.lin), key=repr))
            return Leaf(a.must | b.must, a.may | b.may, l, ty='int')
        it = self.matc(c, c.args[0])
        b = blur(union(elems_closed(it)) or Leaf(ty='?'))
        return opt(b.but(lin=None, const=None), may=b.may)
    if n == 'last' and c.has('Iterator'):
        w = self.matc(c, c.args[0])
    else:
        w = c.d(0)
    if isinstance(w, Iter) or not isinstance(w, Coll):
        return None
    k = w.len
    if n.startswith('last'):
        i = k.but(lin=add(k.lin, const(-1)) if k.lin is not None else None)
        cond = None
    elif n.startswith('first'):
        i, cond = ILEAF0, None
    else:
        i = c.args[1]
        if isinstance(i, Agg):
            lo, hi = bounds(c, i, w)
            if lo is None:
                return None
            cond = c.it.compare('le', hi, w.len)
            v = Ref([('V', subslice(w, lo, plus(hi, lo, -1)).but(kind='slice'))])
            return optof(c, v, k, cond)
        if not isinstance(i, Leaf):
            return None
        cond = c.it.compare('lt', i, k)
    if n.endswith('_mut'):
        v = Ref([('P', a[1], a[2], models_proj(a[3], ('x', i))) if a[0] == 'P' else
                 ('V', read(w, i)) for a in c.alts(0)])
    else:
        x = read(w, i)
        if n == 'last' and c.has('Iterator'):
            v = x
        else:
            v = Ref([('V', x if x is not None else Leaf(ty='?'))])
    return optof(c, v, k, cond)


def models_proj(path, pr):
    from .interp import addproj
    return addproj(path, pr)


def bounds(c, r, w):
    """Range argument -> (lo, hi) leaves."""
    if isinstance(r, Agg):
        nm = r.name.split('::')[-1]
        if nm == 'RangeFull' or nm == '':
            return ILEAF0, w.len
        if nm == 'RangeTo':
            return ILEAF0, r.get('end')
        if nm == 'RangeFrom':
            return r.get('start'), w.len
        if nm == 'Range':
            return r.get('start'), r.get('end')
        if nm == 'RangeInclusive':
            return r.get('start'), plus(r.get('end'), ileaf(ONE))
        if nm == 'RangeToInclusive':
            return ILEAF0, plus(r.get('end'), ileaf(ONE))
    return None, None


@model('index', 'index_mut')
def _(self, c):
    v = c.args[0]
    i = c.args[1]
    w = c.d(0)
    if isinstance(i, Ref):
        i = c.d(1)
    if not isinstance(w, Coll):
        m = self.maydeep(c.st, v) | may_of(i)
        x = Leaf(EMPTY, m, cls=cls_of(w) if w is not None else frozenset('P'),
                 ty=leafty(c.dest['e']) if c.dest and c.dest.get('k') == 'ref' else '?')
        c.panic('index', m, ())
        return Ref([('V', x)])
    if isinstance(i, Leaf):
        r = lcmp(i.lin, w.len.lin)
        if r != {'<'}:
            c.panic('index', i.may | w.len.may, (i, w.len))
            c.it.inside(c.st, i, w.len)
        if c.name == 'index_mut':
            return Ref([('P', a[1], a[2], models_proj(a[3], ('x', i))) if a[0] == 'P' else
                        ('V', read(a[1], i) if isinstance(a[1], Coll) else a[1])
                        for a in c.alts(0)])
        x = read(w, i)
        return Ref([('V', x if x is not None else Leaf(EMPTY, may_of(w), ty='?'))])
    lo, hi = bounds(c, i, w)
    if lo is None:
        return None
    n = plus(hi, lo, -1)
    if not (lo.lin == ZERO and hi.lin == w.len.lin) and not (
            '>' not in lcmp(lo.lin, hi.lin) and '>' not in lcmp(hi.lin, w.len.lin)):
        c.panic('slice', lo.may | hi.may | w.len.may, (hi, w.len, lo))
    if c.name == 'index_mut':
        full = lo.lin == ZERO and hi.lin == w.len.lin
        return Ref([a if full and a[0] == 'P' else
                    ('P', a[1], a[2], models_proj(a[3], ('sub', lo, n))) if a[0] == 'P' else
                    ('V', subslice(a[1], lo, n)) for a in c.alts(0)])
    return Ref([('V', subslice(w, lo, n).but(kind='slice'))])


@model('split_at', 'split_at_mut', 'split_first', 'split_last')
def _(self, c):
    w = c.d(0)
    if not isinstance(w, Coll):
        return None
    if c.name in ('split_first', 'split_last'):
        k = w.len
        m1 = plus(k, ileaf(ONE), -1)
        if c.name == 'split_first':
            x, r = read(w, ILEAF0), subslice(w, ileaf(ONE), m1)
        else:
            x, r = read(w, m1), subslice(w, ILEAF0, m1)
        return optof(c, tup(Ref([('V', x)]), Ref([('V', r.but(kind='slice'))])), k)
    i = c.args[1]
    if '>' in lcmp(i.lin, w.len.lin):
        c.panic('split', i.may | w.len.may, (i, w.len))
    n2 = plus(w.len, i, -1)
    if c.name == 'split_at':
        return tup(Ref([('V', subslice(w, ILEAF0, i).but(kind='slice'))]),
                   Ref([('V', subslice(w, i, n2).but(kind='slice'))]))
    al = c.alts(0)
    return tup(
        Ref([('P', a[1], a[2], models_proj(a[3], ('sub', ILEAF0, i))) if a[0] == 'P' else
             ('V', subslice(a[1], ILEAF0, i)) for a in al]),
        Ref([('P', a[1], a[2], models_proj(a[3], ('sub', i, n2))) if a[0] == 'P' else
             ('V', subslice(a[1], i, n2)) for a in al]))


@model('copy_from_slice', 'clone_from_slice')
def _(self, c):
    o = c.d(1)
    w = c.d(0)
    if isinstance(o, Coll) and isinstance(w, Coll):
        if lcmp(o.len.lin, w.len.lin) != {'='}:
            c.panic('copy', o.len.may | w.len.may, (o.len, w.len))
        c.put(0, o.but(kind=w.kind))
        return UNIT
    return None


@model('concat')
def _(self, c):
    w = c.d(0)
    if not isinstance(w, Coll):
        return None
    k = w.len.lin
    if k is not None and k.is_const() and k.c <= 16:
        r = empty()
        for i in range(k.c):
            x = c.it.deref(c.st, read(w, ileaf(const(i))))
            if not isinstance(x, Coll):
                return None
            r = concat(r, x)
        return r.but(kind='vec')
    it = Iter('flatten', (seq(w, 'v'), c.site))
    st, r = self.mat(it, (c.st, c.fr, c.site, c.at))
    c.st = st
    return map_coll(r, lambda e: c.it.deref(c.st, e))


@model('contains')
def _(self, c):
    w = c.d(0)
    x = leafof(c.d(1))
    mu = must_of(w) if w is not None else EMPTY
    if isinstance(w, Coll):
        mu |= w.len.must
    may = may_of(w) | x.may
    f = ('in', x.must, mu, x.lin, None, 'int')
    g = ('notin', x.must, mu, x.lin, None, 'int')
    return Leaf(x.must | mu, may, tf=frozenset([f]), ff=frozenset([g]), ty='bool')


# ---------------------------------------------------------------- boxes
@model('new_uninit')
def _(self, c):
    k = (c.fr, c.site)
    c.st.put('heap', k, Agg('mu', '', ()))
    return Agg('box', '', [('0', Ref([('P', 'heap', k, ())]))])


@model('box_assume_init_into_vec_unsafe', 'write', 'assume_init', 'box_new')
def _(self, c):
    if c.name == 'box_new':
        k = (c.fr, c.site)
        c.st.put('heap', k, c.args[0])
        return Agg('box', '', [('0', Ref([('P', 'heap', k, ())]))])
    if c.name == 'write':
        return None
    v = c.it.deref(c.st, c.args[0])
    n = 0
    while isinstance(v, Agg) and v.kind in ('mu', 'adt', 'union', 'variant') and n < 6 and v.fields:
        v = v.fields[0][1]
        n += 1
    if isinstance(v, Coll):
        return v.but(kind='vec')
    return None


# ---------------------------------------------------------------- integers
@model('is_power_of_two')
def _(self, c):
    x = leafof(c.d(0))
    return Leaf(x.must, x.may, tf=frozenset([('pow2', x.must, EMPTY, x.lin, None, 'int')]),
                ff=frozenset([('npow2', x.must, EMPTY, x.lin, None, 'int')]), ty='bool')


@model('next_power_of_two', 'trailing_zeros', 'leading_zeros', 'count_ones', 'pow', 'saturating_sub',
       'saturating_add', 'wrapping_add', 'wrapping_sub', 'wrapping_mul', 'checked_add',
       'checked_sub', 'checked_mul', 'checked_div', 'checked_rem', 'abs', 'rem_euclid',
       'max_value', 'min_value', 'ilog2', 'div_ceil', 'checked_next_power_of_two', 'checked_shl',
       'checked_ilog2', 'is_multiple_of', 'abs_diff')
def _(self, c):
    n = c.name
    xs = [leafof(c.d(i)) for i in range(len(c.args))]
    must = frozenset().union(*[x.must for x in xs]) if xs else EMPTY
    may = frozenset().union(*[x.may for x in xs]) if xs else EMPTY
    ls = [x.lin for x in xs]
    l = None
    if n == 'max_value':
        for k, b in (('u8', 8), ('u16', 16), ('u32', 32), ('u64', 64), ('usize', 64)):
            if '<impl %s>' % k in c.p:
                return ileaf(const((1 << b) - 1))
        return Leaf(ty='int')
    if n == 'is_multiple_of':
        return Leaf(must, may, ty='bool')
    if all(x is not None for x in ls):
        if n.endswith('_add') and len(ls) == 2:
            l = add(ls[0], ls[1])
        elif n in ('wrapping_sub', 'checked_sub'):
            l = sub(ls[0], ls[1])
        elif n == 'saturating_sub':
            l = sub(ls[0], ls[1]) if '<' not in lcmp(ls[0], ls[1]) else op('ssub', *ls)
        elif n.endswith('_mul'):
            l = c.it.arith('Mul', ls[0], ls[1])
        elif n == 'checked_div':
            l = c.it.arith('Div', ls[0], ls[1])
        elif n == 'trailing_zeros':
            l = op('tz', *ls)
        elif n == 'pow' and ls[0].is_const() and ls[1].is_const() and ls[1].c < 64:
            l = const(ls[0].c ** ls[1].c)
        else:
            l = op(n, *ls)
    r = Leaf(must, may, l, ty='int')
    if n.startswith('checked'):
        return opt(r, must=must, may=may)
    if n in ('pow',):
        c.panic('overflow', may, tuple(xs))
    return r


# ---------------------------------------------------------------- algebra
def scalarish(c, vs):
    return all(isinstance(v, Leaf) for v in vs)


def resty(c, a, b):
    t = leafty(c.dest) if c.dest else '?'
    if t != '?':
        return t
    if 'point' in (a.ty, b.ty):
        return 'point'
    if a.ty == b.ty:
        return a.ty
    return '?'


@model('add', 'sub', 'mul', 'neg', 'div', 'rem', 'add_assign', 'sub_assign', 'mul_assign',
       'invert', 'double', 'square', 'reduce', 'not', 'bitand', 'bitor', 'bitxor', 'shl', 'shr',
       'div_assign', 'shr_assign', 'shl_assign')
def _(self, c):
    n = c.name
    a = leafof(c.d(0))
    if n in ('neg', 'invert', 'double', 'square', 'reduce', 'not'):
        if n == 'not':
            return c.it.unop('Not', a, c.st)
        cl = a.cls
        if n == 'invert':
            cl = frozenset('P' if x == 'Z' else x for x in cl)
        if a.ty == 'int' and n == 'neg':
            return a.but(lin=scale(a.lin, -1) if a.lin is not None else None)
        k = a.const if a.const == 'zero' or (n == 'invert' and a.const == 'one') else None
        m = mo_of(a)
        mo = {'neg': lambda: mo_add(MO_ZERO, m, -1), 'invert': lambda: mo_inv(m),
              'double': lambda: mo_add(m, m), 'square': lambda: mo_mul(m, m),
              'reduce': lambda: m}[n]()
        return a.but(const=k, cls=cl, lin=None, mo=mo)
    b = leafof(c.d(1))
    base = n.replace('_assign', '')
    if a.ty == 'int' and b.ty == 'int' or base in ('rem', 'shl', 'shr', 'div', 'bitand', 'bitor',
                                                   'bitxor'):
        o = {'add': 'Add', 'sub': 'Sub', 'mul': 'Mul', 'div': 'Div', 'rem': 'Rem', 'shl': 'Shl',
             'shr': 'Shr', 'bitand': 'BitAnd', 'bitor': 'BitOr', 'bitxor': 'BitXor'}[base]
        r = c.it.binop(o, a, b, c.fr, c.st, c.at)
        if base in ('sub', 'add', 'mul') and not (base == 'sub' and '<' not in
                                                  lcmp(a.lin, b.lin)):
            c.panic('overflow', may_of(a) | may_of(b), (a, b))
    else:
        must, may = a.must | b.must, a.may | b.may
        k = None
        if base in ('add', 'sub'):
            cl = cls2(cadd, a.cls, b.cls)
            for x, y in ((a, b), (b, a)):
                if 'S' in x.cls and y.cls & {'R', 'M', 'B'} and 'point' not in (a.ty, b.ty):
                    c.it.event('mask', c.fr, c.at, secret=x, rand=y, stk=c.it.stk())
            if b.const == 'zero':
                k = a.const
            elif a.const == 'zero' and base == 'add':
                k = b.const
        else:
            cl = cls2(cmul, a.cls, b.cls)
            if 'zero' in (a.const, b.const):
                must, may, k = EMPTY, EMPTY, 'zero'
                cl = frozenset('Z')
            elif a.const == 'one':
                k = b.const
            elif b.const == 'one':
                k = a.const
        mo = None
        if base == 'mul':
            mo = mo_mul(mo_of(a), mo_of(b))
            c.it.event('mul', c.fr, c.at, a=a, b=b)
        elif base in ('add', 'sub'):
            mo = mo_add(mo_of(a), mo_of(b), 1 if base == 'add' else -1)
        r = Leaf(must, may, const=k, cls=cl, ty=resty(c, a, b) if not n.endswith('_assign')
                 else a.ty, mo=mo)
    if n.endswith('_assign'):
        c.put(0, r)
        return UNIT
    return r


def msum(leaves_, ty):
    must = may = EMPTY
    cs = set()
    for l in leaves_:
        must |= l.must
        may |= l.may | l.must
        cs |= l.cls
    return Leaf(must, may, cls=csum(cs) if cs else frozenset('Z'), ty=ty)


def sum_coll(c, coll, ty):
    es = [l for x in elems_closed(coll) for l in leaves(x) if l.ty not in ('len', 'tag')]
    c.it.event('sum', c.fr, c.at, coll=coll, ty=ty)
    if ty == 'int':
        r = msum(es, 'int')
        return Leaf(r.must, r.may | coll.len.may, sym(('u', ('sum', c.fr, c.site))), ty='int')
    r = msum(es, ty)
    return r.but(may=r.may | coll.len.may, mo=mo_sum(coll))


def mo_sum(coll):
    """The sum of a few elements at fixed positions; other elements stay unknown summands."""
    b = bsym(coll.bh)
    ps = [p for p, _ in coll.ovs]
    if coll.some or not all(isinstance(p, Lin) and p.is_const() for p in ps) or \
            len(set(ps)) != len(ps):
        return None
    n = coll.len.lin
    r = MO_ZERO
    for p, v in coll.ovs:
        if not isinstance(v, Leaf) or n is None or '<' not in lcmp(p, n) or \
                lcmp(p, n) != {'<'}:
            return None
        r = mo_add(r, mo_map(mo_of(v), Map({b: p})))
    if coll.default is not None and n != const(len(ps)):
        if n is None or not n.is_const() or n.c > MO_MAX or not isinstance(coll.default, Leaf):
            return mo_add(r, None)
        for i in range(n.c):
            if const(i) not in ps:
                r = mo_add(r, mo_map(mo_of(coll.default), Map({b: const(i)})))
    return r


@model('sum', 'product')
def _(self, c):
    w = self.matc(c, c.args[0])
    w = map_coll(w, lambda e: c.it.deref(c.st, e) if isinstance(e, Ref) else e)
    t = leafty(c.dest) if c.dest else '?'
    r = sum_coll(c, w, t)
    if c.name == 'product':
        es = cls_of(w)
        r = r.but(cls=frozenset(x for x in es) or frozenset('P'))
    return r


@model('vartime_multiscalar_mul', 'multiscalar_mul', 'optional_multiscalar_mul',
       'vartime_double_scalar_mul_basepoint')
def _(self, c):
    if c.name.startswith('vartime_double'):
        return None
    a = self.matc(c, c.args[0])
    b = self.matc(c, c.args[1])
    a = map_coll(a, lambda e: c.it.deref(c.st, e) if isinstance(e, Ref) else e)
    b = map_coll(b, lambda e: c.it.deref(c.st, e) if isinstance(e, Ref) else e)
    r = lcmp(a.len.lin, b.len.lin)
    if r != {'='}:
        c.panic('msm', a.len.may | b.len.may, (a.len, b.len))
    c.st.passed = c.st.passed | {('eq', a.len.must, b.len.must, a.len.lin, b.len.lin, 'int')}

    def mk(x, y):
        isopt = isinstance(y, Enum)
        if isopt:
            y = y.payload('Some') or Leaf(ty='point')
        x, y = leafof(x), leafof(y)
        c.it.event('mul', c.fr, c.at, a=x, b=y)
        if 'zero' in (x.const, y.const):
            return Leaf(cls=frozenset('Z'), const='zero', ty='point')
        return Leaf(x.must | y.must, x.may | y.may, cls=cls2(cmul, x.cls, y.cls), ty='point',
                    mo=mo_mul(mo_of(x), mo_of(y)))
    z = zip_colls(a, b, mk, same=True)
    v = sum_coll(c, z, 'point')
    c.it.event('msm', c.fr, c.at, a=a, b=b, stk=c.it.stk())
    if c.name.startswith('optional'):
        m = may_of(b)
        return opt(v, may=m)
    return v


@model('compress', 'as_bytes', 'to_bytes', 'to_owned_bytes', 'into_bytes', 'as_ptr')
def _(self, c):
    w = c.d(0)
    if c.name == 'as_ptr' or w is None:
        return None
    if c.name == 'compress':
        return leafof(w).but(ty='cpoint')
    if isinstance(w, Leaf) and w.ty in ('scalar', 'cpoint', 'bytes', 'str', '?', 'point'):
        if w.ty == 'scalar':
            c.it.event('tobytes', c.fr, c.at, val=w)
        l = w.but(ty='bytes')
        return Ref([('V', l)]) if c.name == 'as_bytes' else l
    if isinstance(w, Leaf):
        l = Leaf(w.must, w.may, w.lin, cls=w.cls, ty='bytes')
        return l
    return None


@model('decompress', 'from_canonical_bytes')
def _(self, c):
    w = leafof(c.d(0))
    t = 'point' if c.name == 'decompress' else 'scalar'
    v = w.but(ty=t, const=None, lin=None, mo=w.mo)
    f = frozenset([('dec', w.must, EMPTY, None, None, t)])
    g = frozenset([('ndec', w.must, EMPTY, None, None, t)])
    return opt(v, f, g, w.must, w.may)


@model('from_slice', 'from_bits', 'from_bytes_mod_order', 'from_bytes_mod_order_wide',
       'from_hash', 'hash_from_bytes', 'from_uniform_bytes')
def _(self, c):
    w = c.d(0)
    b = blur(w) if w is not None else Leaf(ty='?')
    t = leafty(c.dest) if c.dest else '?'
    n = w.len.lin if isinstance(w, Coll) else None
    c.it.event('reduce', c.fr, c.at, rfn=c.name, val=b, len=n, coll=w)
    mo = None
    if c.name == 'from_bytes_mod_order_wide' and n == const(64) and len(b.must) == 1:
        (r, q), = b.must
        if r.startswith('C:') and all(isinstance(x, (str, Lin)) for x in q[:-1]):
            mo = mo_var(r, q[:-1])
    return Leaf(b.must, b.may, cls=frozenset('P'), ty=t, mo=mo)


@model('eq', 'ne', 'ct_eq')
def _(self, c):
    a, b = c.d(0), c.d(1)
    o = 'eq' if c.name != 'ne' else 'ne'
    if isinstance(a, Leaf) and isinstance(b, Leaf) and a.ty == 'int' and b.ty == 'int':
        return c.it.compare(o, a, b)
    if isinstance(a, Leaf) and isinstance(b, Leaf) and a.ty == 'bool' and b.ty == 'bool':
        return c.it.compare(o, a, b)
    if isinstance(a, Agg) and isinstance(b, Agg) and c.p.find('tuple') >= 0:
        pass
    k = kind_of(a)
    f = eqfact('eq', a, b, k)
    g = eqfact('ne', a, b, k)
    must, may = must_of(a) | must_of(b), may_of(a) | may_of(b)
    c.it.event('eq', c.fr, c.at, a=a, b=b, stk=c.it.stk(), op=o)
    if o == 'ne':
        f, g = g, f
    return Leaf(must, may, tf=frozenset([f]), ff=frozenset([g]), ty='bool')


def eqfact(o, a, b, k):
    def m(v):
        # comparisons with zero and one are told apart
        if isinstance(v, Leaf) and v.const in ('zero', 'one') and v.ty != 'int':
            return v.must | {('K:' + v.const, ())}
        return must_of(v)
    return (o, m(a), m(b), a.lin if isinstance(a, Leaf) else None,
            b.lin if isinstance(b, Leaf) else None, k)


@model('lt', 'le', 'gt', 'ge', 'cmp', 'partial_cmp')
def _(self, c):
    a, b = leafof(c.d(0)), leafof(c.d(1))
    if c.name in ('cmp', 'partial_cmp'):
        return None
    return c.it.compare(c.name, a, b)


@model('is_identity', 'is_zero')
def _(self, c):
    a = leafof(c.d(0))
    z = Leaf(const='zero', ty=a.ty)
    return Leaf(a.must, a.may, tf=frozenset([eqfact('eq', a, z, a.ty)]),
                ff=frozenset([eqfact('ne', a, z, a.ty)]), ty='bool')


@model('unwrap_u8')
def _(self, c):
    return c.d(0)


# ---------------------------------------------------------------- transcripts and randomness
def trleaf(c, i=0):
    """Transcript identity of argument i."""
    v = c.d(i)
    if isinstance(v, Leaf) and v.const is not None and v.const[0] == 'tr':
        return v.const[1]
    return None


def label(c, v):
    w = c.it.deref(c.st, v) if isinstance(v, Ref) else v
    if isinstance(w, Leaf) and w.const is not None and w.const[0] in ('bytes', 'str'):
        return str(w.const[1])
    return '?'


@model('append_message', 'append_u64', 'commit_bytes')
def _(self, c):
    t = trleaf(c)
    lab = label(c, c.args[1])
    w = c.d(2)
    b = blur(w) if w is not None else Leaf(ty='?')
    kind = 'u64' if c.name == 'append_u64' else 'msg'
    c.it.event('absorb', c.fr, c.at, tr=t, label=lab, val=b, stk=c.it.stk(), what=kind,
               node=c.st.node, ctl=c.st.pcmay(), one=isinstance(w, Leaf))
    old = c.st.tr.get(t, (EMPTY, EMPTY))
    c.st.tr[t] = (old[0] | b.must, old[1] | b.may | b.must)
    c.it.move(c.st, (c.fr, 'a', c.site, c.it.stk()), kind, lab)
    return UNIT


@model('challenge_bytes')
def _(self, c):
    t = trleaf(c)
    lab = label(c, c.args[1])
    alts = c.alts(2)
    w = c.it.load(c.st, alts)
    old = c.st.tr.get(t, (EMPTY, EMPTY))
    v0 = ('v', ('sq', c.fr, c.site))
    VEC_MIN[v0[1]] = 0
    at_ = frozenset([('C:' + lab, c.it.stk() + (sym(v0),))])
    n = w.len if isinstance(w, Coll) else Leaf(ty='int')
    c.it.event('squeeze', c.fr, c.at, tr=t, label=lab, absorbed=old, stk=c.it.stk(),
               len=n.lin, node=c.st.node)
    e = Leaf(at_, at_, ty='int')
    if isinstance(w, Coll):
        c.it.store(c.st, alts, mkcoll(w.kind, n, e, v0))
    else:
        c.it.store(c.st, alts, e.but(ty='bytes'))
    c.it.move(c.st, (c.fr, 's', c.site, c.it.stk()), 'chal', lab)
    return UNIT


@model('build_rng')
def _(self, c):
    return None


@model('thread_rng', 'from_entropy')
def _(self, c):
    src = c.p
    return Leaf(const=('rng', c.name), ty='rng')


def rngsrc(c, i):
    v = c.d(i)
    if isinstance(v, Leaf) and v.ty == 'rng' and v.const is not None:
        return v.const[1]
    if isinstance(v, Agg) and 'OsRng' in v.name:
        return 'OsRng'
    if isinstance(v, Leaf) and v.ty == '?':
        t = c.it
    return 'unknown'


@model('random')
def _(self, c):
    if not c.has('Scalar', 'Ristretto'):
        return None
    t = 'scalar' if c.has('Scalar') else 'point'
    a = frozenset([('R:%s@%s' % (c.fr, c.site), c.it.stk())])
    c.it.event('rng', c.fr, c.at, src=rngsrc(c, 0), atom=next(iter(a)), stk=c.it.stk())
    return Leaf(a, a, cls=frozenset('R'), ty=t)


@model('fill_bytes', 'try_fill_bytes', 'gen', 'gen_range', 'next_u32', 'next_u64', 'fill')
def _(self, c):
    if not c.has('rand', 'Rng'):
        return None
    a = frozenset([('r:%s@%s' % (c.fr, c.site), c.it.stk())])
    c.it.event('rawrng', c.fr, c.at, src=rngsrc(c, 0), callee=c.p)
    e = Leaf(a, a, cls=frozenset('R'), ty='?')
    if c.name in ('fill_bytes', 'try_fill_bytes', 'fill'):
        al = c.alts(1)
        w = c.it.load(c.st, al)
        if isinstance(w, Coll):
            c.it.store(c.st, al, Coll(w.kind, w.len, 1, e))
        return UNIT
    return e.but(ty=leafty(c.dest) if c.dest else '?')


# ---------------------------------------------------------------- options and results
REJ = {'None', 'Err'}


def opt_in(c, i=0):
    v = c.d(i)
    from .interp import known
    return known(c.st, v) if isinstance(v, Enum) else None


@model('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'unwrap_unchecked',
       'expect_err', 'unwrap_err')
def _(self, c):
    v = opt_in(c)
    n = c.name
    if v is None:
        w = c.d(0)
        m = may_of(w)
        c.panic('unwrap', m)
        return self.shape(c.dest, m, cls_of(w) if w is not None else frozenset('P'),
                          (c.fr, c.site))
    good = [x for x in v.vs if (x[0] in REJ) == n.endswith('_err')]
    bad = [x for x in v.vs if (x[0] in REJ) != n.endswith('_err')]
    if n in ('unwrap', 'expect', 'unwrap_err', 'expect_err', 'unwrap_unchecked'):
        if bad:
            c.panic('unwrap', v.may | v.must)
        if not good:
            return DIV
        c.st.passed = c.st.passed | good[0][2]
        return good[0][1][0][1] if good[0][1] else UNIT
    if not bad and good:
        return good[0][1][0][1]
    if n == 'unwrap_or':
        d = c.args[1]
    elif n == 'unwrap_or_else':
        d = self.call(c, c.args[1], [x[1][0][1] for x in bad if x[1]])
    else:
        d = self.shape(c.dest, EMPTY, frozenset('Z'), (c.fr, c.site))
    if not good:
        return d
    return join(good[0][1][0][1], d, Ctl(v.may | v.must, good[0][2], bad[0][2],
                                         (c.fr[-60:], 'uo', c.site)))


@model('is_some', 'is_none', 'is_ok', 'is_err')
def _(self, c):
    v = opt_in(c)
    if v is None:
        return Leaf(EMPTY, may_of(c.d(0)), ty='bool')
    pos = c.name in ('is_some', 'is_ok')
    g = [x for x in v.vs if x[0] not in REJ]
    b = [x for x in v.vs if x[0] in REJ]
    if not g or not b:
        return bleaf((not b) == pos).but(must=v.must, may=v.may)
    gf, bf = g[0][2], b[0][2]
    return Leaf(v.must, v.may, tf=gf if pos else bf, ff=bf if pos else gf, ty='bool')


@model('branch')
def _(self, c):
    v = opt_in(c)
    if v is None:
        m = may_of(c.d(0))
        return Enum('std::ops::ControlFlow', [
            ('Continue', (('0', Leaf(EMPTY, m, ty='?')),), EMPTY),
            ('Break', (('0', Leaf(EMPTY, m, ty='?')),), EMPTY)], EMPTY, m)
    vs = []
    for n, fs, fa in v.vs:
        if n in REJ:
            vs.append(('Break', (('0', Enum(v.name, [(n, fs, EMPTY)])),), fa))
        else:
            vs.append(('Continue', (('0', fs[0][1] if fs else UNIT),), fa))
    return Enum('std::ops::ControlFlow', vs, v.must, v.may)


@model('from_residual')
def _(self, c):
    v = c.d(0)
    if isinstance(v, Enum):
        return Enum(c.dest['p'] if c.dest and 'p' in c.dest else v.name, v.vs, v.must, v.may)
    return None


@model('from_output')
def _(self, c):
    return Enum(OPT, [('Some' if 'ption' in c.p else 'Ok', (('0', c.args[0]),), EMPTY)])


@model('ok_or', 'ok_or_else', 'ok', 'err', 'map_err')
def _(self, c):
    v = opt_in(c)
    if v is None:
        return None
    vs = []
    for n, fs, fa in v.vs:
        if c.name in ('ok_or', 'ok_or_else'):
            vs.append(('Err', (('0', Leaf(ty='?')),), fa) if n == 'None' else ('Ok', fs, fa))
        elif c.name == 'ok':
            vs.append(('None', (), fa) if n == 'Err' else ('Some', fs, fa))
        elif c.name == 'map_err':
            vs.append(('Err', (('0', Leaf(ty='?')),), fa) if n == 'Err' else (n, fs, fa))
        else:
            return None
    return Enum('std::result::Result' if c.name != 'ok' else OPT, vs, v.must, v.may)


@model('map', 'and_then', 'filter', 'zip', 'or', 'or_else', 'map_or', 'map_or_else', 'and', 'take',
       'flatten', 'is_some_and', 'is_none_or', 'xor', 'skip', 'rev', 'chain', 'enumerate', 'step_by',
       'inspect', 'flat_map', 'filter_map', 'take_while', 'skip_while', 'map_while', 'peekable',
       'fuse', 'cycle', 'scan', 'zip_eq')
def _(self, c):
    n = c.name
    if c.has('option::Option', 'result::Result') and 'Iterator' not in c.p:
        return optmodel(self, c)
    if c.p.startswith('std::mem') or c.p.startswith('core::mem'):
        if n == 'take':
            alts = c.alts(0)
            v = c.it.load(c.st, alts)
            c.it.store(c.st, alts, empty() if isinstance(v, Coll) else Leaf(
                const='zero', cls=frozenset('Z'), ty=getattr(v, 'ty', '?')))
            return v
        return None
    it = self.toiter(c, c.args[0])
    if isinstance(it, Ref):
        # an adaptor over a borrowed iterator: the elements are taken from it
        it = c.it.deref(c.st, it)
        for a in c.alts(0):
            if a[0] == 'P':
                k = it.args[1] if False else None
                if n == 'take':
                    c.it.store(c.st, [a], it.at(plus(it.pos, c.args[1])))
                else:
                    c.it.store(c.st, [a], it.at(self.length(it)))
    key = '%s@%s' % (c.fr, c.site)
    if n == 'map':
        return Iter('map', (it, c.args[1], key))
    if n == 'inspect':
        return Iter('inspect', (it, c.args[1], key))
    if n == 'zip':
        o = self.toiter(c, c.args[1])
        if isinstance(o, Ref):
            o = c.it.deref(c.st, o)
        return Iter('zip', (it, o))
    if n == 'chain':
        o = self.toiter(c, c.args[1])
        if isinstance(o, Ref):
            o = c.it.deref(c.st, o)
        return Iter('chain', (it, o))
    if n == 'take':
        return Iter('take', (it, c.args[1]))
    if n == 'skip':
        return Iter('skip', (it, c.args[1]))
    if n == 'rev':
        return Iter('rev', (it,))
    if n == 'enumerate':
        return Iter('enumerate', (it,))
    if n == 'step_by':
        k = c.args[1]
        if isinstance(k, Leaf) and k.lin == ONE:
            return it
        return Iter('stepby', (it, k))
    if n == 'filter':
        return Iter('filter', (it, c.args[1], key, c.at))
    if n == 'flatten':
        return Iter('flatten', (it, key))
    if n == 'flat_map':
        return Iter('flatten', (Iter('map', (it, c.args[1], key)), key))
    if n in ('filter_map', 'map_while'):
        return Iter('flatten', (Iter('map', (it, c.args[1], key)), key))
    if n in ('take_while', 'skip_while'):
        c.it.event('cut', c.fr, c.at, cut=n)
        return Iter('filter', (it, c.args[1], key, c.at))
    if n in ('peekable', 'fuse'):
        return it
    return None


def optmodel(self, c):
    n = c.name
    v = opt_in(c)
    if v is None:
        return None
    g = [x for x in v.vs if x[0] not in REJ]
    b = [x for x in v.vs if x[0] in REJ]
    if n == 'take':
        alts = c.alts(0)
        c.it.store(c.st, alts, NONE)
        return v
    if n in ('map', 'and_then', 'filter', 'is_some_and', 'is_none_or', 'map_or', 'map_or_else'):
        f = c.args[-1]
        if not g:
            if n in ('map', 'and_then', 'filter'):
                return Enum(v.name, b, v.must, v.may)
        r = None
        if g:
            keep = c.st.passed
            c.st.passed = c.st.passed | g[0][2]
            x = g[0][1][0][1]
            r = self.call(c, f, [Ref([('V', x)])] if n == 'filter' else [x])
            c.st.passed = c.st.passed & keep if b else c.st.passed
        if n == 'map':
            return Enum(v.name, [(g[0][0], (('0', r),), g[0][2])] + b, v.must, v.may)
        if n == 'and_then':
            if isinstance(r, Enum):
                vs = {}
                for a, fs, fa in r.vs:
                    vs[a] = (a, fs, fa | g[0][2] if a not in REJ else EMPTY)
                for a, fs, fa in b:
                    if a not in vs:
                        vs[a] = (a, fs, fa)
                    else:
                        vs[a] = (a, vs[a][1], EMPTY)
                return Enum(v.name, list(vs.values()), v.must, v.may | r.may)
            return opt(blur(r), may=v.may | may_of(r))
        if n == 'filter':
            p = r if isinstance(r, Leaf) else Leaf(ty='bool')
            return opt(x, g[0][2] | p.tf, EMPTY, v.must, v.may | p.may)
        if n in ('is_some_and', 'is_none_or'):
            d = bleaf(n == 'is_none_or')
        elif n == 'map_or':
            d = c.args[1]
        else:
            d = self.call(c, c.args[1], [x[1][0][1] for x in b if x[1]], 'e')
        if not g:
            return d
        if not b:
            return r
        return join(r, d, Ctl(v.may | v.must, g[0][2], b[0][2], (c.fr[-60:], 'mo', c.site)))
    if n == 'zip':
        o = opt_in(c, 1)
        if o is None:
            return None
        h = [x for x in o.vs if x[0] not in REJ]
        if not g or not h:
            return NONE
        nf = [('None', (), EMPTY)] if b or any(x[0] in REJ for x in o.vs) else []
        return Enum(OPT, [('Some', (('0', tup(g[0][1][0][1], h[0][1][0][1])),),
                           g[0][2] | h[0][2])] + nf, v.must | o.must, v.may | o.may)
    if n == 'flatten':
        if not g:
            return v
        x = g[0][1][0][1]
        if isinstance(x, Enum):
            vs = {a: (a, fs, fa | g[0][2] if a not in REJ else EMPTY) for a, fs, fa in x.vs}
            for a, fs, fa in b:
                vs.setdefault(a, (a, fs, fa))
            return Enum(v.name, list(vs.values()), v.must | x.must, v.may | x.may)
        return None
    if n in ('or', 'or_else', 'and', 'xor'):
        if n == 'or_else':
            o = self.call(c, c.args[1], [x[1][0][1] for x in b if x[1]])
        else:
            o = c.d(1)
        if not isinstance(o, Enum):
            return None
        if n == 'and':
            vs = {a: (a, fs, fa | (g[0][2] if g and a not in REJ else EMPTY)) for a, fs, fa in o.vs}
            for a, fs, fa in b:
                vs.setdefault(a, (a, fs, fa))
            return Enum(v.name, list(vs.values()), v.must, v.may | o.may)
        return join(v, o, Ctl(v.may))
    return None


# ---------------------------------------------------------------- iterators
@model('iter', 'into_iter', 'iter_mut', 'chunks', 'chunks_exact', 'windows', 'once', 'repeat',
       'empty', 'repeat_n', 'keys', 'values')
def _(self, c):
    n = c.name
    if n == 'once':
        return Iter('once', (c.args[0],))
    if n == 'repeat':
        if not c.has('iter'):
            return None
        return Iter('repeat', (c.args[0],))
    if n == 'repeat_n':
        return Iter('take', (Iter('repeat', (c.args[0],)), c.args[1]))
    if n == 'empty':
        return seq(empty(), 'v')
    if n in ('chunks', 'chunks_exact', 'windows'):
        w = c.d(0)
        if not isinstance(w, Coll):
            return None
        k = c.args[1]
        if not (k.lin is not None and k.lin.is_const() and k.lin.c > 0):
            c.panic('zero', k.may, (k,))
        if n == 'chunks_exact':
            return Iter('chunks', (w.but(kind='slice'), k, ileaf(ONE)))
        return Iter(n, (w.but(kind='slice'), k))
    v = c.args[0]
    if n == 'iter_mut' or (n == 'into_iter' and isinstance(v, Ref) and
                           self.ty0(c).get('k') == 'ref' and self.ty0(c).get('m')):
        w = c.d(0)
        if isinstance(w, Coll) and any(a[0] == 'P' for a in v.alts):
            return Iter('mseq', (v, w.len))
        if isinstance(w, Enum):
            return None
    it = self.toiter(c, v)
    return it


@model('next', 'nth', 'next_back', 'peek')
def _(self, c):
    if c.name == 'next':
        return self.next_value(c.st, c.args[0], (c.st, c.fr, c.site, c.at))
    it = c.d(0)
    if not isinstance(it, Iter):
        return None
    if c.name == 'nth':
        k = c.args[1]
        n = self.rest(it)
        st, v = self.elem(it, k, (c.st, c.fr, c.site, c.at))
        c.st = st
        cond = c.it.compare('lt', k, n)
        c.put(0, it.at(plus(plus(it.pos, k), ileaf(ONE))))
        return optof(c, v, n, cond)
    if c.name == 'next_back':
        n = self.rest(it)
        st, v = self.elem(it, plus(n, ileaf(ONE), -1), (c.st, c.fr, c.site, c.at))
        c.st = st
        c.put(0, Iter('take', (it, plus(n, ileaf(ONE), -1))))
        return optof(c, v, n)
    return None


def elemtype_none(e):
    return isinstance(e, Enum) and any(n in REJ for n, _, _ in e.vs)


def collect(self, c):
    w = self.matc(c, c.args[0])
    t = c.dest or {}
    if t.get('k') == 'adt' and (t['p'].endswith('option::Option') or
                                t['p'].endswith('result::Result')):
        inner = t['a'][0]
        parts = ([w.default] if w.default is not None else []) + [v for _, v in w.ovs] + \
            list(w.some)
        must = may = facts = nfacts = None
        must, may, facts = EMPTY, EMPTY, EMPTY
        reject = False

        def pay(e):
            if isinstance(e, Enum):
                for n, fs, fa in e.vs:
                    if n not in REJ:
                        return fs[0][1] if fs else UNIT
                return Leaf(ty='?')
            return blur(e)
        for e in elems_closed(w):
            if isinstance(e, Enum):
                must |= e.must
                may |= e.may | e.must
                for n, fs, fa in e.vs:
                    if n in REJ:
                        reject = True
                    else:
                        facts |= fa
            else:
                may |= may_of(e)
                reject = True
        good = shapecoll(self, c, map_coll(w, pay), inner)
        gn, bn = ('Some', 'None') if 'ption' in t['p'] else ('Ok', 'Err')
        vs = [(gn, (('0', good),), facts)]
        if reject:
            vs.append((bn, () if bn == 'None' else (('0', Leaf(EMPTY, may, ty='?')),), EMPTY))
        return Enum(t['p'], vs, must, may)
    r = shapecoll(self, c, w, t)
    if c.it.watch:
        c.it.spread(c.fr, c.at, r)
    return r


def shapecoll(self, c, w, t):
    if t.get('k') == 'adt' and 'Set' in t.get('p', ''):
        u = union(elems_closed(w))
        n = Leaf(EMPTY, may_of(w), sym(('u', ('set', c.fr, c.site))), ty='int')
        if u is None:
            return empty('set')
        # element order and number differ from the source's
        b = bsym(w.bh)
        parts = []
        for q, e in segs(w):
            parts.append(at(e, b, q) if isinstance(q, Lin) else
                         mixmap(w, frozenset([b])).val(e))
        parts += [mixmap(w, frozenset([b])).val(e) for e in w.some]
        u = union(parts)
        if isinstance(u, Leaf) and u.ty == 'int':
            # values are kept, their order is not: an own symbol per position
            u = u.but(lin=sym(('val', 'set@%s@%s' % (c.fr, c.site), (sym(b),))))
        return Coll('set', n, max(w.bh, height(u) + 1), lift(u, w.bh, max(w.bh, height(u) + 1)))
    return w.but(kind='vec')


@model('collect', 'unzip', 'partition', 'collect_vec')
def _(self, c):
    if c.name == 'unzip':
        w = self.matc(c, c.args[0])

        def pick(i):
            return lambda e: (e.get(i) if isinstance(e, Agg) else blur(e))
        return tup(map_coll(w, pick('0')), map_coll(w, pick('1')))
    if c.name == 'partition':
        w = self.matc(c, c.args[0])
        n = unk((c.fr, c.site, 'pt'), EMPTY, may_of(w))
        return tup(w.but(len_=n), w.but(len_=n))
    return collect(self, c)


@model('any', 'all')
def _(self, c):
    w = self.matc(c, c.args[0])
    st, q = self.map_parts(w, c.args[1], (c.st, c.fr, c.site, c.at), 'p')
    c.st = st
    must = may = EMPTY
    tf = ff = EMPTY
    for l in (x for e in elems_closed(q) for x in leaves(e)):
        if l.ty == 'len':
            continue
        must |= l.must
        may |= l.may | l.must
        tf |= l.tf
        ff |= l.ff
    may |= w.len.may
    if q.default is None and not q.ovs and not q.some:
        return bleaf(c.name == 'all')
    cs = {l.const for e in elems_closed(q) for l in leaves(e) if l.ty != 'len'}
    k = None
    if c.name == 'all' and cs == {('bool', True)}:
        k = ('bool', True)
    if c.name == 'any' and cs == {('bool', False)}:
        k = ('bool', False)
    if c.name == 'any':
        return Leaf(must, may, const=k, ff=ff, ty='bool')
    return Leaf(must, may, const=k, tf=tf, ty='bool')


@model('find', 'position', 'find_map', 'rposition')
def _(self, c):
    w = self.matc(c, c.args[0])
    may = may_of(w)
    parts = elems_closed(w)
    u = union(parts) if parts else Leaf(ty='?')
    if c.name in ('position', 'rposition'):
        return opt(Leaf(EMPTY, may, ty='int'), may=may)
    if c.name == 'find_map':
        return self.shape(c.dest, may, cls_of(w), (c.fr, c.site))
    return opt(u, may=may)


@model('for_each', 'fold', 'try_fold', 'try_for_each', 'reduce')
def _(self, c):
    n = c.name
    if n in ('try_fold', 'try_for_each'):
        return None
    it = self.asiter(c, c.args[0])
    f = c.args[-1]
    nf = '%s/%s%s' % (c.fr, n, c.site)
    st = c.st
    if n == 'reduce':
        w = self.matc(c, c.args[0])
        st = c.st
        x0 = read(w, ILEAF0)
        it = seq(subslice(w, ileaf(ONE), plus(w.len, ileaf(ONE), -1)), 'v')
        if x0 is None:
            return NONE
        st.put(nf, 3, x0)
    elif n == 'fold':
        st.put(nf, 3, c.args[1])
    st.put(nf, 1, it)

    def body(s, v):
        if n == 'for_each':
            s, r = self.call1(f, [v], (s, nf, c.site, c.at), 'b')
        else:
            s, r = self.call1(f, [s.get(nf, 3), v], (s, nf, c.site, c.at), 'b')
            s.put(nf, 3, r)
        return [(s, None)]
    st = self.for_loop(nf, 1, st, (c.fr, c.site, c.at, 'b'), body)
    c.st = st
    if n == 'for_each':
        st.drop(nf)
        return UNIT
    r = st.get(nf, 3)
    st.drop(nf)
    if n == 'reduce':
        return some(r)
    return r


@model('drop', 'forget', 'reserve', 'reserve_exact', 'shrink_to_fit', 'zeroize', 'black_box',
       'new_const', 'new_v1', 'new_debug', 'new_display', 'sort', 'sort_unstable', 'dedup')
def _(self, c):
    if c.name in ('new_const', 'new_v1', 'new_debug', 'new_display'):
        return Leaf(ty='?')
    if c.name == 'dedup':
        w = c.d(0)
        if isinstance(w, Coll):
            c.put(0, w.but(len_=unk(('dd', c.fr, c.site), EMPTY, may_of(w))))
        return UNIT
    if c.name == 'black_box':
        return c.args[0]
    return UNIT


@model('swap_with', 'replace')
def _(self, c):
    if c.name == 'replace' and c.has('mem::'):
        alts = c.alts(0)
        v = c.it.load(c.st, alts)
        c.it.store(c.st, alts, c.args[1])
        return v
    return None
