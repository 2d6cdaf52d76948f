"""Runs the abstract interpreter over entry points and caches the results per source hash."""
from .dom import *
from .vals import *
from .interp import Interp, State
from .models import Models
from . import cg


class Run:
    """Result of interpreting one function."""

    def __init__(self, path, interp, models, params, outs, inputs):
        self.path, self.it, self.models = path, interp, models
        self.params = params      # [(name, type)]
        self.outs = outs          # [(state, return value)]
        self.events = interp.events
        self.edges = interp.edges
        self.inputs = inputs


WITNESS = ('w', 'a_vec', 'b_vec', 'a_Vec', 'b_Vec', 'openings', 'r_prime')


def param_names(f):
    names = dict((l, n) for l, n in f['names'])
    return [(names.get(i + 1, 'arg%d' % i), f['locals'][i + 1]) for i in range(f['args'])]


def strip(ty):
    return ty


def run(crate, path, classes=None, rect=True, watch=(), fix=None):
    """Interprets path on symbolic inputs.  classes: {position: blinding class}; watch: functions
    whose calls are reported (and with them what happens to random values); fix: {symbol: value}
    for runs about one size only."""
    f = crate.fns[path]
    m = Models(crate)
    it = Interp(crate, m)
    m.it = it
    m.fix = fix or {}
    it.watch = frozenset(watch)
    st = State()
    args = []
    params = param_names(f)
    inputs = {}
    for i, (n, ty) in enumerate(params):
        cls = (classes or {}).get(i, 'P')
        root = 'p%d' % i
        isself = n == 'self'
        if isself:
            root = 'self'
        if ty.get('k') == 'ref' and ty.get('m'):
            v = m.inval(ty['e'], root, (), cls, rect=not isself)
            st.put('in', i, v)
            args.append(Ref([('P', 'in', i, ())]))
        else:
            v = m.inval(ty, root, (), cls, rect=not isself)
            args.append(v)
        inputs[i] = v
        e = ty['e'] if ty.get('k') == 'ref' else ty
        if e.get('k') == 'adt' and e['p'] == 'merlin::Transcript':
            st.tr[root] = (EMPTY, EMPTY)
    it.fnstack.append('<entry>')
    outs = it.call(path, args, st, '', 'entry', path)
    r = Run(path, it, m, params, outs, inputs)
    r.fix = m.fix
    return r
