"""Interprets entry points in parallel and hands each run to a function."""
import multiprocessing, os, sys, traceback
from .mir import ToolError

_crate = None


def _go(job):
    sys.setrecursionlimit(20000)
    from . import engine
    path, classes, rect, fn, arg, watch, fix = job
    try:
        run = engine.run(_crate, path, classes, rect, watch, fix)
        return fn(_crate, run, arg)
    except ToolError as e:
        return ToolError(str(e))
    except Exception:
        return ToolError('analysis of %s failed: %s' % (path, traceback.format_exc()[-1500:]))


def each(crate, paths, fn, classes=None, args=None, rect=True, watch=(), fixes=None):
    """[(path, fn(crate, run, arg))]; classes/args: {path: ...}; fixes: {path: [{symbol: value}]},
    sizes to look at one by one besides the general case."""
    global _crate
    _crate = crate
    for p in paths:
        if p not in crate.fns:
            raise ToolError('function %s is gone' % p)
    jobs = [(p, (classes or {}).get(p), rect, fn, (args or {}).get(p),
             watch, fx) for p in paths for fx in [None] + list((fixes or {}).get(p, ()))]
    # the slow ones first
    order = sorted(range(len(jobs)), key=lambda i: ('_general' in jobs[i][0] or
                                                    '_lmpa_' in jobs[i][0] or
                                                    'create' in jobs[i][0]), reverse=True)
    n = min(len(jobs), os.cpu_count() or 2, 8)
    if n <= 1:
        out = [_go(j) for j in jobs]
    else:
        with multiprocessing.get_context('fork').Pool(n) as pool:
            res = pool.map(_go, [jobs[i] for i in order], chunksize=1)
        out = [None] * len(jobs)
        for i, r in zip(order, res):
            out[i] = r
    for r in out:
        if isinstance(r, ToolError):
            raise r
    return [(j[0], r) for j, r in zip(jobs, out)]


class Find:
    """Picklable findings of one entry point."""

    def __init__(self):
        self.bad = []        # (key, text)
        self.n = 0           # obligations
        self.cov = {}        # counters, added up over the entries
        self.samples = []
        self.notes = set()

    def need(self, cond, key, text):
        self.n += 1
        if not cond:
            self.bad.append((key, text))
        return cond

    def count(self, name, k=1):
        self.cov[name] = self.cov.get(name, 0) + k


def merge(r, finds):
    tot = {}
    for path, f in finds:
        r.ok(f.n)
        for k, t in f.bad:
            r.bad(k, t)
        for k, v in f.cov.items():
            tot[k] = tot.get(k, 0) + v
        r.samples += f.samples
        for x in sorted(f.notes):
            if x not in r.assumptions:
                r.assumptions.append(x)
    r.cov.update(tot)
    r.cov['entry_points'] = [p for p, _ in finds]
    return tot
