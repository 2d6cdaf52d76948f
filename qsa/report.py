"""Running a check: verdict lines, known findings, evidence."""
import json, os, sys, time, traceback
from . import mir

EVID = os.path.join(mir.VERIF, 'evidence')
KNOWN = os.path.join(mir.VERIF, 'known-findings.txt')


class Result:
    """What one check found and covered."""

    def __init__(self):
        self.viol = []       # (key, text)
        self.cov = {}
        self.assumptions = []
        self.samples = []
        self.obligations = 0

    def bad(self, key, text):
        if key not in [k for k, _ in self.viol]:
            self.viol.append((key, text))

    def ok(self, n=1):
        self.obligations += n

    def need(self, cond, key, text):
        """An obligation."""
        self.obligations += 1
        if not cond:
            self.bad(key, text)
        return cond

    def floor(self, name, n, least):
        """An instance count confirmed by hand; falling below it must not pass silently."""
        self.cov[name] = n
        if n < least:
            self.bad('floor:' + name, '%s: %d found, at least %d expected (an anchor of this '
                     'rule is gone, so the property cannot be established)' % (name, n, least))


def known(prop):
    out = {}
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith('known: property=%s key=' % prop):
                rest = l.split('key=', 1)[1]
                key, _, what = rest.partition(' | ')
                out[key.strip()] = what.strip()
    return out


def run(prop, checks, technique):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    try:
        r, nfns, key = checks(prop, tier)
    except mir.ToolError as e:
        print('ERROR: %s' % e)
        return 2
    kn = known(prop)
    new = [(k, t) for k, t in r.viol if k not in kn]
    cov = {
        'explanation': technique,
        'functions_analysed': nfns,
        'obligations_checked': r.obligations,
        'source_hash': key,
    }
    cov.update(r.cov)
    if r.samples:
        cov['samples'] = r.samples[:12]
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': r.assumptions, 'wall_s': round(time.time() - t0, 2),
          'violations': len(new)}
    os.makedirs(EVID, exist_ok=True)
    with open(os.path.join(EVID, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for k, t in r.viol:
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (prop, kn[k] or t))
    rep = os.path.join(EVID, prop + '.violations.txt')
    if new:
        with open(rep, 'w') as f:
            for k, t in new:
                f.write('[%s]\n%s\n\n' % (k, t))
        for k, t in new[:12]:
            print('%s: %s' % (k, t))
        print('VIOLATION property=%s replay=%s' % (prop, rep))
        return 1
    if os.path.exists(rep):
        os.remove(rep)
    print('ok property=%s obligations=%d %s' % (
        prop, r.obligations, ' '.join('%s=%s' % (k, v) for k, v in r.cov.items()
                                      if isinstance(v, (int, float)))))
    return 0
