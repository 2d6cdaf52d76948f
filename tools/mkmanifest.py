"""Writes MANIFEST.json from the registry of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from qsa import checks
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
na = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))['not_applicable']
out = {'version': 1, 'setup_cmd': './setup.sh', 'checks': [], 'not_applicable': []}
claimed = set()
for p in props:
    c = checks.REGISTRY.get(p['id'])
    if c is None:
        continue
    claimed.add(p['id'])
    out['checks'].append({
        'property': p['id'],
        'quick_cmd': './check %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough ./check %s' % p['id'],
        'technique': c['technique'], 'level': 'other', 'level_note': c['note']})
for p in props:
    if p['id'] not in claimed:
        r = [x['reason'] for x in na if x['property'] == p['id']]
        out['not_applicable'].append({'property': p['id'], 'reason': r[0] if r else
                                      'Not claimed yet: its check is still being built.'})
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
