#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props/*.json."""
import json, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = []
for f in sorted(glob.glob(root + '/tools/props/*.json')):
    props.append(json.load(open(f)))
checks, na = [], []
with open(root + '/properties.jsonl', 'w') as o:
    for p in props:
        q = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(p['title']) <= 80, p['id']
        o.write(json.dumps(q) + '\n')
        if 'not_applicable' in p:
            na.append({'property': p['id'], 'reason': p['not_applicable']})
            continue
        checks.append({
            'property': p['id'],
            'quick_cmd': 'bash run.sh ' + p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough bash run.sh ' + p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': p.get('technique', 'symbolic execution of the real Go code (go/ssa) with an SMT solver deciding every branch and assertion; exhaustive within stated bounds'),
            'level': 'model_checking',
            'level_note': p['level_note'],
        })
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'One check per property; bounds, stubs and assumptions are in checks/<id>.json and repeated in the evidence. See DESIGN.md.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(props), 'properties,', len(checks), 'claimed')
# DESIGN.md
t = open(root + '/tools/DESIGN.tmpl.md').read()
out = []
for p in props:
    out.append('\n### %s %s\n%s\n' % (p['id'], p['title'], p['statement']))
    if 'not_applicable' in p:
        out.append('Not claimed: %s\n' % p['not_applicable'])
        continue
    c = json.load(open(root + '/checks/%s.json' % p['id']))
    out.append('*How:* %s\n' % p.get('how', p['level_note']))
    out.append('*Why this reaches what tests cannot:* %s\n' % p['why_tests_cant'])
    for r in c['runs']:
        b = '; '.join('%s: %s' % kv for kv in r.get('bounds', {}).items())
        out.append('- `%s` %s%s%s' % (r['fn'], r.get('about', ''), ' [' + b + ']' if b else '', ' (thorough only)' if r.get('quick', {}).get('skip') else ''))
    out.append('\nAssumed: ' + '; '.join(c.get('assumptions', []) or ['nothing beyond the bounds']) + '.')
    out.append('Outside: ' + '; '.join(c.get('outside', []) or ['what exceeds the bounds']) + '.\n')
sd = []
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    m = json.load(open(f))
    n = os.path.basename(os.path.dirname(f))
    sd.append('| %s | %s | %s |' % (n, m['property'], m['what_it_breaks']))
t = t.replace('@@PROPS@@', '\n'.join(out)).replace('@@SEEDS@@', 'Every change below is caught by the quick check of its property, except where tools/missed.md says otherwise.\n\n| change | property | what it breaks |\n|---|---|---|\n' + '\n'.join(sd))
open(root + '/DESIGN.md', 'w').write(t)
