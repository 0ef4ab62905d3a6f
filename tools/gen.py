#!/opt/veriftools/pyvenv/bin/python3
"""Writes properties.jsonl and MANIFEST.json from tools/catalog.py (one place for the text)."""
import json, os, sys
import jsonschema
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from catalog import PROPS
ps = json.load(open('/root/.vp/PROPERTIES.schema.json')); ms = json.load(open('/root/.vp/MANIFEST.schema.json'))
lines = []; checks = []; na = []
for p in PROPS:
    d = {'id': p['id'], 'title': p['title'], 'statement': ' '.join(p['statement'].split()),
         'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
         'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}}
    jsonschema.validate(d, ps)
    assert len(d['title']) <= 80, d['title']
    for f in p['files']: assert os.path.exists('/repo/' + f), f
    lines.append(json.dumps(d))
    if p.get('na'): na.append({'property': p['id'], 'reason': p['na']}); continue
    assert os.path.exists(os.path.join(HERE, 'props', p['id'] + '.py')), p['id']
    cmd = './check.sh ' + p['id']
    checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': p['technique'], 'level': 'other', 'level_note': ' '.join(p['note'].split())})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis over facts (optimised-away-nothing MIR, types, ADTs, impls) that a rustc_private driver extracts from every workspace crate of the current /repo tree. No hooks in /repo are needed.'}
jsonschema.validate(m, ms)
open(os.path.join(HERE, 'properties.jsonl'), 'w').write('\n'.join(lines) + '\n')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(lines), 'properties', len(checks), 'checks', len(na), 'not applicable')

def seeds():
    out = ['| planted bug | property | caught | what it needs |', '|---|---|---|---|']
    caught = json.load(open(os.path.join(HERE, 'tools', 'seed_results.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'seed_results.json')) else {}
    d = os.path.join(HERE, 'seeded')
    for n in sorted(os.listdir(d)):
        m = json.load(open(os.path.join(d, n, 'meta.json')))
        out.append('| %s | %s | %s | %s |' % (n, m['property'], caught.get(n, '?'), ' '.join(m['needs'].split())))
    return '\n'.join(out)
t = open(os.path.join(HERE, 'tools', 'DESIGN.in.md')).read()
pt = []
for p in PROPS:
    pt.append('### %s %s\n' % (p['id'], p['title']))
    pt.append(' '.join(p['statement'].split()) + '\n')
    if p.get('na'): pt.append('*Not applicable:* ' + p['na'] + '\n'); continue
    pt.append('*Decided by:* %s. %s' % (p['technique'], ' '.join(p['note'].replace(__import__('catalog').BASE, '').split())))
    if p.get('how'): pt.append('*How:* ' + ' '.join(p['how'].split()))
    pt.append('*Quantifies over:* %s. *Why tests cannot:* %s\n' % (p['forall'], p['why']))
fx = [l.strip() for l in open(os.path.join(HERE, 'known_findings.txt')) if l.strip()]
ft = '\n'.join('* ' + l.replace('fixed: property=', '') for l in fx if l.startswith('fixed:'))
kf = '\n'.join('* ' + l.replace('finding: property=', '') for l in fx if l.startswith('finding:'))
if kf: ft += '\n\nRecorded, not repaired (known findings):\n\n' + kf
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t.replace('PROPTABLE', '\n'.join(pt)).replace('FIXTABLE', ft).replace('SEEDTABLE', seeds()))
