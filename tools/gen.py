#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table in props.py."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(R, 'tools', 'props.py')).read(), ns)
TECH = ('bounded symbolic execution of the LLVM IR of the real headers (symx, engine/), every branch, assertion, memory access and '
        'undefined-behaviour guard decided by Z3 over all inputs within the bounds; counterexamples replayed natively')
with open(os.path.join(R, 'properties.jsonl'), 'w') as f:
    for p in ns['PROPS']:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 run.py --setup', 'checks': [], 'not_applicable': ns['NA']}
na = {x['property'] for x in ns['NA']}
for p in ns['PROPS']:
    if p['id'] in na:
        continue
    m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                        'technique': TECH, 'level': 'other', 'level_note': p['note']})
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
# DESIGN.md
import re, glob
T = os.path.join(R, 'tools')
o = open(os.path.join(T, 'design_head.md')).read()
for p in ns['PROPS']:
    o += '### %s %s\n\n' % (p['id'], p['title'])
    ents = bounds = 0
    B = []
    for f in sorted(glob.glob(os.path.join(R, 'harness', p['id'] + '_*.cpp'))):
        s = open(f).read()
        ents += len(re.findall(r'^ENTRY \w+', s, re.M))
        B += [os.path.basename(f)]
    o += 'Decided by symbolic execution of the real code, %d entries in %s. Inputs covered: %s. Bounds and exclusions: %s. Why tests cannot: %s.\n\n' % (
        ents, ', '.join(B), p['quant'], p['note'], p['why'])
if ns['NA']:
    o += '## Not applicable\n\n' + ''.join('* %s: %s\n' % (x['property'], x['reason']) for x in ns['NA'])
o += open(os.path.join(T, 'design_tail.md')).read() + '\n'
k = json.load(open(os.path.join(R, 'known_findings.json')))
for f in k['findings']:
    o += '* %s (%s): %s\n' % (f['id'], f['property'], f['what'])
o += '\nRepaired defects (`fix:` commits in /repo):\n\n' + ''.join('* %s\n' % s.replace('fixed: property=', '') for s in k['fixed'])
o += '\n## Planted bugs\n\n' + open(os.path.join(T, 'design_seeds.md')).read() + '\n'
for d in sorted(glob.glob(os.path.join(R, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d))
    o += '* %s (caught by the %s quick check): %s. Needs: %s\n' % (os.path.basename(os.path.dirname(d)), j['property'], j['what_it_breaks'].rstrip('.'), j['needs'])
open(os.path.join(R, 'DESIGN.md'), 'w').write(o)
