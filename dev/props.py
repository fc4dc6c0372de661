#!/usr/bin/env python3
"""Generates properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []   # claimed
NA = []  # not claimed

def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, how=None, na=None, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d['anchors']['observe_at'] = observe
    assert len(title) <= 80, id
    (NA if na else P).append((d, dict(technique=technique, note=note, how=how, na=na)))

TRUST = 'Trusts the Go type checker, golang.org/x/tools/go/ssa and the analyser; calls through interfaces are resolved to every implementation in the repository.'
exec(open(os.path.join(V, 'dev', 'entries.py')).read())

allp = sorted(P + NA, key=lambda e: e[0]['id'])
assert len({e[0]['id'] for e in allp}) == len(allp)
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, _ in allp:
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='bash build.sh', checks=[], not_applicable=[],
         notes='Every check decides its property from the source of /repo as found when it runs; nothing of the program is executed. quick and thorough are the same complete analysis: the domain is finite and explored exhaustively.')
for d, x in sorted(P, key=lambda e: e[0]['id']):
    m['checks'].append(dict(property=d['id'], quick_cmd='bash check.sh ' + d['id'], thorough_cmd='bash check.sh ' + d['id'],
        evidence_file='evidence/%s.json' % d['id'], technique=x['technique'], level='other', level_note=x['note'] + ' ' + TRUST))
for d, x in sorted(NA, key=lambda e: e[0]['id']):
    m['not_applicable'].append(dict(property=d['id'], reason=x['na']))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')

head = open(os.path.join(V, 'dev', 'design_head.md')).read()
tail = open(os.path.join(V, 'dev', 'design_tail.md')).read() + open(os.path.join(V, 'dev', 'seeds.md')).read()
out = [head.rstrip(), '', '## Properties, and how each is decided', '']
for d, x in allp:
    out.append('### %s %s' % (d['id'], d['title']))
    out.append('')
    out.append(d['statement'])
    out.append('')
    if x['na']:
        out.append('Not applicable: ' + x['na'])
    else:
        out.append('*How.* ' + x['how'])
        out.append('')
        out.append('*Why not tests.* ' + d['why_tests_cant'] + ' *Assurance.* ' + x['note'])
    out.append('')
out.append(tail.rstrip())
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
print(len(P), 'claimed', len(NA), 'not applicable')
