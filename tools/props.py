#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run: tools/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
O = 'internal/ops/operator.go'
P = []
NA = []

def prop(id, title, statement, over, text, why, files, mech, observe, state=(), level='exploration', note='', tech=''):
    assert len(title) <= 80, title
    P.append(dict(id=id, rec=dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None)),
        level=level, note=note, tech=tech))

def na(id, title, statement, text, why, files, mech, reason):
    prop(id, title, statement, ['inputs'], text, why, files, mech, [])
    P[-1]['na'] = reason

exec(open(os.path.join(V, 'tools', 'props_list.py')).read())

P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p['rec']) + '\n')
man = dict(version=1, setup_cmd='./setup.sh',
    hooks=dict(guard='none: no hooks are committed in /repo',
        enable="check.sh rewrites a copy of the sources through 'go build -overlay', so that goroutines, channels, sync, os, time, rand, CPU count and memory size go through the simulator; nothing in /repo is guarded or changed for it",
        source_commits=[]),
    checks=[], not_applicable=[])
for p in P:
    if 'na' in p:
        man['not_applicable'].append(dict(property=p['id'], reason=p['na']))
        continue
    man['checks'].append(dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'], thorough_cmd='./check.sh %s thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=p['tech'] or 'deterministic simulation: seeded search over schedules, faults and inputs, checked against an independent model',
        level=p['level'], level_note=p['note']))
json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
