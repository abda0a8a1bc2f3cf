#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tool/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NA
V = os.path.dirname(HERE)
NOTE = ('Decided from the source by interprocedural value-flow analysis: obligations are exact value or condition '
        'comparisons over all inputs; an obligation the engine cannot settle is reported as undecided in the evidence, never as a violation. '
        'Trusts the clang front end, the models of NTL/GMP/Crypto++/std calls in engine/models.py, and the analysis engine; ')
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        assert p['statement'].count('. ') <= 2, p['id']
        for x in p['files']:
            assert os.path.exists('/repo/' + x), x
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['qtext']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                                        'observe_at': p.get('observe', []), 'hook_needed': None}}) + '\n')
m = {'version': 1,
     'setup_cmd': 'python3 tool/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p['id'],
                 'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': 'other',
                 'level_note': NOTE + p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
     'notes': 'Static analysis only; see DESIGN.md.'}
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
from mkfix import FIXED
# --- known_findings.json and DESIGN.md -------------------------------------------------
with open(V + '/known_findings.json', 'w') as f:
    json.dump({'findings': [], 'fixed': ['fixed: property=%s %s %s' % x for x in FIXED]}, f, indent=1)
    f.write('\n')
seeds = {}
for d in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    try:
        seeds[d] = json.load(open(V + '/seeded/%s/meta.json' % d))
    except OSError:
        pass
out = []
for p in PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(p['statement'] + '\n')
    out.append('*Quantified over* %s. *Decided by* %s.' % (p['qtext'], p['technique']))
    out.append('*Why tests cannot:* %s' % p['why'])
    out.append('*Limits:* %s\n' % p['note'])
out.append('### Not applicable\n')
for p in NA:
    out.append('* **%s %s**: %s' % (p['id'], p['title'], p['reason']))
tab = ['| change | what it breaks | needs |', '|---|---|---|']
for d, m in seeds.items():
    tab.append('| %s | %s | %s |' % (d, m['what_it_breaks'].replace('|', '/').replace('\n', ' '), m['needs'].replace('|', '/').replace('\n', ' ')))
fx = ['| property | commit | what failed |', '|---|---|---|'] + ['| %s | %s | %s |' % x for x in FIXED]
t = open(HERE + '/design.md.in').read()
t = t.replace('@PROPS@', '\n'.join(out)).replace('@SEEDS@', '\n'.join(tab)).replace('@FIXES@', '\n'.join(fx))
if seeds:
    open(V + '/DESIGN.md', 'w').write(t)
