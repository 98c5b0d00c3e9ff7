#!/usr/bin/env python3
"""properties.jsonl, MANIFEST.json and the generated part of DESIGN.md from catalog.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from catalog import PROPS
try:
    from catalog import NOT_APPLICABLE
except ImportError:
    NOT_APPLICABLE = []
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for p in list(PROPS.values()) + [n for n in NOT_APPLICABLE]:
        d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))
        if p['state']:
            d['anchors']['state'] = [dict(name=a, meaning=b, where=c) for a, b, c in p['state']]
        f.write(json.dumps(d) + '\n')
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=[], not_applicable=[dict(property=n['id'], reason=n['reason']) for n in NOT_APPLICABLE])
for i, p in PROPS.items():
    tech = 'property-based testing: generated-input search against ' + p.get('oracle', 'an independent oracle') + ', with shrinking'
    if any(s['cfg'] == 'fuzz' for s in p['stages']):
        tech += '; thorough adds coverage-guided fuzzing (libFuzzer) of the same property functions'
    m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                            technique=tech, level='exploration', level_note=p['note']))
m['notes'] = 'No hooks: the harnesses compile /repo\'s sources and headers unmodified. Defects repaired in /repo are the fix: commits listed in known_findings.txt.'
with open(V + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
d = open(V + '/DESIGN.md').read()
a, b = '<!-- generated:begin -->', '<!-- generated:end -->'
t = a + '\n'
for i, p in PROPS.items():
    hs = sorted({s['harness'] for s in p['stages']})
    t += '\n### %s %s\n\n%s\n\n*How it is decided.* %s\n\n*Cases.* %s. Harness: %s. %s\n' % (i, p['title'], p['statement'], p['decide'], p['rule'], ', '.join('`harness/%s.cpp`' % h for h in hs), p['note'])
d = d[:d.index(a)] + t + b + d[d.index(b) + len(b):]
a, b = '<!-- planted:begin -->', '<!-- planted:end -->'
caught = {k: v for k, v in (l.split(None, 1) for l in open(V + '/tools/caught.txt') if l.strip())}
t = a + '\n\n| planted bug | property | what it breaks | needs | caught by |\n|---|---|---|---|---|\n'
for i in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    j = json.load(open(V + '/seeded/' + i + '/meta.json'))
    t += '| %s | %s | %s | %s | %s |\n' % (i, j['property'], j['what_it_breaks'], j['needs'], caught.get(i, '').strip() or '-')
d = d[:d.index(a)] + t + '\n' + b + d[d.index(b) + len(b):]
open(V + '/DESIGN.md', 'w').write(d)
