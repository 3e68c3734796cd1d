#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and DESIGN.md from engine/catalog.py, design/, seeded/ and known_findings.txt."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE + '/engine')
sys.dont_write_bytecode = True
import catalog
with open(HERE + '/properties.jsonl', 'w') as f:
    for e in catalog.PROPS + catalog.NA:
        f.write(json.dumps(e['prop'], ensure_ascii=False) + '\n')
checks = []
for e in catalog.PROPS:
    i = e['prop']['id']
    checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                       evidence_file='evidence/%s.json' % i, technique=e['technique'], level=e['level'], level_note=e['note']))
m = dict(version=1, setup_cmd='python3 gen.py --check', checks=checks,
         not_applicable=[dict(property=e['prop']['id'], reason=e['reason']) for e in catalog.NA],
         notes='Every check is static: see DESIGN.md. No hooks were added to /repo.')
if '--check' in sys.argv:
    cur = json.load(open(HERE + '/MANIFEST.json'))
    sys.exit(0 if cur == m else 'MANIFEST.json is stale: run gen.py')
json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(catalog.NA), 'not applicable')

import glob
D = [open(HERE + '/design/head.md').read().rstrip()]
for e in catalog.PROPS:
    p = e['prop']
    D.append('### %s %s' % (p['id'], p['title']))
    D.append(p['statement'])
    D.append('*Decided by:* %s' % e['how'])
    D.append('*Quantified over:* %s. *Why tests cannot:* %s' % (p['quantifier']['text'], p['why_tests_cant']))
    u = ', '.join('`witness/%s`' % w for w in e['witness']) + (', ' if e['witness'] and e['rules'] else '') + ', '.join('rule `%s`' % r[0] for r in e['rules'])
    D.append('*Units:* %s. *Anchors:* %s.' % (u, ', '.join('`%s`' % f for f in p['anchors']['files'])))
    if e['assumptions']:
        D.append('*Assumptions and bounds:* ' + '; '.join(a.rstrip('.') for a in e['assumptions']) + '.')
D.append('### Not applicable')
for e in catalog.NA:
    D.append('* **%s %s.** %s' % (e['prop']['id'], e['prop']['title'], e['reason']))
D.append('## 4. Planted bugs and defects found')
D.append('Each planted bug is in `seeded/<id>/`; it was written from the property text, compiles, passes the stable tests and has a failing demonstration. '
         'The check of the property named catches it (exit 1) in `tools/seed.py run`, unless marked.')
rows = ['| id | property | what it breaks | needs | caught |', '|---|---|---|---|---|']
for f in sorted(glob.glob(HERE + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['what_it_breaks'], m['needs'], m.get('caught', 'yes')))
D.append('\n'.join(rows))
D.append('Defects of the repository found by the checks or while writing them:')
D.append('\n'.join('* ' + l.strip() for l in open(HERE + '/known_findings.txt') if l.strip() and not l.startswith('#')))
D.append(open(HERE + '/design/tail.md').read().strip())
open(HERE + '/DESIGN.md', 'w').write('\n\n'.join(D) + '\n')
