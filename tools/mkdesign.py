#!/usr/bin/env python3
"""Writes DESIGN.md from design_head.md, properties.jsonl, the runner's table and the planted bugs."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = json.loads(subprocess.run(['go', 'run', '.', 'specs', '-'], cwd=V + '/runner', env=dict(os.environ, GOFLAGS='', VERIF_DIR=V, REPO='/repo'), check=True, stdout=subprocess.PIPE).stdout)
times = {}
if os.path.exists(V + '/tools/times.json'):
    times = json.load(open(V + '/tools/times.json'))
extra = json.load(open(V + '/tools/design_why.json'))
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
o = [open(V + '/tools/design_head.md').read().rstrip(), '', '## The properties', '']
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    s = specs[p['id']]
    o += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '',
          '* **Decided by:** %s.' % s['technique'],
          '* **Enumerated and compared:** ' + s['rule'],
          '* **Bounds:** ' + s['bounds'] + '.',
          '* **Strength:** ' + s['note'],
          '* **Beyond the tests:** ' + p['why_tests_cant']]
    if p['id'] in extra:
        o.append('* **Notes:** ' + extra[p['id']])
    if p['id'] in times:
        o.append('* **Cost:** %s.' % times[p['id']])
    o.append('')
o += ['## Planted bugs', '',
      'Each was written from the property and the code alone, builds, passes the tests, and has a demonstration. "First missed" marks those that',
      'no check caught when they were written; the check was strengthened then.', '',
      '| bug | property | needs | caught by the quick check |', '|---|---|---|---|']
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    o.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/'), caught.get(d, 'yes')))
o.append('')
open(V + '/DESIGN.md', 'w').write('\n'.join(o))
