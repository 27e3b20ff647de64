"""Rewrites the generated tables of DESIGN.md (repaired defects, planted bugs)."""
import glob
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, 'DESIGN.md')
s = open(p).read()
kf = json.load(open(os.path.join(V, 'known_findings.json')))
out = ['## Defects found and repaired (generated)', '',
       'Each is one `fix:` commit in /repo; the check named first fails on the '
       'parent commit with a concrete input.', '', '| check | commit | what failed |',
       '|---|---|---|']
for f in kf['fixed']:
  _, prop, commit, what = f.split(' ', 3)
  out.append('| %s | %s | %s |' % (prop.split('=')[1], commit, what))
out += ['', '## Planted bugs and the checks that catch them (generated)', '',
        '| seed | caught by | what it breaks |', '|---|---|---|']
for m in sorted(glob.glob(os.path.join(V, 'seeded/*/meta.json'))):
  d = json.load(open(m))
  out.append('| %s | %s | %s |' % (m.split('/')[-2], d['property'],
                                   d['what_it_breaks']))
mark = '<!-- generated tables -->\n'
head = s.split(mark)[0].rstrip() + '\n\n'
open(p, 'w').write(head + mark + '\n'.join(out) + '\n')
