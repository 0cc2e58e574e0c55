"""Writes DESIGN.md: dev/design_head.md, one section per property, dev/design_tail.md.

The sections take the rules and their instance counts from the evidence of the
last run of every check on the unchanged tree, and the seeded changes from
dev/matrix.json.
"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + '/sa', V + '/dev']
from catalog import PROPS, NA
from design_how import HOW

m = {}
if os.path.exists(V + '/dev/matrix.json'):
  m = json.load(open(V + '/dev/matrix.json'))
out = [open(V + '/dev/design_head.md').read().rstrip(), '']
out += ['## 4. The properties, one by one', '']
for p in PROPS:
  i = p['id']
  e = json.load(open(f'{V}/evidence/{i}.json'))
  out += [f'### {i}. {p["title"]}', '', HOW[i].strip(), '',
          'Rules (obligations on the unchanged tree, quick): ' + '; '.join(
              f'*{k}* {r["rule"]} ({r["instances"]})'
              for k, r in e['coverage']['rules'].items()) + '.',
          '', 'Limits: ' + p['note'], '']
  own = [s for s, d in m.items() if d['property'] == i]
  if own:
    out += ['Seeded changes: ' + ', '.join(
        f'`{s}`' + ('' if i in m[s]['caught'] else ' (**missed**)') for s in own)
            + '.', '']
out += ['### Not applicable', '']
out += [f'* **{p["id"]}** {p["title"]}: {p["reason"]}' for p in NA]
out += ['', '## 5. Seeded changes and the checks that report them', '',
        '| change | property | reported by | no answer from |', '|---|---|---|---|']
for s, d in sorted(m.items()):
  out.append(f'| {s} | {d["property"]} | {" ".join(d["caught"])} | '
             f'{" ".join(d["none"])} |')
out += ['', open(V + '/dev/design_tail.md').read().strip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
