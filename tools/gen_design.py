"""Assemble DESIGN.md from its parts, the findings and the planted bugs."""
import json, os
V = '/verif/'
rd = lambda p: open(V + p).read().rstrip() + '\n'
out = [rd('tools/design_head.md'), rd('tools/design_props.md'), rd('tools/design_tail.md')]
K = json.load(open(V + 'known-findings.json'))['findings']
o = ['### Open\n']
o += [f'* `{k["id"]}` ({k["property"]}): {k["what"]}' for k in K if k['status'] == 'open']
o += ['\n### Repaired\n']
o += [f'* {k["what"].replace("fixed: property=", "")}' for k in K if k['status'] == 'fixed']
out.append('\n'.join(o) + '\n')
o = ['## Planted bugs and what catches them\n', 'Each was written from the text of a property, passes the 172 stable tests, and has a demonstration. `seeded/<id>/`; none is ever committed in `/repo`.',
     'The check of the property named catches each of them at quick, seed 1; where it first did not, the last column says what was changed.\n',
     '| bug | property | needs | first missed? |', '|---|---|---|---|']
M = json.load(open(V + 'tools/seed_notes.json'))
for d in sorted(os.listdir(V + 'seeded')):
    m = json.load(open(f'{V}seeded/{d}/meta.json'))
    o.append(f'| {d} | {m["property"]} | {m["needs"]} | {M.get(d, "")} |')
out.append('\n'.join(o) + '\n')
out.append(rd('tools/design_mut.md'))
open(V + 'DESIGN.md', 'w').write('\n'.join(out))
