#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from units.py and not_applicable.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V + '/lib', V]
import units
from not_applicable import NA
with open(V + '/properties.jsonl', 'w') as f:
    for id in sorted(units.PROPS):
        f.write(json.dumps(units.PROPS[id]['line']) + '\n')
    for line, reason in NA:
        f.write(json.dumps(line) + '\n')
m = dict(version=1, setup_cmd='true',
         checks=[dict(property=id, quick_cmd='python3 check.py ' + id, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + id,
                      technique='contract-based deductive verification (CBMC code contracts on the real functions; SAT and SMT back ends)',
                      level='proof', level_note=units.PROPS[id]['note']) for id in sorted(units.PROPS)],
         not_applicable=[dict(property=l['id'], reason=r) for l, r in NA])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)

import glob
o = open(V + '/design_head.md').read()
for id in sorted(units.PROPS):
    p = units.PROPS[id]; l = p['line']
    o += '\n### %s %s\n\n%s\n\n' % (id, l['title'], l['statement'])
    o += 'How it is decided: %s\n\n' % p['note']
    if p['design']:
        o += p['design'].strip() + '\n\n'
    fns = sorted({f for u in p['units'] for f in (u.functions or [u.fn]) if f and not u.bounded})
    o += 'Functions under contract: %s.\n' % ', '.join('`%s`' % f for f in fns)
    b = [u for u in p['units'] if u.bounded]
    if b:
        o += '\nBounded stand-ins (not counted as proved): %s.\n' % '; '.join('%s (%s)' % (u.name, u.bounded) for u in b)
    if p['assumptions']:
        o += '\nAssumed: %s.\n' % '; '.join(p['assumptions'])
o += '\n## Not applicable\n\n' + ''.join('* %s %s: %s\n' % (l['id'], l['title'], r) for l, r in NA)
o += '\n## Planted bugs\n\nEach was confirmed in a scratch copy (demo passes clean and fails with it; all baseline tests pass), and run against its check.\n\n'
caught = json.load(open(V + '/tools/caught.json')) if os.path.exists(V + '/tools/caught.json') else {}
for m_ in sorted(glob.glob(V + '/seeded/*/meta.json')):
    id = os.path.basename(os.path.dirname(m_)); j = json.load(open(m_))
    o += '* `%s` (%s): %s. Needs: %s. %s\n' % (id, j['property'], j['what_it_breaks'], j['needs'], caught.get(id, 'not run'))
o += '\n## Defects found\n\n' + ''.join('* ' + x for x in open(V + '/known_findings.txt'))
tail = V + '/design_tail.md'
if os.path.exists(tail):
    o += '\n' + open(tail).read()
open(V + '/DESIGN.md', 'w').write(o)
