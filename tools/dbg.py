#!/usr/bin/env python3
"""dbg.py PROP UNIT [noloops]: builds a unit into /tmp/dbg and prints the cbmc command"""
import sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path[:0] = [V + '/lib', V]
import vfdrv, units
u = [u for u in units.PROPS[sys.argv[1]]['units'] if u.name == sys.argv[2]][0]
d = '/tmp/dbg'; os.makedirs(d, exist_ok=True)
for f in os.listdir(d):
    if f.endswith('.gb'): os.unlink(d + '/' + f)
R = vfdrv.Runner(sys.argv[1], 'quick', 1)
l = (u.loops or bool(u.inject)) and len(sys.argv) < 4
for n in range(3):
    b = R.build(u, d, l and bool(u.inject)); c, _ = R.instrument(u, b, d, l)
    print('cbmc', c, '--function harness' if u.nocontract else '', '--no-standard-checks --unwinding-assertions --object-bits', u.objbits, '--unwind', u.unwind)
    break
R.close()
