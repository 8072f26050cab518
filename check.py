#!/usr/bin/env python3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vfdrv, units

def main():
    prop = sys.argv[1]
    only = sys.argv[2:] 
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    p = units.PROPS[prop]
    us = [u for u in p['units'] if not only or u.name in only]
    sys.exit(vfdrv.check(prop, us, tier, seed, p.get('assumptions', ()), p.get('trusted', ())))
main()
