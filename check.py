#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]"""
import sys, os, argparse
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--verbose', action='store_true')
a = ap.parse_args()
from kv import props, driver
R = driver.Run(a.property, props.PROPS[a.property], a.tier, int(os.environ.get('VERIF_SEED', '1')))
rc = R.go()
if a.verbose:
    for o in R.obs:
        if o['status'] != 'proved':
            print('   ', o['status'], o['name'], o['detail'][:200])
sys.exit(rc)
