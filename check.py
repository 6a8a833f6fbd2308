#!/usr/bin/env python3
"""python3 check.py <property> [--tier quick|thorough]   exit 0: held; exit 1 + VIOLATION line: broken"""
import os, sys, argparse
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import fw, registry

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
ap.add_argument('--only', default='')
a = ap.parse_args()
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
units, meta = registry.get(a.property, a.tier)
if a.only: units = [u for u in units if a.only in u[0]]
meta['cmd'] = 'python3 check.py %s --tier %s' % (a.property, a.tier)
sys.exit(fw.main(a.property, units, a.tier, seed, meta))
