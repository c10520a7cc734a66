#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--only target,...] [--verbose] [--replay file]"""
import sys, os
PY = '/opt/veriftools/pyvenv/bin/python3'
if os.path.realpath(sys.executable) != os.path.realpath(PY) and os.path.exists(PY) and not os.environ.get('IRV_PY'):
    os.environ['IRV_PY'] = '1'
    os.execv(PY, [PY] + sys.argv)
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import argparse
ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
ap.add_argument('--only')
ap.add_argument('--verbose', action='store_true')
ap.add_argument('--replay')
ap.add_argument('--procs', type=int)
a = ap.parse_args()
from irv import driver
seed = int(os.environ.get('VERIF_SEED', '1') or 1)
if a.replay: sys.exit(driver.replay(a.property, a.replay))
sys.exit(driver.run_check(a.property, a.tier, seed, a.only.split(',') if a.only else None, a.procs, a.verbose))
