#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] [--seed N]: decides one property. See DESIGN.md."""
import argparse, importlib, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import vf
ap = argparse.ArgumentParser()
ap.add_argument('prop')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
a = ap.parse_args()
from checks import REGISTRY
sys.exit(vf.run_check(a.prop, REGISTRY[a.prop], a.tier, a.seed))
