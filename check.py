#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]"""
import importlib
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import chk


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    mod = importlib.import_module('checks.' + pid.lower())
    jobs = mod.jobs(tier, seed)
    sys.exit(chk.run(pid, tier, seed, jobs, mod.LEVEL, mod.BOUNDS if not callable(mod.BOUNDS) else mod.BOUNDS(tier), mod.ASSUMPTIONS,
                     getattr(mod, 'EXPLAIN', '')))


main()
