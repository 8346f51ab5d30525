#!/usr/bin/env python3-vt
"""check.py <property> [--tier quick|thorough]"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
os.environ.setdefault('PYTHONHASHSEED', '0')
sys.setrecursionlimit(20000)
from props import PROPS
from vf.runner import run_check

if __name__ == '__main__':
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(run_check(pid, PROPS[pid], tier, seed))
