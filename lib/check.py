#!/usr/bin/env python3-vt
"""check.py <property> : decides one property on /repo's current tree (VERIF_TIER=quick|thorough)."""
import os, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from symcake import props

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'): tier = a
    if tier not in ('quick', 'thorough'): tier = 'quick'
    sys.exit(props.run(pid, tier))

if __name__ == '__main__':
    main()
