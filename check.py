#!/usr/bin/env python3-vt
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?'); ap.add_argument('--selftest', action='store_true'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    a = ap.parse_args()
    from kysym import checks
    if a.selftest: sys.exit(checks.selftest())
    sys.exit(checks.main(a.prop, a.tier, a.replay))
