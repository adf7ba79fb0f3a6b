"""python3 -m sa.run C01 [--tier quick|thorough] [--only TEXT] [-j N] [-v]"""
import argparse
import importlib
import os
import sys

from . import harness


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ids', nargs='+')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--only')
    ap.add_argument('-j', type=int)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    worst = 0
    for cid in a.ids:
        mod = importlib.import_module('sa.checks.' + cid.lower())
        r = harness.run_check(mod, cid, tier, seed, a.j, a.only, a.v)
        worst = r if worst == 0 or r == 1 else worst
    sys.exit(worst)


if __name__ == '__main__':
    main()
