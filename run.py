#!/opt/veriftools/pyvenv/bin/python3
"""run.py Cnn [--tier quick|thorough] [--only REGEX] [-v] | run.py replay FILE"""
import argparse
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop'); a.add_argument('file', nargs='?')
    a.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    a.add_argument('--only'); a.add_argument('-v', action='store_true'); a.add_argument('-j', type=int, default=8)
    a = a.parse_args()
    from vf import check
    if a.prop == 'replay':
        check.replay_file(a.file); return 0
    from vf.props import table
    seed = int(os.environ.get('VERIF_SEED', '1'))
    scs, assumptions, bounds = table.get(a.prop)(a.tier)
    limit = 780 if a.tier == 'quick' else 3300
    return check.run_check(a.prop, scs, assumptions, bounds, a.tier, seed, limit, a.only, a.j, a.v)


if __name__ == '__main__':
    sys.exit(main())
