#!/usr/bin/env python3-vt
"""run.py C01 [--tier quick|thorough] [--seed N] [--only PROP] [--replay FILE] | run.py all"""
import argparse
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable] + sys.argv)

from vf import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--quiet', action='store_true')
    a = ap.parse_args()
    if a.replay:
        return core.replay(a.property, os.path.abspath(a.replay))
    return core.run_check(a.property, a.tier, a.seed, a.only, a.quiet)


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
