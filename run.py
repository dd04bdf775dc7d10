#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough] [-v] [--only TEXT]"""
import argparse, os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='count', default=0)
    ap.add_argument('--only')
    ap.add_argument('-j', type=int, default=8)
    a = ap.parse_args()
    from checks import registry
    from sa import lab
    lab.TIER = a.tier
    return registry.get(a.prop).run(a.tier, only=a.only, jobs=a.j, verbose=a.v)


if __name__ == '__main__':
    sys.exit(main())
