#!/usr/bin/env python3
"""python3 check.py <PROPERTY-ID>|all [--tier quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

import props  # noqa: E402,F401
from ipa.checker import REGISTRY, run  # noqa: E402


def main():
    args = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        i = args.index('--tier')
        tier = args[i + 1]
        del args[i : i + 2]
    if not args:
        print(__doc__)
        return 2
    if args[0] == 'selftest':
        from ipa.selftest import selftest

        return selftest()
    ids = sorted(REGISTRY) if args[0] == 'all' else args
    rc = 0
    for i in ids:
        r = run(i, tier)
        rc = max(rc, r)
    return rc


if __name__ == '__main__':
    sys.exit(main())
