#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   or   check.py --replay FILE"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import checks   # noqa: E402
import vlib     # noqa: E402


def main():
    if sys.argv[1] == '--setup':
        vlib.build()
        return 0
    if sys.argv[1] == '--replay':
        return checks.replay(sys.argv[2])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED') or 1)
    try:
        return checks.CHECKS[sys.argv[1]].run(tier, seed)
    except vlib.MachineryError as ex:
        print('CHECK-ERROR', ex)
        return 3


if __name__ == '__main__':
    sys.exit(main())
