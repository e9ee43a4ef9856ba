#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decides one property on /repo's current source."""
import argparse
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True

from engine import facts as fx      # noqa: E402
from engine import mir, contract    # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--repo')
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    if a.repo:
        fx.REPO = a.repo
    if a.property == 'setup':
        fx.warm()
        return
    import runner
    sys.exit(runner.run(a))


if __name__ == '__main__':
    main()
