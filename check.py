#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import pv


def registry():
    import lazycheck, tuples, layout, binds, overloads, applies, algorithms, recursions, packs, partitions, voids, forwards, asks, composes
    checks = {}
    for m in (lazycheck, tuples, layout, binds, overloads, applies, algorithms, recursions, packs, partitions, voids, forwards, asks, composes):
        checks.update(m.CHECKS)
    return checks


if __name__ == '__main__':
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick'))
    os.environ['VERIF_TIER'] = tier
    sys.exit(pv.main(prop, tier, registry()[prop]))
