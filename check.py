#!/usr/bin/env python3
"""python3 /verif/check.py Pnn [quick|thorough] [--only REGEX] [-v] [-k]"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def main():
    a = sys.argv[1:]
    if a[0] == '--selftest':
        from vc import oracle
        sys.exit(oracle.main())
    prop = a[0]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    only = None
    verbose = False
    keep = False
    i = 1
    while i < len(a):
        if a[i] in ('quick', 'thorough'):
            tier = a[i]
        elif a[i] == '--only':
            only = a[i + 1]
            i += 1
        elif a[i] == '-k':
            keep = True
        elif a[i] == '-v':
            verbose = True
        i += 1
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from vc import core
    budget = float(os.environ.get('VERIF_BUDGET', '560' if tier == 'quick' else '3000'))
    sys.exit(core.run_check(prop, 'props.' + prop.lower(), tier, seed, budget, only, verbose=verbose, keep_going=keep))


main()
