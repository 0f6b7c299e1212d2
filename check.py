#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property
   check.py --replay <file>              run a replay file
   check.py --setup                      build everything once"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))
sys.dont_write_bytecode = True
import core
if __name__ == '__main__':
    a = sys.argv[1:]
    if not a: print(__doc__); sys.exit(2)
    if a[0] == '--setup': print(*core.hb.build(), sep='\n'); sys.exit(0)
    if a[0] == '--replay': sys.exit(core.replay(a[1]))
    sys.exit(core.run_check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')))
