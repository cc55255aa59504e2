#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--replay FILE]: exit 0 held, 1 violated, 2 could not decide."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from core import *
import rt

def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('-') else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    if '--replay' in sys.argv:
        d = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))
        seed = d['seed']
        if 'k' in d:
            only = '%d,%d' % (d['k'], d['i'])
    ck = Check(pid, tier, seed, only)
    mods = [rt]
    for name in ('comp', 'insp'):
        try:
            mods.append(__import__(name))
        except ModuleNotFoundError:
            pass
    for m in mods:
        if pid in m.CHECKS:
            ck.rule = m.RULES.get(pid, '')
            try:
                m.CHECKS[pid](ck)
            except HarnessError as e:
                ck.errors.append(str(e))
            except Exception:
                ck.errors.append(traceback.format_exc())
            sys.exit(ck.finish())
    print('unknown property', pid)
    sys.exit(2)

main()
