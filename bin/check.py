#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]   decide one property on /repo's working tree"""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    checks = {}
    for mod in ('props_cpu', 'props_vm', 'props_dbg', 'props_src', 'props_asm', 'props_msg', 'props_dinfo', 'props_cli'):
        checks.update(__import__(mod).CHECKS)
    run = vlib.Run(prop, tier, seed)
    try:
        checks[prop](run)
        return run.finish()
    except Exception:
        traceback.print_exc()
        run.scratch.close()
        print('ERROR property=%s: the check itself failed' % prop)
        return 2


sys.exit(main())
