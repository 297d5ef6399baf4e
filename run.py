#!/usr/bin/env python3
"""run.py <property> [quick|thorough]: run one check against /repo's working tree."""
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from vf.common import HarnessError  # noqa: E402


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('checks.' + prop.lower())
    try:
        return mod.main(tier, seed)
    except HarnessError as e:
        print('ERROR property=%s: %s' % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print('ERROR property=%s: the check itself failed' % prop)
        return 2


sys.exit(main())
