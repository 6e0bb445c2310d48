#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on the working tree of /repo"""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(20000)
from core import Ctx, ToolError
from registry import PROPS


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    ctx = Ctx(prop, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    try:
        ctx.exe
        PROPS[prop](ctx)
    except ToolError as e:
        print('ERROR: ' + str(e))
        return 1 if ctx.viols and not ctx.finish() == 0 else 2
    except Exception:
        traceback.print_exc()
        return 2
    return ctx.finish()


if __name__ == '__main__':
    sys.exit(main())
