#!/usr/bin/env python3
"""check.py PROPERTY: decide one property on the current tree of /repo."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
from common import Ctx, CheckError


def main():
    pid = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ['VERIF_TIER'] = sys.argv[2]
    mod = importlib.import_module(pid.lower())
    ctx = Ctx(pid)
    try:
        ctx.build()
        mod.run(ctx)
        return ctx.finish(getattr(mod, 'LEVEL', 'model_checking'))
    except CheckError as e:
        print('CHECK ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.close()


if __name__ == '__main__':
    sys.exit(main())
