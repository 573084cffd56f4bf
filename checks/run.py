#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decide one property on /repo's working tree."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = lib.Ctx(pid, tier, seed)
    try:
        importlib.import_module(pid.lower()).run(ctx)
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        if ctx.bad:
            return ctx.finish()
        return 2


sys.exit(main())
