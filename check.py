#!/usr/bin/env python3
"""check.py <PID> [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from vf import core, props


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    ctx = core.Ctx(a.pid, a.tier, a.seed)
    try:
        if a.replay:
            with open(a.replay) as f:
                return props.replay(ctx, json.load(f))
        try:
            props.RUN[a.pid](ctx)
        except core.Broken as b:
            # decided by the code under test refusing to build/run in the way every user of it needs
            ctx.fail(b.what, b.replay)
        return core.finish(ctx)
    except core.InfraError as e:
        print("ERROR: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
