#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]: decide one property of /repo's current tree."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "sa"))
sys.setrecursionlimit(20000)


def main():
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    import facts
    from ctx import Ctx
    from ir import Program
    ctx = Ctx(a.prop, a.tier)
    try:
        path = facts.build()
        ctx.prog = Program(path)
        ctx.verbose = a.v
        mod = importlib.import_module("props." + a.prop.lower())
        ctx.rule = (mod.__doc__ or "").strip()
        mod.run(ctx)
    except facts.FactsError as e:
        ctx.violation("facts", "the current tree could not be analysed: %s" % e)
    except Exception:
        # fail closed: a construct the analysis cannot handle is not a pass
        ctx.violation("analysis-error", "the analysis could not decide the property:\n" + traceback.format_exc())
    sys.exit(ctx.finish(time.time() - t0))


if __name__ == "__main__":
    main()
