"""Entry point: python -m mc.main <property> [--tier quick|thorough] [--replay file]"""
import argparse
import importlib
import json
import os
import sys
import traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    only = None
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    if a.replay:
        only = json.load(open(a.replay))
        tier = only.get("tier", tier)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    from mc.engine import Ctx
    ctx = Ctx(a.pid, tier, seed, only)
    try:
        mod = importlib.import_module("mc.checks." + a.pid.lower())
        mod.run(ctx)
        code = ctx.finish()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(2)
    print("%s %s: states=%d transitions=%d executions=%d violations=%d scenarios=%d" % (
        a.pid, tier, ctx.states, ctx.transitions, ctx.traces, len(ctx.viol), len(ctx.scen)))
    if a.verbose:
        for n, s in ctx.scen.items():
            print("   %-40s exec=%d states=%d out=%d dom-=%d %.1fs %s" % (
                n, s["executions"], s["states"], s["distinct_outcomes"], s["out_of_domain"], s["wall_s"], s.get("cpu_s", "")))
        for k in ctx.skipped:
            print("   skipped", k)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


if __name__ == "__main__":
    main()
