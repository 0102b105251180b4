#!/usr/bin/env python3
"""Run one check: run.py --property C01 [--tier quick|thorough]."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from glint import model, report  # noqa: E402


def main():
    if os.environ.get("PYTHONHASHSEED") != "0":
        os.environ["PYTHONHASHSEED"] = "0"
        os.execv(sys.executable, [sys.executable] + sys.argv)
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = report.Ctx(a.property, a.tier, seed)
    try:
        mod = importlib.import_module("glint.checks." + a.property.lower())
        mod.run(ctx)
        return ctx.finish()
    except model.AnalysisError as e:
        print(f"ANALYSIS-BROKEN property={a.property}: {e}")
        return 2
    except SyntaxError as e:
        print(f"ANALYSIS-BROKEN property={a.property}: source does not parse: {e}")
        return 2
    except Exception as e:
        # What follows is not decided; what was found before stands
        traceback.print_exc()
        ctx.oblige("R0-analysis", f"{type(e).__name__}", None, f"internal error: {e}")
        return ctx.finish()


if __name__ == "__main__":
    sys.exit(main())
