#!/usr/bin/env python3
"""Decide one property of /repo's current source:  check.py <ID> [--tier quick|thorough]"""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from fv.model import Program, Unsupported        # noqa: E402
from fv.report import Report                     # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    rep = Report(a.id, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    mod = importlib.import_module(f"fv.checks.{a.id.lower()}")
    try:
        prog = Program()
        mod.run(prog, rep)
        return rep.finish(prog, mod.RULE)
    except Unsupported as e:
        print(f"UNDECIDED property={a.id}: the analysis cannot interpret this source: {e}")
        if os.environ.get("FV_DEBUG"):
            traceback.print_exc()
        if rep.violated():
            return rep.finish(prog, mod.RULE)
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={a.id}: the checker itself failed")
        if rep.violated():
            return rep.finish(prog, mod.RULE)       # what was found before stands
        return 2


if __name__ == "__main__":
    sys.exit(main())
