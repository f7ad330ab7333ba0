#!/usr/bin/env python3
"""Run the static check of one property: check.py <ID> [--tier quick|thorough] [--repo DIR]

Reads the sources in /repo, never imports or runs them.  Exit 0: every decided obligation of the
property is discharged; 1: a violation (with a VIOLATION line); 2: the analysis itself is broken."""
import argparse
import importlib
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.stdout.reconfigure(errors="backslashreplace")

from ffsa.report import Anchor, Report  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", choices=["quick", "thorough"],
                    default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--repo", default="/repo")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = importlib.import_module(f"ffsa.checks.{a.prop.lower()}")
    try:
        rep = Report(a.prop, a.tier, a.repo, seed)
        mod.run(rep)
        return rep.finish(mod.EXPLANATION)
    except Anchor as exc:
        print(f"ANALYSIS-BROKEN property={a.prop}: {exc}")
        return 2
    except SyntaxError as exc:
        print(f"ANALYSIS-BROKEN property={a.prop}: cannot parse {exc}")
        return 2
    except Exception:
        traceback.print_exc()
        print(f"ANALYSIS-BROKEN property={a.prop}: internal error")
        return 2


if __name__ == "__main__":
    sys.exit(main())
