#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]
Exit 0: held on everything explored; 1: VIOLATION; 2: the check failed."""
import argparse, os, sys, traceback, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(10000)
import lib

def registry():
    reg = {}
    for m in ("checks_lex", "checks_more", "checks_rules", "checks_io", "checks_api"):
        try: reg.update(importlib.import_module(m).CHECKS)
        except ModuleNotFoundError as e:
            if e.name != m: raise
    return reg

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = ap.parse_args()
    reg = registry()
    ctx = lib.Ctx(a.property, "thorough" if a.tier == "thorough" else "quick", a.seed)
    try:
        try: reg[a.property](ctx)
        except Exception:
            # a violation already found stands, whatever happened afterwards
            if not ctx.violations: raise
            traceback.print_exc()
        return ctx.finish()
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        ctx.cleanup()

if __name__ == "__main__": sys.exit(main())
