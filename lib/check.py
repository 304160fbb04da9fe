#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property on /repo's current working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import importlib
    for mod in ("tecs", "conc", "misc", "perm"):
        try:
            m = importlib.import_module(mod)
        except ModuleNotFoundError:
            continue
        f = getattr(m, prop, None)
        if f:
            break
    else:
        print("unknown property", prop)
        return 2
    c = vlib.Check(prop, tier)
    try:
        f(c)
    except vlib.MachineryError as e:
        print("MACHINERY ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    return c.finish()

sys.exit(main())
