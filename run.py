#!/usr/bin/env python3
"""python3 run.py P01 [--thorough]: decides one property. VERIF_SEED seeds every random choice."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vt

def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    mod = importlib.import_module(prop.lower())
    c = vt.Check(prop, seed, tier)
    try:
        mod.run(c)
    except vt.CheckError as e:
        if c.rejections:
            print("note: also failed to complete:", e)
            return c.finish()
        print("CHECK ERROR:", e)
        return 2
    return c.finish()

if __name__ == "__main__":
    try:
        sys.exit(main())
    except Exception:
        traceback.print_exc()
        sys.exit(2)
