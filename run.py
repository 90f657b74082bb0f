#!/usr/bin/env python3
"""./run.py Cnn : decide one property.  VERIF_TIER=quick|thorough, VERIF_SEED."""
import importlib, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks"))
import vlib

def main():
    prop = sys.argv[1]
    ctx = vlib.Ctx(prop)
    try:
        importlib.import_module(prop.lower()).run(ctx)
    except vlib.CheckError as e:
        print("ERROR of the check itself: %s" % e, flush=True)
        return 2
    except Exception:
        traceback.print_exc()
        return 3
    return ctx.finish()

if __name__ == "__main__":
    sys.exit(main())
