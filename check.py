#!/usr/bin/env python3
"""check.py PROPERTY: runs the check of one property (VERIF_SEED and VERIF_TIER as in the manifest)."""
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1]
    if len(sys.argv) > 2:
        os.environ["VERIF_TIER"] = sys.argv[2]
    from vf import run
    try:
        return importlib.import_module("vf.checks." + prop.lower()).main()
    except run.CheckError as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        return 3
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.exit(main())
