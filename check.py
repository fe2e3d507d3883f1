#!/opt/venv/bin/python
"""check.py ID            the check of one property (VERIF_SEED, VERIF_TIER)
check.py ID --thorough    the same with a budget of some 20 minutes
check.py ID --replay F    execute a replay file
check.py ID --digests A B [STEP]   digests of runs A..B, for tools/determinism.py"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)

if __name__ == "__main__":
    if "--thorough" in sys.argv:
        sys.argv.remove("--thorough")
        os.environ["VERIF_TIER"] = "thorough"
    from sim import core
    mod = importlib.import_module("checks." + sys.argv[1].lower())
    try:
        rc = core.main(mod, sys.argv[2:])
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc(file=sys.stdout)
        print("ERROR: the check itself failed")
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
