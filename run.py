"""run.py CXX [--thorough] [--replay FILE] | run.py --selftest   (VERIF_SEED, VERIF_TIER)"""
import importlib
import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
for k in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ[k] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ.setdefault("HOME", "/root")


def main(argv):
    if argv[:1] == ["--selftest"]:
        from vlib import selftest
        return selftest.main()
    prop = argv[0].upper()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = "thorough" if "--thorough" in argv else (os.environ.get("VERIF_TIER", "quick") or "quick")
    replay = None
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            replay = json.load(f)
        seed, tier = replay["seed"], replay["tier"]
    from vlib import core
    mod = importlib.import_module("checks." + prop.lower())
    ck = core.Check(prop, seed, tier if tier in core.TOTAL_LIMIT else "quick", replay)
    try:
        mod.setup(ck)
        return ck.run()
    except core.HarnessError as e:
        print("HARNESS ERROR: %s" % e)
        return 2


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
