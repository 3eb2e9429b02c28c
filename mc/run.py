"""usage: run.py <ID> [--tier quick|thorough] [--replay FILE]

exit 0: the property held on everything explored; exit 1: VIOLATION printed."""
import os
import sys
import json
import time
import argparse
import importlib
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core

core.prepare_env()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    ap.add_argument("--budget", type=float, default=None)
    ap.add_argument("--workers", type=int, default=None)
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    pid = a.id
    try:
        import tape            # numpy randomness seams go in before pointpats
        tape.install()
        core.import_repo()
        mod = importlib.import_module("checks." + pid.lower())
        if a.replay:
            rec = json.load(open(a.replay))
            if hasattr(mod, "warmup"):
                mod.warmup()
            ctx = core.Ctx()
            v = core.run_case(mod, rec["case"], ctx)
            if v is None:
                print("replay: property held on this case")
                return 0
            print("replay:", v["message"])
            print(v.get("traceback", ""))
            print("VIOLATION property=%s replay=%s" % (pid, a.replay))
            return 1
        budget = a.budget or (None if tier == "quick" else
                              float(os.environ.get("VERIF_BUDGET", getattr(mod, "THOROUGH_BUDGET", 800))))
        res = core.explore(mod, tier, seed, workers=a.workers, budget=budget)
        return core.report(pid, mod, tier, seed, res, t0)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        tb = traceback.format_exc()
        os.makedirs(core.OUT, exist_ok=True)
        rp = os.path.join(core.OUT, pid + "-setup.json")
        json.dump(dict(property=pid, case={}, message=str(e), traceback=tb), open(rp, "w"))
        print(tb)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.stderr.flush()
    sys.exit(code)
