"""dev helper: time cases of a check.  prof.py C04 [step]"""
import sys, os, time, importlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core; core.prepare_env(); import tape; tape.install(); core.import_repo()
mod = importlib.import_module("checks." + sys.argv[1].lower())
step = int(sys.argv[2]) if len(sys.argv) > 2 else 1
tier = os.environ.get("VERIF_TIER", "quick")
if hasattr(mod, "warmup"): mod.warmup()
rows = []; t0 = time.time(); N = 0
for i, c in enumerate(mod.cases(tier, 1)):
    N += 1
    if i % step: continue
    ctx = core.Ctx(); t = time.time(); v = core.run_case(mod, c, ctx)
    rows.append((time.time() - t, i, c, ctx.notes, v and v["message"]))
    if v: print("VIOL", c, v)
rows.sort(key=lambda r: -r[0])
for r in rows[:25]: print("%.2f %d %s %s" % (r[0], r[1], str(r[2])[:160], r[3]))
print("cases", N, "timed", len(rows), "sum %.1f" % sum(r[0] for r in rows))
