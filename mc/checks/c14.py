"""C14: randomness comes only from the rng given (or from numpy's global state where documented)."""
import copy
import hashlib
import itertools
import json
import os
import subprocess
import sys
import warnings
import numpy as np

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import core
import lib
import simlib
import tape

META = dict(
    technique="exhaustive enumeration of histories of random-consuming operations up to a depth, before and between seeded calls, on the real "
              "code; results and numpy's global state compared, fresh entropy intercepted",
    level_note="All histories of up to 2 (thorough: 3) operations from an alphabet of 12; all seed kinds; larger histories only as one long mixed run.",
    rule="a case is (target, history) or (target, seeds); an outcome is the returned array",
    bounds=dict(quick="14 seeded targets x all histories of length 0..2 over 12 operations, placed before the call and between two draws from one "
                      "generator; 10 global-state targets x all histories of length 1..2 before the seed; 9 rng kinds; 24 seeds; 2 fresh processes",
                thorough="histories of length 3; 120 seeds"),
    assumptions=[],
)
CHUNK = 4
EVT = np.array([[0., 0], [1, 0], [1, 1], [3, 1], [2, 2], [5, 5], [4, 1]]), np.array([[0.], [1], [3], [2], [2], [5], [9]])


def targets():
    """name -> f(rng) -> array; every one takes an rng"""
    from pointpats import random as r
    from pointpats import QStatistic
    box, hole, cv = (simlib.make(k)["arg"] for k in ("box", "hole", "convex"))
    P = lib.structured(9, "uniform")

    def q(**kw):
        return lambda g: QStatistic(P, realizations=6, rng=g, **kw).chi2_realizations
    return {
        "poisson": lambda g: r.poisson(box, size=(4, 3), rng=g),
        "poisson intensity": lambda g: r.poisson(hole, intensity=2.0, rng=g),
        "poisson convex": lambda g: r.poisson(cv, size=5, rng=g),
        "normal": lambda g: r.normal(box, size=(4, 3), rng=g),
        "normal cov": lambda g: r.normal(hole, center=(.2, .3), cov=np.array([[1, .3], [.3, 1.]]), size=4, rng=g),
        "cluster_poisson": lambda g: r.cluster_poisson(box, size=(7, 3), n_seeds=2, rng=g),
        "cluster_poisson radius": lambda g: r.cluster_poisson(hole, size=6, n_seeds=3, cluster_radius=[.3, .4, .5], rng=g),
        "cluster_normal": lambda g: r.cluster_normal(box, size=(7, 3), n_seeds=2, rng=g),
        "cluster_normal cov": lambda g: r.cluster_normal(hole, cov=.2, size=6, n_seeds=3, rng=g),
        "strauss": lambda g: r.strauss(box, size=(3, 3), n_iter=20, gamma=.5, r=.4, rng=g),
        "strauss hole": lambda g: r.strauss(hole, size=4, n_iter=20, gamma=.9, r=.4, rng=g),
        "QStatistic": q(nx=4, ny=4),
        "QStatistic hexagon": q(shape="hexagon", lh=1.5),
        "QStatistic window": q(nx=5, ny=4, window=simlib.make("parts")["arg"]),
    }


def global_targets():
    """name -> f() -> array; documented to use numpy's global random state"""
    import pointpats as pp
    s, t = EVT
    win = pp.Window([[(0., 0.), (4., 0.), (4., 3.), (0., 3.), (0., 0.)]])

    def proc(c, *a, **k):
        def f():
            d = c(win, *a, **k)
            return np.vstack([np.asarray(d.realizations[i]) for i in sorted(d.realizations)] + [[[len(d.realizations), d.samples]]])
        return f
    return {
        "PoissonPointProcess": proc(pp.PoissonPointProcess, 4, 3),
        "PoissonPointProcess conditioning": proc(pp.PoissonPointProcess, 4, 3, conditioning=True),
        "PoissonClusterPointProcess": proc(pp.PoissonClusterPointProcess, 6, 2, .5, 2),
        "PoissonClusterPointProcess conditioning": proc(pp.PoissonClusterPointProcess, 6, 2, .5, 2, conditioning=True),
        "Knox": lambda: np.append(pp.Knox(s, t, 1.5, 1, permutations=9, keep=True).sim, 0),
        "KnoxLocal": lambda: np.ravel(pp.KnoxLocal(s, t, 1.5, 1, permutations=5, keep=True).sims),
        "knox": lambda: np.ravel(pp.knox(s, t, 1.5, 1, permutations=19)["pvalue"]),
        "mantel": lambda: np.ravel(pp.mantel(s, t, 9)["pvalue"]),
        "jacquez": lambda: np.ravel(pp.jacquez(s, t, 2, 9)["pvalue"]),
        "modified_knox": lambda: np.ravel(pp.modified_knox(s, t, 1.5, 1, 9)["pvalue"]),
    }


def history_ops():
    from pointpats import random as r
    import pointpats as pp
    T, G = targets(), global_targets()
    return [
        ("np.random.seed(7)", lambda: np.random.seed(7)),
        ("np.random.rand(3)", lambda: np.random.rand(3)),
        ("default_rng().random()", lambda: np.random.default_rng().random()),
        ("poisson(rng=1)", lambda: T["poisson"](1)),
        ("normal(rng=None)", lambda: T["normal"](None)),
        ("cluster_poisson(rng=3)", lambda: T["cluster_poisson"](3)),
        ("cluster_normal(rng=None)", lambda: T["cluster_normal"](None)),
        ("strauss(rng=2)", lambda: T["strauss"](2)),
        ("QStatistic(rng=None)", lambda: T["QStatistic"](None)),
        ("Knox", G["Knox"]),
        ("PoissonPointProcess", G["PoissonPointProcess conditioning"]),
        ("g_test", lambda: pp.distance_statistics.g_test(EVT[0], n_simulations=3, n_jobs=1)),
    ]


NAMES = ["poisson", "poisson intensity", "poisson convex", "normal", "normal cov", "cluster_poisson", "cluster_poisson radius", "cluster_normal",
         "cluster_normal cov", "strauss", "strauss hole", "QStatistic", "QStatistic hexagon", "QStatistic window"]
GNAMES = ["PoissonPointProcess", "PoissonPointProcess conditioning", "PoissonClusterPointProcess", "PoissonClusterPointProcess conditioning", "Knox",
          "KnoxLocal", "knox", "mantel", "jacquez", "modified_knox"]
NOPS = 12


def cases(tier, seed):
    q = tier == "quick"
    yield dict(op="process", seed=seed)
    for t in NAMES:
        yield dict(op="kinds", t=t)
        yield dict(op="differ", t=t, n=24 if q else 120, seed=seed)
    for t in GNAMES:
        yield dict(op="gdiffer", t=t, seed=seed)
    for d in (0, 1, 2) if q else (0, 1, 2, 3):
        for h in itertools.product(range(NOPS), repeat=d):
            for i, t in enumerate(NAMES):
                if d == 2 and q and (sum(h) + h[0] + i) % 2:
                    continue
                if d == 3 and (sum(h) + h[0] + i) % 7:
                    continue
                yield dict(op="hist", t=t, h=h)
            for i, t in enumerate(GNAMES):
                if d == 0 or (d == 2 and q and (sum(h) + h[0] + i) % 3) or (d == 3 and (sum(h) + h[0] + i) % 11):
                    continue
                yield dict(op="ghist", t=t, h=h)
    for t in NAMES:
        yield dict(op="hist", t=t, h=tuple(range(NOPS)) * 2)


_T, _G, _H, _REF = {}, {}, [], {}


def warmup():
    tape.install()
    _T.update(targets())
    _G.update(global_targets())
    _H.extend(history_ops())


def no_entropy():
    raise core.Violation("fresh entropy was used although an rng was given")


def ref(t, k):
    if (t, k) not in _REF:
        a = _T[t](np.random.Generator(np.random.PCG64(k)))
        g = np.random.Generator(np.random.PCG64(k))
        _REF[t, k] = (a, [_T[t](g) for _ in range(3)])
    return _REF[t, k]


def gref(t, k):
    if ("g", t, k) not in _REF:
        with tape.seeded_legacy(k):
            _REF["g", t, k] = _G[t]()
    return _REF["g", t, k]


def call(t, g):
    """one seeded call: no fresh entropy, global state untouched"""
    before = lib.rng_state()
    with tape.fresh(no_entropy):
        r = _T[t](g)
    if lib.rng_state() != before:
        raise core.Violation("%s with an rng changed numpy's global random state" % t)
    return r


def judge(case, ctx):
    if not _T:
        warmup()
    t = case.get("t")
    op = case["op"]
    ctx.state(op, t, case.get("h"))
    if op == "hist":
        ops = [_H[i] for i in case["h"]]
        what = "%s after %s" % (t, [o[0] for o in ops])
        for k in (5, 0):
            want, seq = ref(t, k)
            for nm, f in ops:
                f()
                ctx.step()
            ctx.eq(call(t, k), want, what + ": rng=%d" % k)
            g = np.random.Generator(np.random.PCG64(k))
            got = [call(t, g)]
            for nm, f in ops:
                f()
                ctx.step()
            got += [call(t, g), call(t, g)]
            for i in range(3):
                ctx.eq(got[i], seq[i], what + ": draw %d from one generator" % (i + 1))
            ctx.step(4)
        ctx.outcome(t, want)
        ctx.trace()
    elif op == "ghist":
        ops = [_H[i] for i in case["h"]]
        what = "%s after %s" % (t, [o[0] for o in ops])
        k = 5
        want = gref(t, k)
        for nm, f in ops:
            f()
        with tape.seeded_legacy(k):
            with tape.fresh(no_entropy):
                got = _G[t]()
        ctx.eq(got, want, what + ": after np.random.seed(%d)" % k)
        # operations that take their own rng do not shift the global stream
        with tape.seeded_legacy(k):
            for i in (3, 5, 7, 4):
                _H[i][1]()
            got = _G[t]()
        ctx.eq(got, want, what + ": seeded, then seeded simulators, then the function")
        ctx.step(len(ops) + 6)
        ctx.outcome(t, want)
        ctx.trace()
    elif op == "kinds":
        mk = {"int": lambda k: k, "int64": np.int64, "Generator": lambda k: np.random.Generator(np.random.PCG64(k)),
              "MT19937": lambda k: np.random.Generator(np.random.MT19937(k)), "Philox": lambda k: np.random.Generator(np.random.Philox(k)),
              "BitGenerator": lambda k: np.random.PCG64(k), "SeedSequence": lambda k: np.random.SeedSequence(k), "list": lambda k: [k, 3]}
        if t.startswith("QStatistic"):
            mk["RandomState"] = np.random.RandomState
        for nm, f in mk.items():
            for k in (0, 1, 5, 99999, 2 ** 31 - 1) + ((2 ** 32, 2 ** 32 + 5, 2 ** 40 + 1) if nm in ("int", "int64", "Generator", "SeedSequence") else ()):
                a = call(t, f(k))
                for i in (0, 1, 4, 8):
                    _H[i][1]()
                b = call(t, f(k))
                ctx.eq(b, a, "%s: rng %s(%d) twice" % (t, nm, k))
                if nm in ("int", "int64"):
                    ctx.eq(a, call(t, np.random.Generator(np.random.PCG64(k))), "%s: rng=%d against default_rng(%d)" % (t, k, k))
                ctx.step(3)
                ctx.outcome(t, nm, a)
        # generators in the same state, also in the middle of a stream
        for skip in (0, 1, 7):
            g = np.random.Generator(np.random.PCG64(3))
            g.random(skip)
            g2 = copy.deepcopy(g)
            ctx.eq(call(t, g), call(t, g2), "%s: generators in the same state (after %d draws)" % (t, skip))
            ctx.eq(call(t, g), call(t, g2), "%s: and once more" % t)
            ctx.check(g.random() == g2.random(), "%s: the generators end in different states" % t)
        # no rng: everything comes from fresh generators
        def prov():
            i = iter(range(1000))
            return lambda: np.random.Generator(np.random.PCG64(next(i)))
        before = lib.rng_state()
        with tape.fresh(prov()):
            a = [_T[t](None) for _ in range(2)]
        with tape.fresh(prov()):
            b = [_T[t](None) for _ in range(2)]
        ctx.check(lib.rng_state() == before, "%s without an rng changed numpy's global random state" % t)
        for x, y in zip(a, b):
            ctx.eq(x, y, "%s without rng: same fresh entropy" % t)
        ctx.check(not np.array_equal(*a), "%s without rng: the same twice" % t)
        a = [_T[t](None) for _ in range(3)]
        ctx.check(not (np.array_equal(a[0], a[1]) or np.array_equal(a[1], a[2])), "%s without rng: the same twice" % t)
        ctx.trace()
    elif op == "differ":
        coarse = t.startswith("QStatistic")
        seen = {}
        ks = list(range(case["n"] - 4)) + [case["seed"] + 1000, 99999, 100000, 2 ** 40]
        for k in ks:
            g = np.random.Generator(np.random.PCG64(k))
            a, b = call(t, g), call(t, g)
            for nm, v in (("first", a), ("second", b)):
                key = np.round(v, 7).tobytes()
                if not coarse:
                    ctx.check(key not in seen, lambda: "%s: %s draw from seed %d is the same as %r" % (t, nm, k, seen[key]))
                seen[key] = (k, nm)
            ctx.check(coarse or not np.array_equal(a, b), "%s: two draws from one generator are the same" % t)
            if a.ndim == 3:
                for i, j in itertools.combinations(range(len(a)), 2):
                    ctx.check(not np.array_equal(a[i], a[j]) and len(np.intersect1d(a[i], a[j])) < a[i].size / 2,
                              lambda: "%s: seed %d: replications %d and %d are the same" % (t, k, i, j))
            pts = a.reshape(-1, 2) if not coarse else None
            if pts is not None:
                ctx.check(len(np.unique(pts, axis=0)) == len(pts), lambda: "%s: seed %d: repeated points %r" % (t, k, a.tolist()))
            ctx.step(2)
        if coarse:
            ctx.check(len(seen) > len(ks), lambda: "%s: only %d different results for %d seeds, two draws each" % (t, len(seen), len(ks)))
        ctx.trace()
    elif op == "gdiffer":
        seen = set()
        for k in range(12):
            with tape.seeded_legacy(k + 100 * case["seed"]):
                with tape.fresh(no_entropy):
                    a, b = _G[t](), _G[t]()
            with tape.seeded_legacy(k + 100 * case["seed"]):
                c = _G[t]()
                _H[3][1]()
                d = _G[t]()
            ctx.eq(c, a, "%s seeded with %d, again" % (t, k))
            ctx.eq(d, b, "%s seeded with %d, second call" % (t, k))
            seen |= {a.tobytes(), b.tobytes()}
            ctx.step(4)
        ctx.check(len(seen) > (20 if "Process" in t else 2), "%s: %d different results from 24 calls" % (t, len(seen)))
        ctx.trace()
    else:
        outs = []
        for hs in ("0", "1234"):
            env = dict(os.environ, PYTHONHASHSEED=hs, VERIF_REPO=core.REPO)
            p = subprocess.run([sys.executable, __file__, str(case["seed"])], env=env, capture_output=True, text=True, timeout=200)
            if p.returncode:
                ctx.fail("fresh process failed: " + p.stderr[-500:])
            outs.append(json.loads(p.stdout.strip().splitlines()[-1]))
        mine = digests(case["seed"])
        for k in mine:
            ctx.check(mine[k] == outs[0][k] == outs[1][k], "%s: same seed, different results in different processes" % k)
            ctx.step(2)
        ctx.trace()


def digests(seed):
    out = {}
    for n, f in (_T or targets()).items():
        out[n] = hashlib.sha1(np.ascontiguousarray(f(seed)).tobytes()).hexdigest()
    for n, f in (_G or global_targets()).items():
        with tape.seeded_legacy(seed):
            out["global " + n] = hashlib.sha1(np.ascontiguousarray(f(), dtype=float).tobytes()).hexdigest()
    return out


if __name__ == "__main__":
    core.prepare_env()
    core.import_repo()
    warnings.simplefilter("ignore")
    print(json.dumps(digests(int(sys.argv[1]))))
