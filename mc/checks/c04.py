"""C04: all thread interleavings (preemption bounded) of concurrent readers of one
pattern, and all task orders / interleavings of the parallel Ripley simulations."""
import itertools
import threading
import numpy as np
import lib
import core
import sched
import tape

META = dict(
    technique="stateless exploration of the real code under a controlled thread scheduler "
              "(line/bytecode granularity, preemption bound), controlled joblib backend",
    level_note="Every schedule with at most the stated number of preemptions at the stated "
               "granularity; compiled numpy/scipy calls are atomic steps.  Loky and threading "
               "backends are additionally run freely.",
    rule="a case is a scenario whose schedules are all explored; states are (scenario, schedule); "
         "an outcome is the tuple of values read",
    bounds=dict(quick="2 readers: all attribute pairs, 1 preemption, in 2 cache states (equal pairs in a third); 2 preemptions "
                      "on 5 pairs (bytecode granularity inside the cache helper on 2); 3 readers, 1 preemption; 7 calls with arguments, 1 preemption; "
                      "Ripley: all orders of 4 tasks x 5 statistics, all interleavings of 2 tasks with "
                      "1 preemption over all pointpats lines (G: 2 preemptions, K: 3 tasks, over the lines of distance_statistics)",
                thorough="2 preemptions on all pairs (bytecodes on 10) and on 2-task simulations (all lines for F, G, J); 3 readers with 2 preemptions; all orders of 5 tasks"),
    assumptions=["the GIL makes one bytecode atomic", "one numpy/scipy call is one step"],
)

ATTRS = ["n", "mbb", "mbb_area", "rot", "lambda_mbb", "hull", "hull_area", "lambda_hull", "lambda_window",
         "tree", "nnd", "min_nnd", "max_nnd", "mean_nnd", "window", "knn", "pairs"]
MORE = ["contained", "far", "other", "others", "algebra", "in", "summary"]        # calls with arguments
FINAL = ["mbb", "rot", "lambda_window", "mean_nnd"]
HOT = [("mbb", "mbb"), ("nnd", "nnd"), ("lambda_hull", "hull_area"), ("mean_nnd", "max_nnd"),
       ("lambda_mbb", "rot"), ("window", "lambda_window"), ("tree", "knn"), ("mbb_area", "mbb")]
STATES = ["window", "default", "reset"]
PTS = [(1.0, 2.0), (4.0, 0.5), (3.0, 6.0), (7.5, 3.0), (2.0, 2.5)]
TYPES = "FGJKL"


def cases(tier, seed):
    q = tier == "quick"
    for st in STATES:
        for a, b in itertools.combinations_with_replacement(ATTRS, 2):
            if q and st == "default" and a != b:
                continue
            yield dict(op="read", st=st, t=[[a], [b]], bound=1, fine=st == "window" or not q)
    for a, b in HOT[:1] + HOT[4:] if q else itertools.combinations_with_replacement(ATTRS, 2):
        for st in STATES if not q else STATES[:1]:
            yield dict(op="read", st=st, t=[[a], [b]], bound=2, fine=False)
    for a, b in [("n", "n"), ("mbb", "mbb")] + ([] if q else HOT):
        for part in range(8):
            yield dict(op="read", st="window", t=[[a], [b]], bound=2, fine=True, part=[part, 8])
    for tri in (("mbb", "nnd", "mbb"), ("rot", "mbb_area", "lambda_mbb"), ("mean_nnd", "min_nnd", "tree"),
                ("window", "window", "lambda_window"), ("hull", "hull_area", "mbb")):
        for st in STATES:
            yield dict(op="read", st=st, t=[[x] for x in tri], bound=1 if q else 2, fine=False)
    for a, b in [(a, a) for a in MORE] + [("contained", "far"), ("other", "others"), ("other", "knn"), ("algebra", "window"), ("in", "mbb"), ("algebra", "hull")]:
        for st in STATES[:1] if q else STATES:
            yield dict(op="read", st=st, t=[[a], [b]], bound=1, fine=False)
    for seqs in ([["mbb", "rot"], ["mbb_area", "mbb"]], [["nnd", "min_nnd"], ["mean_nnd", "nnd"]]):
        yield dict(op="read", st="window", t=seqs, bound=1, fine=True)
    for ty in TYPES:
        for perm in itertools.permutations(range(4 if q else 5)):
            yield dict(op="order", ty=ty, perm=perm)
    for ty in TYPES:
        for hull in ("bbox", "convex"):
            if q and hull == "convex" and ty in "FJ":
                continue            # 1000 triangulations per execution
            for part in range(8 if hull == "convex" else 2):
                yield dict(op="inter", ty=ty, hull=hull, tasks=2, bound=1, files=None,
                           part=[part, 8 if hull == "convex" else 2])
        if not q or ty == "K":
            for part in range(4):
                yield dict(op="inter", ty=ty, hull="bbox", tasks=3, bound=1, files="coarse", part=[part, 4])
        if not q or ty == "G":
            for part in range(16):
                yield dict(op="inter", ty=ty, hull="bbox", tasks=2, bound=2, files="coarse", part=[part, 16])
        if not q and ty in "GFJ":
            for part in range(64):
                yield dict(op="inter", ty=ty, hull="bbox", tasks=2, bound=2, files=None, part=[part, 64])
    for ty in TYPES:
        yield dict(op="jobs", ty=ty)
    yield dict(op="loky", ty="G", n=2)
    if not q:
        yield dict(op="loky", ty="F", n=3)
        yield dict(op="loky", ty="J", n=2)


def warmup():
    sched.make_backend()


sched.install_locks()
_tls = threading.local()


# ------------------------------------------------------------------- readers
def fresh(st):
    from pointpats import PointPattern, Window
    w = Window([[(0, 0), (0, 8), (8, 8), (8, 0), (0, 0)]]) if st == "window" else None
    pp = PointPattern([list(p) for p in PTS], window=w)
    if st == "reset":
        pp.set_window(None)
    return pp


def read(pp, a):
    if a == "knn":
        i, d = pp.knn(2)
        return np.asarray(i).tolist(), np.asarray(d)
    if a == "pairs":
        return sorted(map(tuple, pp.find_pairs(3.0)))
    if a == "window":
        return float(pp.window.area), [tuple(map(tuple, r)) for r in pp.window.parts]
    if a in ("contained", "far"):
        return [p.tolist() for p in pp.window.filter_contained([(1.0, 1.0), (2.0, 3.0), (9.0, 1.0), (0.5, 1.5)] if a == "contained" else [(9.0, 9.0), (3.0, 3.0), (7.0, 7.5)])]
    if a in ("other", "others"):
        i, d = pp.knn_other([[0.5, 1.0], [7.0, 7.0]] if a == "other" else [[4.0, 4.0], [2.0, 2.0], [1.0, 6.0]], k=2)
        return np.asarray(i).tolist(), np.asarray(d)
    if a == "algebra":
        u = pp.unique()
        return [u.points.values, pp.superimpose(u).points.values, u.window.area]
    if a == "in":
        return [(1.0, 2.0) in pp, (1.0, 2.5) in pp, len(pp), pp.head(2).values]
    if a == "summary":
        return [np.asarray(getattr(pp, x)) for x in ("n", "mbb", "lambda_window")]
    if a == "tree":
        return np.asarray(pp.tree.data)
    return np.asarray(getattr(pp, a))


def same(a, b):
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True)
    return a == b


def judge_read(case, ctx):
    exp = {a: read(fresh(case["st"]), a) for a in ATTRS + MORE}
    files = sched.repo_files(core.REPO)
    opf = sched.repo_files(core.REPO, ["util.py"]) if case["fine"] else ()

    def make():
        pp = fresh(case["st"])
        return pp, [(lambda s=s: [read(pp, a) for a in s]) for s in case["t"]]

    def verdict(pp, s, schedule):
        ctx.state(case, schedule)
        for i, seq in enumerate(case["t"]):
            if s.error[i] is not None:
                ctx.fail("thread %d reading %r raised %r under schedule %r" % (i, seq, s.error[i], schedule))
            for a, v in zip(seq, s.result[i]):
                ctx.check(same(exp[a], v), lambda: "thread %d read %s = %r, sequentially %r (schedule %r)"
                          % (i, a, v, exp[a], schedule))
        for a in FINAL + [a for t in case["t"] for a in t]:
            v = read(pp, a)
            ctx.check(same(exp[a], v), lambda: "after the threads %s = %r, sequentially %r (schedule %r)"
                      % (a, v, exp[a], schedule))
        ctx.outcome(case["t"], [len(schedule) and schedule[0], schedule[-1:]])
        ctx.trace()
    n, pts, capped = sched.explore(make, verdict, files, case["bound"], opf, part=case.get("part"))
    ctx.step(pts)
    ctx.note("schedules", n)


# -------------------------------------------------------------------- Ripley
def run_test(ty, hull, n_sim, executor, pts=PTS, **kw):
    """-> result; every task has its own stream through default_rng(None)"""
    import joblib
    from pointpats import distance_statistics as ds
    fn = getattr(ds, ty.lower() + "_test")
    count = {}

    def provider():
        t = getattr(_tls, "task", None)
        k = count[t] = count.get(t, 0) + 1
        return np.random.Generator(np.random.PCG64([0 if t is None else 1 + t, k]))

    seen = []

    def ex(thunks):
        base = len(seen)
        seen.extend(thunks)

        def wrap(i, f):
            def g():
                _tls.task = base + i
                try:
                    return f()
                finally:
                    _tls.task = None
            return g
        return executor([wrap(i, f) for i, f in enumerate(thunks)])
    sched._exec[0] = ex
    extra = dict(truncate=False) if ty == "J" else {}
    with tape.fresh(provider):
        with joblib.parallel_config(backend="pp-controlled"):
            r = fn(np.asarray(pts), support=6, n_simulations=n_sim, n_jobs=4, keep_simulations=True,
                   hull=hull, **extra, **kw)
    return r, len(seen), count


def same_result(ctx, r, ref, what):
    for f in ("support", "statistic", "simulations", "pvalue"):
        a, b = np.asarray(getattr(r, f)), np.asarray(getattr(ref, f))
        ctx.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-12, equal_nan=True),
                  lambda: "%s: %s is %r, sequentially %r" % (what, f, a.tolist(), b.tolist()))


def seq(thunks):
    return [t() for t in thunks]


def judge(case, ctx):
    if case["op"] == "read":
        return judge_read(case, ctx)
    ty = case["ty"]
    if case["op"] == "order":
        perm = case["perm"]
        n = len(perm)
        ref, used, _ = run_test(ty, "bbox", n, seq)
        if not used:
            ctx.note("backend not used")
            return

        def ex(thunks):
            out = [None] * len(thunks)
            for i in sorted(range(len(thunks)), key=lambda i: perm[i] if i < n else i):
                out[i] = thunks[i]()
            return out
        r, _, _ = run_test(ty, "bbox", n, ex)
        ctx.state(ty, perm)
        ctx.step(n)
        same_result(ctx, r, ref, "%s_test with tasks executed in order %r" % (ty, perm))
        rows = {tuple(np.nan_to_num(x, nan=-1).round(12)) for x in np.asarray(r.simulations)}
        ctx.outcome(ty, np.asarray(r.simulations))
        ctx.check(len(rows) > 1 or ty in "KL", "all %d simulations are identical" % n)
        ctx.trace()
    elif case["op"] == "inter":
        n = case["tasks"]
        hull = case["hull"]
        pts = PTS[:4] if case["files"] is None else PTS[:3]
        ref, used, _ = run_test(ty, hull, n, seq, pts)
        if not used:
            ctx.note("backend not used")
            return
        files = sched.repo_files(core.REPO) if case["files"] is None else \
            sched.repo_files(core.REPO, ["distance_statistics.py"])
        box = {}
        # generator-style exploration: each execution of the test is one schedule
        stack, count, pts_seen = [()], 0, 0
        part = case.get("part")
        while stack:
            prefix = stack.pop()

            def ex(thunks):
                if len(thunks) == 1:
                    return [thunks[0]()]
                s = sched.Scheduler(thunks, prefix, files).run()
                for e in s.error:
                    if e is not None:
                        raise core.Violation("simulation raised %r under schedule %r"
                                             % (e, tuple(p[2] for p in s.points)))
                box["s"] = s
                return s.result
            r, _, _ = run_test(ty, hull, n, ex, pts)
            s = box["s"]
            choices = tuple(p[2] for p in s.points)
            same_result(ctx, r, ref, "%s_test under schedule %r" % (ty, choices))
            ctx.state(ty, hull, choices)
            ctx.outcome(ty, choices[:3])
            count += 1
            pts_seen += len(choices)
            used = 0
            for i, (en, run_en, ch) in enumerate(s.points):
                if i >= len(prefix) and not (part and not prefix and i % part[1] != part[0]):
                    for alt in en:
                        if alt != ch and used + (1 if run_en and alt != en[0] else 0) <= case["bound"]:
                            stack.append(choices[:i] + (alt,))
                if run_en and ch != en[0]:
                    used += 1
            ctx.trace()
        ctx.step(pts_seen)
        ctx.note("schedules", count)
    elif case["op"] == "jobs":
        # real n_jobs=1 and the threading backend against the controlled run
        import joblib
        from pointpats import distance_statistics as ds
        fn = getattr(ds, ty.lower() + "_test")
        extra = dict(truncate=False) if ty == "J" else {}
        n = 5
        ref, used, count = run_test(ty, "bbox", n, seq)
        main = count.get(None, 0)
        if used and all(count.get(i, 0) == 1 for i in range(n)):
            k = [0]

            def provider():
                i = k[0]
                k[0] += 1
                key = [0, i + 1] if i < main else [1 + i - main, 1]
                return np.random.Generator(np.random.PCG64(key))
            with tape.fresh(provider):
                r = fn(np.asarray(PTS), support=6, n_simulations=n, n_jobs=1, keep_simulations=True,
                       hull="bbox", **extra)
            same_result(ctx, r, ref, "%s_test with n_jobs=1" % ty)
            ctx.trace()
        # a hull so small that every simulation is the same: any number of workers agrees
        tiny = np.array([2.0, 2.0, 2.0 + 1e-9, 2.0 + 1e-9])
        base = None
        for nj, backend in ((1, None), (2, "threading"), (3, "threading"), (-1, "threading")):
            with joblib.parallel_config(backend=backend) if backend else joblib.parallel_config(n_jobs=1):
                r = fn(np.asarray(PTS), support=(0.5, 4.5, 5), n_simulations=4, n_jobs=nj,
                       keep_simulations=True, hull=tiny, **extra)
            ctx.step()
            ctx.state(ty, nj)
            if base is None:
                base = r
                continue
            # K and L scale by the tiny bounding box of the simulated points
            if ty in "KL":
                ctx.eq(np.asarray(r.simulations).shape, (4, 5), "shape of simulations")
                ctx.eq(r.statistic, base.statistic, "statistic with n_jobs=%d" % nj)
            else:
                same_result(ctx, r, base, "%s_test with n_jobs=%d (%s)" % (ty, nj, backend))
        ctx.outcome(ty, base.statistic)
    elif case["op"] == "loky":
        import os
        from pointpats import distance_statistics as ds
        fn = getattr(ds, ty.lower() + "_test")
        pp = os.environ.get("PYTHONPATH", "")
        os.environ["PYTHONPATH"] = core.REPO + (os.pathsep + pp if pp else "")
        pts = lib.structured(20, "uniform", 1)
        try:
            r = fn(pts, support=25, n_simulations=6, n_jobs=case["n"], keep_simulations=True)
            r1 = fn(pts, support=25, n_simulations=6, n_jobs=1, keep_simulations=True)
        finally:
            os.environ["PYTHONPATH"] = pp
            try:
                from joblib.externals.loky import get_reusable_executor
                get_reusable_executor().shutdown(wait=True, kill_workers=True)
            except Exception:
                pass
        ctx.step(2)
        ctx.state(ty, "loky", case["n"])
        sims = np.asarray(r.simulations)
        ctx.eq(r.support, r1.support, "support with worker processes")
        if ty in "GKL":
            ctx.close(r.statistic, r1.statistic, "statistic with worker processes")
        ctx.check(len(np.asarray(r.pvalue)) == sims.shape[1], "p-values with worker processes")
        ctx.check(len(sims) == 6, "simulations with worker processes: shape %r" % (sims.shape,))
        rows = {tuple(np.nan_to_num(x, nan=-1)) for x in sims}
        ctx.check(len(rows) > 1, "worker processes returned 6 identical simulations")
        ctx.outcome(ty, "loky", len(rows))
        ctx.trace()
