"""C10: Ripley tests; the generator's answers are enumerated, so that every simulated
configuration is known and every row can be recomputed."""
import itertools
import math
import warnings
import numpy as np
import lib
import tape

META = dict(
    technique="exhaustive enumeration of random-generator answers (every sequence of cells the simulated points can fall in) x "
              "observed patterns x hulls x statistics on the real *_test functions, rows and p-values recomputed independently",
    level_note="Simulated points range over all placements on a small set of positions in the hull; two or three (thorough: "
               "four) observations; the sequential backend (parallel execution is C04).",
    rule="a case is (statistic, hull, observed pattern, number of simulations); an outcome is (statistic, rows, p-values)",
    bounds=dict(quick="observed: sets of 2 and 3 of a 3x3 lattice (every 4th 3-set); hulls: bbox, box array, polygon with hole, three-part "
                      "multipolygon, convex; all answer scripts of the first simulated pattern (16 to 81); n_simulations 0..9 and the script count",
                thorough="all 3-sets, every 3rd 4-set, 7 hulls, two alphabets"),
    assumptions=["joblib sequential backend runs tasks in process"],
)
STATS = "FGJKL"


def hulls(P):
    """name -> (argument, inside(x, y))"""
    import shapely
    x0, y0, x1, y1 = *P.min(0), *P.max(0)
    B = (-1.0, -0.5, 3.0, 4.5)
    out = {
        "bbox": (None, (x0, y0, x1, y1), lambda x, y: True),
        "named": ("bbox", (x0, y0, x1, y1), lambda x, y: True),
        "box": (np.array(B), B, lambda x, y: True),
        "hole": (shapely.Polygon([(B[0], B[1]), (B[2], B[1]), (B[2], B[3]), (B[0], B[3])],
                                 [[(1, -0.4), (2.9, -0.4), (2.9, 1.3), (1, 1.3)]]), B,
                 lambda x, y: not (1 <= x <= 2.9 and -0.4 <= y <= 1.3)),
    }
    fr = (0.04, 0.37, 0.93)
    cells = [(0, 1), (1, 0), (2, 2)]
    w, h = B[2] - B[0], B[3] - B[1]
    parts = [shapely.box(B[0] + w * (fr[a] - .04), B[1] + h * (fr[b] - .04), B[0] + w * (fr[a] + .04), B[1] + h * (fr[b] + .04))
             for a, b in cells]
    mp = shapely.MultiPolygon(parts)
    b = mp.bounds
    out["parts"] = (mp, b, lambda x, y: any(q.bounds[0] < x < q.bounds[2] and q.bounds[1] < y < q.bounds[3] for q in parts))
    if len(P) >= 3 and not lib.collinear(P):
        ring = lib.hull_ccw(P)

        def inc(x, y):
            return min((bx - ax) * (y - ay) - (by - ay) * (x - ax)
                       for (ax, ay), (bx, by) in zip(ring, ring[1:] + ring[:1]))      # > 0: inside
        out["convex"] = ("convex", (x0, y0, x1, y1), inc)
    return out


ALPH = {"bbox": [(0.13, 0.71), (0.29, 0.52, 0.94)], "named": [(0.2, 0.77), (0.31, 0.9)], "box": [(0.17, 0.63), (0.08, 0.41, 0.87)],
        "hole": [(0.23, 0.81), (0.11, 0.57, 0.93)], "parts": [None, None], "convex": [(0.31, 0.57), (0.23, 0.45, 0.72)]}


def cases(tier, seed):
    q = tier == "quick"
    i = 0
    pats = list(lib.subsets(3, 3, 2)) + list(itertools.islice(lib.subsets(3, 3, 3), 0, None, 4 if q else 1))
    pats += [((0, 0), (0, 0), (2, 1)), ((1, 2), (0, 1), (1, 2))]         # two events at one place
    if not q:
        pats += list(itertools.islice(lib.subsets(3, 3, 4), 0, None, 3))
    for p in pats:
        for st in STATS:
            for hn in ("bbox", "named", "box", "hole", "parts", "convex"):
                i += 1
                if hn == "convex" and len(p) < 3:
                    continue
                if q and hn in ("named", "hole") and i % 3:
                    continue
                if q and hn == "convex" and st in "FJ" and i % 5:
                    continue
                if q and st in "FJ" and i % 2:
                    continue
                yield dict(p=p, st=st, h=hn, a=0, s="mid", n="all")
                if not q and hn != "parts" and len(p) < 4:
                    yield dict(p=p, st=st, h=hn, a=1, s="mid", n="all")
    for p in pats[3::5 if q else 2]:
        for st in STATS:
            for n in range(0, 10):
                i += 1
                yield dict(p=p, st=st, h=("box", "parts")[i % 2], a=0, s="mid" if i % 3 else ("int", "none", "tup", "tup3", "list")[i % 5], n=n)
            for s in ("int", "none", "tup", "tup1", "tup3", "list"):
                yield dict(p=p, st=st, h="bbox", a=0, s=s, n=5)
    for p in pats[2::4 if q else 1]:
        for st in STATS:
            for m in ("cityblock", "chebyshev"):
                i += 1
                yield dict(p=p, st=st, h=("box", "parts", "hole")[i % 3], a=0, s="mid", n="all", m=m)
    for p in pats[1::9 if q else 3]:
        for st in STATS:
            yield dict(op="given", p=p, st=st)
            yield dict(op="opts", p=p, st=st)
    for st in STATS:
        for kind in ("uniform", "cluster", "outlier", "dups"):
            yield dict(op="big", st=st, kind=kind, seed=seed)


def warmup():
    import sklearn.neighbors, joblib            # noqa: F401


class Answers:
    """each default_rng(None) call gets its own scripted generator; script i
    is the i-th of all sequences over the alphabet of the length needed"""

    def __init__(self, alph, length, skip):
        self.scripts = list(itertools.product(alph, repeat=length))
        self.alph = list(alph)
        self.i = -skip
        self.calls = 0

    def __call__(self):
        self.calls += 1
        s = self.scripts[self.i % len(self.scripts)] if self.i >= 0 else ()
        self.i += 1
        return tape.Tape(s, seed=self.calls, alphabet=self.alph).generator()


def frac_alph(case):
    a = ALPH[case["h"]][case["a"]]
    return a


def stat_rows(st, conf, sup, prob, cells, linear=False, mt='euclidean'):
    """the statistic of one simulated configuration, computed directly"""
    C = np.asarray(conf, float)
    n = len(C)
    D = lib.dist_matrix(C, metric=mt)
    if st in "KL":
        w, h = np.ptp(C, axis=0)
        c = np.array([(D[np.triu_indices(n, 1)] < s).sum() for s in sup])
        v = w * h / n * 2 * c / n
        if st == "L":
            v = np.sqrt(v / math.pi) - (sup if linear else 0)
        return v
    g = f = None
    if st in "GJ":
        nn = np.where(np.eye(n, dtype=bool), np.inf, D).min(1)
        g = np.array([(nn <= s).mean() for s in sup])
    if st in "FJ":
        e = lib.dist_matrix(np.asarray(cells), C, metric=mt).min(1)
        f = np.array([prob[e <= s].sum() for s in sup])
        f[f > 1 - 1e-9] = 1.0
    if st == "G":
        return g
    if st == "F":
        return f
    with np.errstate(all="ignore"):
        return (1 - g) / (1 - f)


def fn(st):
    from pointpats import distance_statistics as ds
    return getattr(ds, st.lower() + "_test"), getattr(ds, st.lower())


def pvals(sims, obs):
    return (1 + np.minimum((sims >= obs).sum(0), (sims <= obs).sum(0))) / (len(sims) + 1)


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
        return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol * (1 + np.abs(b))) | (a == b) | ((a != a) & (b != b))))


def check_result(ctx, r, st, n_sims, obs, sup, keep=True, what=""):
    ctx.check(len(r) == 4 and r._fields == ("support", "statistic", "pvalue", "simulations"), "%s: fields of the result %r" % (what, r))
    ctx.check(same(r.support, sup), lambda: "%s: support %r, expected %r" % (what, r.support, sup))
    if obs is not None:
        ctx.check(same(r.statistic, obs), lambda: "%s: statistic %r, expected %r" % (what, r.statistic, obs))
    ctx.check(np.shape(r.pvalue) == np.shape(r.support), "%s: %s p-values for %s support values" % (what, np.shape(r.pvalue), np.shape(r.support)))
    if n_sims <= 0:
        ctx.check(np.isnan(np.asarray(r.pvalue, float)).all(), "%s: p-values without simulations: %r" % (what, r.pvalue))
    if not keep:
        ctx.check(r.simulations is None, "%s: simulations kept without being asked for" % what)
        return
    s = np.asarray(r.simulations, float)
    ctx.check(s.shape == (max(n_sims, 0), len(r.support)), "%s: simulations of shape %s, expected %s" % (what, s.shape, (n_sims, len(r.support))))
    if n_sims > 0:
        want = pvals(s, np.asarray(r.statistic, float))
        ctx.check(same(r.pvalue, want), lambda: "%s: p-values %r, from the simulations and the statistic %r" % (what, r.pvalue, want))


def judge(case, ctx):
    if case.get("op") == "given":
        return judge_given(case, ctx)
    if case.get("op") == "opts":
        return judge_opts(case, ctx)
    if case.get("op") == "big":
        return judge_big(case, ctx)
    st = case["st"]
    mt = case.get("m", "euclidean")
    # the observed lattice, sheared so that distances differ
    P = np.array([(x * 1.0 + 0.17 * y, y * 1.21 - 0.08 * x) for x, y in case["p"]])
    n = len(P)
    hs = hulls(P)
    if case["h"] not in hs:
        return
    hull, B, inside = hs[case["h"]]
    test, plain = fn(st)
    w, h = B[2] - B[0], B[3] - B[1]
    if w <= 0 or h <= 0:
        return
    alph = frac_alph(case)
    if alph is None:      # fractions of the centres of the parts inside the bounds of all parts
        alph = sorted({(c - B[0]) / w for g in hull.geoms for c in [g.centroid.x]} | {(g.centroid.y - B[1]) / h for g in hull.geoms})
        cells = [(B[0] + w * a, B[1] + h * b) for a in alph for b in alph if inside(B[0] + w * a, B[1] + h * b)]
    else:
        cells = [(B[0] + w * a, B[1] + h * b) for a in alph for b in alph]
        if case["h"] == "convex":
            if min(abs(inside(*c)) for c in cells) < 1e-6:
                return              # a place on the boundary: either answer is right
            cells = [c for c in cells if inside(*c) > 0]
        else:
            cells = [c for c in cells if inside(*c)]
    if not cells:
        return
    # scripts: all answer sequences of the length of one pattern, capped by using the first four draws
    length = min(2 * n, 4 if len(alph) > 2 else 6)
    skip = 1 if st in "FJ" else 0
    ans = Answers(alph, length, skip)
    S = len(ans.scripts) if case["n"] == "all" else case["n"]
    confs = list(itertools.combinations_with_replacement(cells, n))
    dc = lib.dist_matrix(np.array(cells), P, metric=mt).min(1)
    if case["s"] == "mid":
        allD = np.unique(np.round(np.concatenate([dc, lib.dist_matrix(np.array(cells), metric=mt).ravel(), lib.dist_matrix(P, metric=mt).ravel()]), 9))
        allD = allD[allD > 1e-6]
        mids = [(a + b) / 2 for a, b in zip(allD, allD[1:]) if b - a > 1e-5]
        sup = np.array([allD[0] / 2] + mids + [allD[-1] + 0.3])
        if len(sup) > 24:      # keep the thresholds that separate the cells as seen from the observed points
            d0 = np.sort(dc)
            keep = sorted({0, len(sup) - 1} | {int(np.searchsorted(sup, d)) for d in d0} | {int(np.searchsorted(sup, d)) - 1 for d in d0} | set(range(0, len(sup), max(1, len(sup) // 10))))
            sup = sup[[k for k in keep if 0 <= k < len(sup)]]
        arg = sup
    else:
        arg = {"int": 7, "none": None, "tup": (0.31, 2.3), "tup1": (2.7,), "tup3": (0.21, 2.57, 9), "list": [0.1, 0.7, 1.9, 2.45]}[case["s"]]
    kw = dict(support=arg, hull=hull, metric=mt, n_simulations=S, n_jobs=1, keep_simulations=True)
    if st == "J":
        kw["truncate"] = False
    what = "%s_test(%r, hull %s, support %s, %r simulations)" % (st.lower(), case["p"], case["h"], case["s"], case["n"])
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        with tape.fresh(ans):
            r = test(P, **kw)
    if S == 0:
        ctx.check(any("simul" in str(x.message).lower() for x in rec), "%s: no warning without simulations" % what)
    ctx.step(S)
    # the support
    if case["s"] == "mid":
        esup = sup
    else:
        NN = np.where(np.eye(n, dtype=bool), np.inf, lib.dist_matrix(P, metric=mt)).min(1).max()
        esup = {"int": np.linspace(0, NN, 7), "none": np.linspace(0, NN, 20), "tup": np.linspace(0.31, 2.3, 20), "tup1": np.linspace(0, 2.7, 20),
                "tup3": np.linspace(0.21, 2.57, 9), "list": np.array([0.1, 0.7, 1.9, 2.45])}[case["s"]]
    obs = None
    if st in "GKL":
        obs = plain(P, support=arg, metric=mt)[1]
    check_result(ctx, r, st, S, obs, esup, what=what)
    # share of empty points in each cell, read off the observed F (and checked for consistency)
    prob = None
    ok = True
    if st in "FJ":
        if case["s"] != "mid" or len(set(np.round(dc, 4))) < len(dc):
            ok = False
        else:
            if st == "F":
                F = np.asarray(r.statistic, float)
            else:
                nn = np.where(np.eye(n, dtype=bool), np.inf, lib.dist_matrix(P, metric=mt)).min(1)
                g = np.array([(nn <= s).mean() for s in sup])
                J = np.asarray(r.statistic, float)
                with np.errstate(all="ignore"):
                    F = np.where(g == 1, np.nan, 1 - (1 - g) / J)
                bad = (g == 1) & ~((J == 0) | np.isnan(J))
                ctx.check(not bad.any(), lambda: "%s: J = %r where g = 1" % (what, J))
            prob = np.full(len(cells), np.nan)
            order = np.argsort(dc)
            prev = 0.0
            for k in order:
                at = [i for i, s in enumerate(sup) if s > dc[k] and not any(dc[m] > dc[k] and dc[m] < s for m in order)]
                vals = [F[i] for i in at if np.isfinite(F[i])]
                if not vals:
                    if k == order[-1]:
                        vals = [1.0]
                    else:
                        ok = False
                        break
                ctx.check(max(vals) - min(vals) < 1e-9, lambda: "%s: F takes the values %r between %r and the next cell" % (what, vals, dc[k]))
                prob[k] = vals[0] - prev
                prev = vals[0]
            below = [F[i] for i, s in enumerate(sup) if s < dc.min() and np.isfinite(F[i])]
            ctx.check(all(abs(v) < 1e-9 for v in below), lambda: "%s: F = %r below the least distance %r of any place in the hull" % (what, below, dc.min()))
            if ok:
                ctx.check(abs(prev - 1) < 1e-9, lambda: "%s: only %r of the empty points are in the hull" % (what, prev))
                ctx.check((prob > 0.3 / len(cells)).all(), lambda: "%s: empty points fall in the %d places of the hull in shares %r" % (what, len(cells), prob))
                ctx.check(np.all(np.abs(prob * 1000 - np.round(prob * 1000)) < 1e-6), "%s: not 1000 empty points" % what)
    if ok and S > 0:
        rows = {}
        cd = lib.dist_matrix(np.array(cells), metric=mt).ravel()
        near = np.abs(np.subtract.outer(esup, np.concatenate([cd, [0.0]])))
        clean = near.min(1) > 1e-7          # support values at no tie
        use = np.flatnonzero(clean)
        for c in confs:
            rows[np.round(stat_rows(st, c, esup, prob, cells, mt=mt)[use], 7).tobytes()] = c
        arr = [(c, stat_rows(st, c, esup, prob, cells, mt=mt)[use]) for c in rows.values()]
        spread = 0
        sims = np.asarray(r.simulations, float)
        done = {}
        for i in range(S):
            kb = np.round(sims[i][use], 7).tobytes()
            if kb not in done:
                m = [c for c, v in arr if same(sims[i][use], v, 1e-7)]
                ctx.check(m, lambda: "%s: simulation %d has values %r that no pattern of %d points in the hull has (support %r)"
                          % (what, i, sims[i].tolist(), n, esup.tolist()))
                done[kb] = max(len(set(c)) for c in confs if same(stat_rows(st, c, esup, prob, cells, mt=mt)[use], sims[i][use], 1e-7)) if len(confs) < 100 else len(set(m[0]))
            ctx.evals += 1
        if case["n"] == "all" and len(cells) > 1 and len(use) and len(arr) > 1:
            ctx.check(len(done) > 1, lambda: "%s: all %d simulations are equal" % (what, S))
            if len(cells) >= n and st in "FGJKL" and len(confs) < 100:
                best = max(len(set(c)) for c in confs if any(same(stat_rows(st, c, esup, prob, cells, mt=mt)[use], v, 1e-7) for _, v in arr))
                ctx.check(max(done.values()) == best, lambda: "%s: no simulation has %d separate points" % (what, best))
        for k in done:
            ctx.state(st, n, case["h"], k)
    ctx.outcome(st, case["h"], r.statistic, r.pvalue)
    ctx.trace(max(S, 1))


def judge_given(case, ctx):
    """distances supplied for the observed pattern; geopandas input; support kinds"""
    import geopandas as gpd
    st = case["st"]
    P = np.array([(x * 1.0 + 0.17 * y, y * 1.21 - 0.08 * x) for x, y in case["p"]])
    n = len(P)
    test, plain = fn(st)
    D = lib.dist_matrix(P)
    NN = np.where(np.eye(n, dtype=bool), np.inf, D).min(1)
    E = np.array([(0.5, 0.5), (1.7, 0.2), (0.1, 2.2), (2.0, 2.0)])
    ED = lib.dist_matrix(P, E)
    B = np.array([-1.0, -0.5, 3.0, 4.5])
    sup = np.array([0.05, 0.33, 0.77, 1.03, 1.61, 2.22, 3.4])
    given = {"G": [NN, D], "F": [ED, ED.min(0)], "K": [D, D[np.triu_indices(n, 1)]], "L": [D, D[np.triu_indices(n, 1)]],
             "J": [(NN, ED.min(0)), (D, ED)]}[st]
    for d in given:
        kw = dict(truncate=False) if st == "J" else {}
        ekw = dict(hull=B) if st in "FJ" else {}
        with tape.fresh(lambda: np.random.default_rng(7)):
            r = test(P, support=sup, distances=d, hull=B, n_simulations=4, n_jobs=1, keep_simulations=True, **kw)
        obs = plain(P, support=sup, distances=d, **ekw, **kw)[1]
        check_result(ctx, r, st, 4, obs, sup, what="%s_test with supplied distances" % st.lower())
        ctx.check(len({np.round(x, 9).tobytes() for x in r.simulations}) > 0, "")
        ctx.step()
    gs = gpd.GeoSeries.from_xy(P[:, 0], P[:, 1])
    res = []
    for v in (P, gs, gpd.GeoDataFrame({"a": range(n)}, geometry=gs.values, index=range(7, 7 + n))):
        c = itertools.count()
        with tape.fresh(lambda: np.random.default_rng([5, next(c)])):
            res.append(test(v, support=sup, hull=B, n_simulations=5, n_jobs=1, keep_simulations=True, **(dict(truncate=False) if st == "J" else {})))
    for r in res[1:]:
        ctx.check(same(r.statistic, res[0].statistic) and same(r.simulations, res[0].simulations) and same(r.pvalue, res[0].pvalue),
                  lambda: "%s_test differs for geopandas input: %r and %r" % (st.lower(), r, res[0]))
    ctx.outcome(st, case["p"])
    ctx.trace()


def judge_opts(case, ctx):
    """keep_simulations, defaults, linearized L, truncated J, metrics, n_simulations <= 0"""
    import shapely
    st = case["st"]
    P = np.array([(x * 1.0 + 0.17 * y, y * 1.21 - 0.08 * x) for x, y in case["p"]])
    test, plain = fn(st)
    B = np.array([-1.0, -0.5, 3.0, 4.5])
    sup = np.array([0.05, 0.33, 0.77, 1.03, 1.61, 2.22, 3.4, 9.0])

    def run(**kw):
        c = itertools.count()
        with tape.fresh(lambda: np.random.default_rng([11, next(c)])):
            return test(P, support=sup, hull=B, n_jobs=1, **kw)
    for n_sims in (-1, 0, 1, 6):
        base = dict(truncate=False) if st == "J" else {}
        full = run(n_simulations=n_sims, keep_simulations=True, **base)
        check_result(ctx, full, st, n_sims, None, sup, what="%s_test, %d simulations" % (st.lower(), n_sims))
        none = run(n_simulations=n_sims, **base)
        check_result(ctx, none, st, n_sims, full.statistic, sup, keep=False, what="%s_test without keep_simulations" % st.lower())
        ctx.check(same(none.pvalue, full.pvalue), "p-values depend on keep_simulations: %r and %r" % (none.pvalue, full.pvalue))
        if st == "J":
            v = np.asarray(full.statistic, float)
            bad = ~np.isfinite(v)
            m = int(bad.argmax()) if bad.any() else len(v)
            for keep in (True, False):
                for kw in (dict(), dict(truncate=True)):
                    cut = run(n_simulations=n_sims, keep_simulations=keep, **kw)
                    ctx.check(cut is not None, "truncated j_test returns nothing")
                    ctx.check(same(cut.support, sup[:m]) and same(cut.statistic, v[:m]) and same(cut.pvalue, full.pvalue[:m]),
                              lambda: "truncated j_test %r, untruncated %r" % (cut, full))
                    if keep:
                        ctx.check(same(cut.simulations, full.simulations[:, :m]), lambda: "simulations of truncated j_test %r, untruncated %r"
                                  % (cut.simulations, full.simulations))
                    else:
                        ctx.check(cut.simulations is None, "simulations kept")
        if st == "L":
            lin = run(n_simulations=n_sims, keep_simulations=True, linearized=True)
            check_result(ctx, lin, st, n_sims, np.asarray(full.statistic) - sup, sup, what="linearized l_test")
            ctx.check(same(lin.simulations, np.asarray(full.simulations) - sup), lambda: "linearized simulations %r, plain %r" % (lin.simulations, full.simulations))
        ctx.step(4)
    spot = np.array([0.4, 0.9, 0.4 + 1e-9, 0.9 + 1e-9])
    for metric in ("cityblock", "chebyshev", "euclidean"):
        kw = dict(truncate=False) if st == "J" else {}
        with tape.fresh(lambda: np.random.default_rng(3)):
            r = test(P, support=sup, hull=spot, metric=metric, n_simulations=3, n_jobs=1, keep_simulations=True, **kw)
            want = plain(P, support=sup, metric=metric, **(dict(hull=spot) if st in "FJ" else {}), **kw)[1]
        check_result(ctx, r, st, 3, want, sup, what="%s_test, metric %s" % (st.lower(), metric))
        # all simulated points coincide
        n = len(P)
        one = np.ones_like(sup)
        exp = {"F": one, "G": one, "J": one * np.nan, "K": one * 0, "L": one * 0}[st]
        ctx.check(all(same(x, exp, 1e-6) for x in np.asarray(r.simulations)), lambda: "%s_test in a one-point hull simulates %r" % (st.lower(), r.simulations))
        # corners of a large box: distances depend on the metric
        A = [0.1, 0.8]
        ans = Answers(A, 2 * min(n, 3), 1 if st in "FJ" else 0)
        with tape.fresh(ans):
            r = test(P, support=sup, hull=np.array([0., 0., 4., 2.5]), metric=metric, n_simulations=64, n_jobs=1, keep_simulations=True, **kw)
        if st in "GK" and n <= 3:
            cells = [(4 * a, 2.5 * b) for a in A for b in A]
            rows = []
            for c in itertools.combinations_with_replacement(cells, n):
                C = np.array(c)
                d = lib.dist_matrix(C, metric=metric)
                if st == "G":
                    nn = np.where(np.eye(n, dtype=bool), np.inf, d).min(1)
                    rows.append(np.array([(nn <= s).mean() for s in sup]))
                else:
                    w, h = np.ptp(C, axis=0)
                    rows.append(w * h / n * 2 * np.array([(d[np.triu_indices(n, 1)] < s).sum() for s in sup]) / n)
            ctx.check(all(any(same(x, y, 1e-7) for y in rows) for x in r.simulations), lambda: "%s_test(metric=%s) simulates rows no pattern has: %r"
                      % (st.lower(), metric, r.simulations))
        ctx.step()
    ctx.outcome(st, case["p"], "opts")
    ctx.trace()


def judge_big(case, ctx):
    """larger patterns: same source of randomness, the two public routes agree"""
    st = case["st"]
    P = lib.structured(40, case["kind"], case["seed"])
    test, plain = fn(st)
    lo, hi = P.min(0), P.max(0)
    for s in (None, 12, (0.5, 3.0), (0.1, 2.0, 6)):
        c = itertools.count()
        with tape.fresh(lambda: np.random.default_rng([23, next(c)])):
            r = test(P, support=s, n_simulations=12, n_jobs=1, keep_simulations=True, **(dict(truncate=False) if st == "J" else {}))
        obs = plain(P, support=s)[1] if st in "GKL" else None
        check_result(ctx, r, st, 12, obs, plain(P, support=s, **(dict(truncate=False) if st == "J" else {}))[0], what="%s_test on 40 points" % st.lower())
        ctx.check(len({np.round(x, 9).tobytes() for x in np.asarray(r.simulations)}) > 3, "simulations repeat each other")
        ctx.step(12)
    ctx.outcome(st, case["kind"], r.statistic)
    ctx.trace()
