"""C07: centres and dispersion against exact definitions."""
import itertools
import math
from fractions import Fraction
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of lattice configurations (with coincidences and collinear sets) x frames x "
              "weights x input kinds, real code against exact definitions (rational arithmetic, convex optimum)",
    level_note="Every multiset on the stated lattices; larger patterns in fixed families; the Euclidean median is "
               "compared through its objective (relative 1e-5) because the library uses a numerical optimiser.",
    rule="a case is a point sequence in a frame; an outcome is (mean, median, standard distance, least total distance)",
    bounds=dict(quick="3x3: all sets of 1-9 points (medians of up to 6), all multisets of 2-4; 4x4 sets of 3; orders: "
                      "rotations/reversal; frames: all 6 for n<=3, id/proj otherwise; weights over {0,1,3} for n<=3; "
                      "families n in {5, 30, 120}",
                thorough="plus 4x4 sets of 4 and 5, 3x3 multisets of 5 and 6, 5x5 sets of 4, all orders for n<=4"),
    assumptions=["numpy reductions", "scipy.optimize.minimize"],
)


def cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    i = 0
    for k in (1, 2, 3):
        for p in lib.multisets(3, 3, k):
            for f in fr:
                yield dict(p=p, f=f, w=k <= 3, perms=True)
    for p in lib.multisets(3, 3, 4):
        i += 1
        yield dict(p=p, f=("id", "proj")[i % 2], perms=not q)
        if not q:
            yield dict(p=p, f=fr[i % len(fr)], perms=False)
    for k in range(5, 10):
        for p in lib.subsets(3, 3, k):
            i += 1
            for f in ("id", "proj") if q else fr:
                yield dict(p=p if i % 2 else p[::-1], f=f)
    for p in lib.subsets(4, 4, 3):
        i += 1
        yield dict(p=p, f=fr[i % len(fr)])
    if not q:
        for k in (4, 5):
            for p in lib.subsets(4, 4, k):
                i += 1
                yield dict(p=p, f=fr[i % len(fr)])
        for k in (5, 6):
            for p in lib.multisets(3, 3, k):
                i += 1
                yield dict(p=p[1:] + p[:1], f=fr[i % len(fr)])
        for p in lib.subsets(5, 5, 4):
            i += 1
            yield dict(p=p, f=fr[i % len(fr)])
    for n in (5, 30, 120) if q else (5, 6, 11, 30, 61, 120, 500, 2000):
        for kind in lib.KINDS:
            for f in fr:
                yield dict(n=n, kind=kind, f=f, seed=seed)


def total(c, P):
    return math.fsum(math.hypot(x - c[0], y - c[1]) for x, y in P)


def median_ref(P):
    """least sum of distances (convex): a data point when the pull of the others
    does not exceed its multiplicity, else damped Newton from the mean"""
    P = np.asarray(P, float)
    U, m = np.unique(P, axis=0, return_counts=True)
    best = None
    for u, k in zip(U, m):
        d = P - u
        r = np.hypot(d[:, 0], d[:, 1])
        o = r > 0
        g = (d[o] / r[o, None]).sum(0)
        if np.hypot(*g) <= k + 1e-12:
            return total(u, P), u
        t = total(u, P)
        if best is None or t < best[0]:
            best = (t, u)
    c = P.mean(0)
    f = total(c, P)
    for _ in range(200):
        d = P - c
        r = np.maximum(np.hypot(d[:, 0], d[:, 1]), 1e-300)
        g = -(d / r[:, None]).sum(0)
        e = d / r[:, None]
        H = np.zeros((2, 2))
        for k in range(len(P)):
            H += (np.eye(2) - np.outer(e[k], e[k])) / r[k]
        H += 1e-14 * np.trace(H) * np.eye(2)
        s = -np.linalg.solve(H, g)
        t = 1.0
        while t > 1e-14 and total(c + t * s, P) > f:
            t /= 2
        if t <= 1e-14:
            s = -g / max(np.hypot(*g), 1e-300) * np.ptp(P, axis=0).max()   # steepest descent instead
            t = 1.0
            while t > 1e-16 and total(c + t * s, P) >= f:
                t /= 2
            if t <= 1e-16:
                break
        c = c + t * s
        nf = total(c, P)
        if f - nf <= 1e-16 * f:
            f = nf
            break
        f = nf
    return min((f, c), best, key=lambda x: x[0])


def judge(case, ctx):
    import geopandas as gpd
    from pointpats import centrography as C
    P0 = np.asarray(case["p"], float) if "p" in case else lib.structured(case["n"], case["kind"], case["seed"])
    s, dx, dy = lib.FRAMES[case["f"]]
    P = lib.frame(P0, case["f"])
    n = len(P)
    ctx.state(P)
    Q = P - P[0]
    ext = float(np.ptp(Q, axis=0).max())
    ulp = np.finfo(float).eps * float(np.abs(P).max())
    tol = 1e-9 * ext + 16 * ulp
    F = [(Fraction(float(x)), Fraction(float(y))) for x, y in P]

    gs = gpd.GeoSeries.from_xy(P[:, 0], P[:, 1])
    gdf = gpd.GeoDataFrame({"v": range(n)}, geometry=gs.values, index=range(3, 3 + n)).rename_geometry("where")
    kinds = {"array": P, "list": P.tolist(), "tuples": [tuple(t) for t in P.tolist()],
             "GeoSeries": gs, "GeoDataFrame": gdf}
    if (P == np.round(P)).all():
        kinds["int array"] = P.astype(int)
        kinds["int list"] = P.astype(int).tolist()
    xy = lambda g: np.array([g.x, g.y]) if hasattr(g, "x") else np.asarray(g, float)

    # mean
    mean = [sum(c[j] for c in F) / n for j in (0, 1)]
    # median
    med = []
    for j in (0, 1):
        v = sorted(c[j] for c in F)
        med.append((v[(n - 1) // 2] + v[n // 2]) / 2)
    ss = sum((c[0] - mean[0]) ** 2 + (c[1] - mean[1]) ** 2 for c in F) / n
    sd = math.sqrt(ss)
    fm = np.array([float(mean[0]), float(mean[1])])
    fd = np.array([float(med[0]), float(med[1])])
    for nm, v in kinds.items():
        ctx.close(xy(C.mean_center(v)), fm, "mean_center(%s)" % nm, rtol=0, atol=tol)
        ctx.close(xy(C.manhattan_median(v)), fd, "manhattan_median(%s)" % nm, rtol=0, atol=4 * ulp)
        ctx.close(C.std_distance(v), sd, "std_distance(%s)" % nm, rtol=1e-9, atol=16 * ulp)
    ctx.step(3 * len(kinds))

    # weighted means
    ws = []
    if case.get("w"):
        ws = [w for w in itertools.product((0, 1, 3), repeat=n) if sum(w)]
    else:
        ws = [tuple(range(1, n + 1)), tuple(1 for _ in range(n)), tuple(0.5 * (i % 3) for i in range(n + 1))[1:]]
    for iw, w in enumerate(ws):
        if not sum(w):
            continue
        W = [Fraction(x) for x in w]
        t = sum(W)
        want = np.array([float(sum(a * c[j] for a, c in zip(W, F)) / t) for j in (0, 1)])
        for nm, v in (list(kinds.items()) if iw < 4 else list(kinds.items())[:1] + [("GeoSeries", gs)]):
            # the unit of the weights does not matter
            for wk, wv in (("list", list(w)), ("array", np.array(w)), ("1/64 of", np.array(w) / 64), ("2^40 times", np.array(w) * 2.0**40)):
                ctx.close(xy(C.weighted_mean_center(v, wv)), want, "weighted_mean_center(%s, %s %s)" % (nm, wk, w),
                          rtol=0, atol=tol)
        ctx.step()
    ctx.close(xy(C.weighted_mean_center(gdf, gdf["v"] + 1)),
              xy(C.weighted_mean_center(P, np.arange(1, n + 1))), "weights from a column", rtol=0, atol=tol)

    # sums of distances
    import shapely
    probes = [tuple(P[0]), tuple(P[-1]), tuple(fm), (P[0][0] + ext + s, P[0][1] - 2 * s)]
    for c in probes:
        want = total(c, P)
        ctx.close(C.dtot(np.array(c), P), want, "dtot(array)", rtol=1e-9, atol=16 * n * ulp)
        ctx.close(C.dtot(list(c), P.tolist()), want, "dtot(list)", rtol=1e-9, atol=16 * n * ulp)
        ctx.close(C.dtot(shapely.Point(c), gs), want, "dtot(Point, GeoSeries)", rtol=1e-9, atol=16 * n * ulp)
        ctx.close(C.dtot(shapely.Point(c), gdf), want, "dtot(Point, GeoDataFrame)", rtol=1e-9, atol=16 * n * ulp)
        ctx.step(4)

    # Euclidean median
    best, at = median_ref(Q)
    for nm in ("array",) if n > 6 else ("array", "list", "GeoSeries", "GeoDataFrame"):
        m = xy(C.euclidean_median(kinds[nm]))
        ctx.check(m.shape == (2,) and np.isfinite(m).all(), "euclidean_median(%s) = %r" % (nm, m))
        got = total(m - P[0], Q)
        slack = n * ext * 1e-5 + 64 * n * ulp
        ctx.check(got <= best + slack, lambda: "euclidean_median(%s) %r has total distance %.12g, the least is %.12g at %r"
                  % (nm, m.tolist(), got, best, (at + P[0]).tolist()))
        ctx.step()
    # order
    if case.get("perms"):
        orders = itertools.islice(itertools.permutations(range(n)), 1, None)
    else:
        orders = [tuple(range(n))[::-1], tuple(range(1, n)) + (0,)]
    for o in orders:
        R = P[list(o)]
        ctx.close(C.mean_center(R), fm, "mean_center of reordered points", rtol=0, atol=tol)
        ctx.close(C.manhattan_median(R), fd, "manhattan_median of reordered points", rtol=0, atol=4 * ulp)
        ctx.close(C.std_distance(R), sd, "std_distance of reordered points", rtol=1e-9, atol=16 * ulp)
        ctx.step(3)
    ctx.outcome(fm / s, fd / s, sd / s, best / s)
    ctx.trace()


