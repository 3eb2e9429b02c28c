"""C09: F, G, J, K, L on every support against their definitions."""
import itertools
import math
import sys
import numpy as np
import lib
import tape

META = dict(
    technique="exhaustive enumeration of lattice patterns x support forms x metrics x supplied/computed distances x input "
              "kinds, real code against direct counting (values at ties may fall on either side)",
    level_note="All patterns and supports of the stated alphabets; empty-space points are made deterministic by hulls that "
               "shrink to one or two points, or supplied; numpy's generator answers from a fixed source.",
    rule="a case is (pattern, frame, metric, group of supports); an outcome is the vector of statistics on a support",
    bounds=dict(quick="3x3 sets of 2-5 points, multisets of 2-4; 4x4 sets of 3; 13 support forms, 4 long or very uneven ones on a seventh; all 2-subsets of 8 support "
                      "values for sets of 2-3, 3-subsets for sets of 2 and a quarter of those of 3; hull-drawn empty points on every 7th case; metrics euclidean/l2/cityblock/manhattan/chebyshev/callable; families n in {12, 60}",
                thorough="plus 4x4 sets of 4, 3x3 multisets of 5, 3-subsets and 4-subsets of supports for all sets of 2-4, all frames"),
    assumptions=["scipy/scikit-learn nearest-neighbour trees"],
)
LATT = [0.0, 0.4, 1.0, 1.2, math.sqrt(2), 1.7, 2.0, 2.6]
FORMS = [None, 2, 5, 20, 33, (1.5,), (2.5,), (0.3, 2.2), (1.0, 2.0), (0.7, 1.3, 4), (0.0, 3.0, 7),
         [0.1, 0.9, 1.05, 2.9], [0.95, 1.9]]
LONG = [150, (0.2, 3.1, 128), [3 * (i / 140) ** 2 for i in range(141)], [0.0, 1e-4, 0.5, 2.9, 40.0, 41.0]]
METRICS = ["euclidean", "cityblock", "chebyshev", "l2", "manhattan", "callable"]


def cases(tier, seed):
    for i, c in enumerate(_cases(tier, seed)):
        if i % 7 == 0 or tier != "quick":
            c["e"] = 1                  # with empty-space points drawn in hulls
        yield c


def _cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    i = 0
    for k in (2, 3, 4):
        for p in lib.multisets(3, 3, k):
            i += 1
            yield dict(p=p, f="id", m=METRICS[i % 6], s="forms")
            if not q or (len(set(p)) == k and i % 2):
                yield dict(p=p[::-1], f=fr[i % len(fr)], m="euclidean", s="forms")
    for p in itertools.chain(lib.subsets(3, 3, 5), lib.subsets(4, 4, 3)):
        i += 1
        yield dict(p=p, f=fr[i % len(fr)], m=METRICS[(i // 6) % 3], s="forms")
    for k in (2, 3) if q else (2, 3, 4):
        for p in lib.subsets(3, 3, k):
            i += 1
            for m in (2, 3) if q else (2, 3, 4):
                if q and m == 3 and k == 3 and i % 4:
                    continue
                yield dict(p=p, f="id", m="euclidean", s=m)
    if not q:
        for p in itertools.chain(lib.subsets(4, 4, 4), lib.multisets(3, 3, 5)):
            i += 1
            yield dict(p=p, f=fr[i % len(fr)], m=METRICS[(i // 6) % 6], s="forms")
    for n in (12, 60) if q else (7, 12, 30, 60, 150, 300):
        for kind in lib.KINDS:
            for f in ("id", "proj", "lonlat") if q else fr:
                for m in METRICS[:3]:
                    yield dict(n=n, kind=kind, f=f, m=m, seed=seed, s="forms")
    for n in (400, 900) if not q else (400,):
        for kind in ("grid", lib.KINDS[seed % 8]):
            yield dict(n=n, kind=kind, f=("id", "proj")[kind == "grid"], m="euclidean", seed=seed, s="forms")
    for p in itertools.islice(lib.subsets(3, 3, 4), 0, None, 9):
        yield dict(p=p, f="id", m="euclidean", s="nosk")


def warmup():
    import sklearn.neighbors            # noqa: F401


def manhattan_fn(a, b):
    return float(abs(a[0] - b[0]) + abs(a[1] - b[1]))


class no_sklearn:
    def __enter__(self):
        self.old = sys.modules.get("sklearn.neighbors")
        sys.modules["sklearn.neighbors"] = None

    def __exit__(self, *a):
        if self.old is None:
            del sys.modules["sklearn.neighbors"]
        else:
            sys.modules["sklearn.neighbors"] = self.old


def bracket(D, s, tol):
    """counts of distances certainly below / possibly at or below each support value"""
    D = np.sort(np.ravel(D))
    return np.searchsorted(D, s - tol, "left"), np.searchsorted(D, s + tol, "right")


def judge(case, ctx):
    import geopandas as gpd
    import shapely
    from scipy import spatial
    from pointpats import distance_statistics as ds
    P0 = np.asarray(case["p"], float) if "p" in case else lib.structured(case["n"], case["kind"], case["seed"])
    P = lib.frame(P0, case["f"])
    sc = lib.FRAMES[case["f"]][0]
    n = len(P)
    ctx.state(P, case["m"], case["s"])
    mname = case["m"]
    metric = manhattan_fn if mname == "callable" else mname
    rm = "cityblock" if mname == "callable" else mname
    D = lib.dist_matrix(P, metric=rm)
    NN = np.where(np.eye(n, dtype=bool), np.inf, D).min(1)
    iu = np.triu_indices(n, 1)
    pairs = D[iu]
    ulp = np.finfo(float).eps * np.abs(P).max()
    tol = 1e-9 * max(D.max(), sc) + 16 * ulp
    w, h = np.ptp(P, axis=0)
    area = float(w * h)

    # supports, in the units of the frame
    if case["s"] == "forms" or case["s"] == "nosk":
        sups = []
        u = sc if "p" in case else max(NN.max(), sc * 1e-3) / 2
        for f in FORMS + (LONG if case.get("e") else []):
            if f is None or isinstance(f, int):
                sups.append(f)
            elif isinstance(f, tuple):
                sups.append(tuple(x * u if i < 2 else x for i, x in enumerate(f)))
            else:
                sups.append(np.array(f) * u)
                sups.append([x * u for x in f])
    else:
        sups = [np.array(c) for c in itertools.combinations(LATT, case["s"])]

    def ref_support(s):
        if s is None:
            s = 20
        if isinstance(s, int):
            return np.linspace(0, NN.max(), s)
        if isinstance(s, tuple):
            a = (0.0, s[0], 20) if len(s) == 1 else (s[0], s[1], s[2] if len(s) > 2 else 20)
            return np.linspace(*a)
        return np.asarray(s, float)

    def check_support(got, s, what):
        ctx.close(got, ref_support(s), "support of " + what, rtol=1e-9, atol=tol)

    def check_fraction(got, s, dd, what):
        gs, v = got
        check_support(gs, s, what)
        v = np.asarray(v, float)
        ctx.check(v.shape == gs.shape, "%s has %s values for %s support points" % (what, v.shape, gs.shape))
        lo, hi = bracket(dd, gs, tol)
        m = np.size(dd)
        bad = (v < lo / m - 1e-12) | (v > hi / m + 1e-12) | (np.abs(v * m - np.round(v * m)) > 1e-9 * m)
        ctx.check(not bad.any(), lambda: "%s = %r at support %r, distances %r" % (what, v.tolist(), gs.tolist(), np.sort(np.ravel(dd)).tolist()[:40]))

    def check_k(got, s, what, f=lambda x, s: x):
        gs, v = got
        check_support(gs, s, what)
        v = np.asarray(v, float)
        ctx.check(v.shape == gs.shape, "%s has %s values for %s support points" % (what, v.shape, gs.shape))
        lo, hi = bracket(pairs, gs, tol)
        # some integer count between lo and hi explains the value
        c = np.arange(lo.min(), hi.max() + 1)
        cand = f(area / n * 2 * c[:, None] / n, gs[None, :])
        ok = (c[:, None] >= lo) & (c[:, None] <= hi)
        near = np.abs(cand - v) <= 1e-7 * np.abs(cand) + 1e-12 * max(area, sc)
        ctx.check((ok & near).any(0).all(), lambda: "%s = %r at support %r (area %r, n %d, pair counts between %r and %r)"
                  % (what, v.tolist(), gs.tolist(), area, n, lo.tolist(), hi.tolist()))

    # empty space points: supplied distances, a hull that is one point, a hull that is two
    E = np.vstack([P.mean(0), P[0] + sc * np.array([0.31, 0.17]), P[-1] - sc * np.array([0.6, -0.22]), P[0]])
    ED = lib.dist_matrix(P, E, metric=rm)                    # (n, p)
    spot = P.mean(0) + sc * np.array([0.37, 0.11])
    tiny = np.array([spot[0], spot[1], spot[0] + 1e-9 * sc + 2 * ulp, spot[1] + 1e-9 * sc + 2 * ulp])
    tinyd = np.full(1000, lib.dist_matrix(P, spot[None], metric=rm).min())
    far = P.max(0) + sc * np.array([1.3, 0.4])
    two = shapely.MultiPolygon([shapely.box(*spot, *(spot + 1e-3 * sc)), shapely.box(*(spot + [.004 * sc, 0]), *(spot + [.005 * sc, .001 * sc]))])

    gs_ = gpd.GeoSeries.from_xy(P[:, 0], P[:, 1])
    gd_ = gpd.GeoDataFrame({"a": range(n)}, geometry=gs_.values, index=range(5, 5 + n)).rename_geometry("g")
    ins = [("array", P)]
    if case["s"] == "forms":
        ins += [("list", P.tolist()), ("GeoSeries", gs_), ("GeoDataFrame", gd_), ("tree", spatial.KDTree(P))]
    pd_ok = mname in ("euclidean", "cityblock", "chebyshev", "callable")
    for isu, s in enumerate(sups):
        label = "(%s, support=%r)" % (mname, s if not isinstance(s, np.ndarray) else s.tolist())
        for nm, v in ins if isu == 7 else ins[:1] + ins[1 + isu % 4:2 + isu % 4]:
            ctx.step(4)
            if case["s"] == "nosk":
                with no_sklearn():
                    check_fraction(ds.g(v, support=s), s, NN, "g without scikit-learn")
                    check_fraction(ds.f(v, support=s, hull=tiny), s, tinyd, "f without scikit-learn")
                    check_k(ds.k(v, support=s), s, "k without scikit-learn")
                continue
            check_fraction(ds.g(v, support=s, metric=metric), s, NN, "g(%s)%s" % (nm, label))
            if pd_ok:
                check_k(ds.k(v, support=s, metric=metric), s, "k(%s)%s" % (nm, label))
                check_k(ds.l(v, support=s, metric=metric), s, "l(%s)%s" % (nm, label), lambda x, t: np.sqrt(x / np.pi))
                check_k(ds.l(v, support=s, metric=metric, linearized=True), s, "linearized l(%s)%s" % (nm, label),
                        lambda x, t: np.sqrt(x / np.pi) - t)
        if case["s"] == "nosk":
            continue
        if case.get("e") and isu % 4 == 0:
            check_fraction(ds.f(P, support=s, hull=tiny, metric=metric), s, tinyd, "f%s with a one-point hull" % label)
        if rm in ("euclidean", "l2") or not (s is None or isinstance(s, int)):
            # supplied distances (the metric argument is ignored then)
            check_fraction(ds.g(P, support=s, distances=NN), s, NN, "g%s from a vector" % label)
            check_fraction(ds.g(P, support=s, distances=D), s, NN, "g%s from a matrix" % label)
            check_fraction(ds.f(P, support=s, distances=ED), s, ED.min(0), "f%s from a (n,p) matrix" % label)
            check_fraction(ds.f(P, support=s, distances=ED.min(0)), s, ED.min(0), "f%s from a vector" % label)
            # a square matrix of distances to n empty points
            S4 = ED[:, np.arange(n) % 4]
            check_fraction(ds.f(P, support=s, distances=S4), s, S4.min(0), "f%s from a square matrix" % label)
            check_k(ds.k(P, support=s, distances=D), s, "k%s from a matrix" % label)
            check_k(ds.k(P, support=s, distances=pairs), s, "k%s from a vector" % label)
            check_k(ds.l(P, support=s, distances=pairs, linearized=True), s, "linearized l%s from a vector" % label,
                    lambda x, t: np.sqrt(x / np.pi) - t)
            ctx.step(8)
            for dd, gD, fD, dn in (((NN, ED.min(0)), NN, ED.min(0), "vectors"), ((D, ED), NN, ED.min(0), "matrices")):
                check_j(ctx, ds.j(P, support=s, distances=dd, truncate=False), ds.j(P, support=s, distances=dd),
                        ref_support(s), gD, fD, tol, "j%s from %s" % (label, dn))
                ctx.step(2)
        if case.get("e") and isu % 4 == 1:
            check_j(ctx, ds.j(P, support=s, hull=tiny, metric=metric, truncate=False), ds.j(P, support=s, hull=tiny, metric=metric),
                    ref_support(s), NN, tinyd, tol, "j%s with a one-point hull" % label)
            ctx.step(2)
        ctx.outcome(rm, NN / sc, np.asarray(ref_support(s)) / sc)
    if case["s"] != "nosk" and case.get("e"):
        # empty points reach both parts of a hull
        r1 = lib.dist_matrix(P, np.asarray(two.geoms[0].exterior.coords), metric=rm).min(0)
        r2 = lib.dist_matrix(P, np.asarray(two.geoms[1].exterior.coords), metric=rm).min(0)
        a, b = sorted([(r1.min(), r1.max()), (r2.min(), r2.max())])
        if a[1] + 2e-4 * sc + 32 * ulp < b[0]:
            cut = (a[1] + b[0]) / 2
            _, v = ds.f(P, support=np.array([max(a[0] - sc * 1e-3, 0), cut, b[1] + sc]), hull=two, metric=metric)
            ctx.check(0.3 < v[1] < 0.7 and v[2] == 1, lambda: "f with a two-part hull of equal parts gives %r" % (v,))
    ctx.trace()


def check_j(ctx, full, cut, s, gD, fD, tol, what):
    gs, v = full
    v = np.asarray(v, float)
    ctx.close(gs, s, "support of %s" % what, rtol=1e-9, atol=tol)
    ctx.check(v.shape == gs.shape, "%s has %s values for %s support points" % (what, v.shape, gs.shape))
    glo, ghi = (x / np.size(gD) for x in bracket(gD, gs, tol))
    flo, fhi = (x / np.size(fD) for x in bracket(fD, gs, tol))
    with np.errstate(all="ignore"):
        for i in range(len(gs)):
            ok = False
            for a in {glo[i], ghi[i]} if glo[i] == ghi[i] else np.arange(round(glo[i] * np.size(gD)), round(ghi[i] * np.size(gD)) + 1) / np.size(gD):
                fs = [flo[i]] if flo[i] == fhi[i] else sorted({flo[i], fhi[i]} | set(np.arange(round(flo[i] * np.size(fD)), round(fhi[i] * np.size(fD)) + 1) / np.size(fD)) if np.size(fD) < 1000 else {flo[i], fhi[i]})
                for b in fs:
                    if b == 1:
                        want = np.nan if a == 1 else np.inf
                        ok |= (np.isnan(v[i]) if a == 1 else v[i] == np.inf)
                    else:
                        want = (1 - a) / (1 - b)
                        ok |= abs(v[i] - want) <= 1e-9 * (1 + want)
            ctx.check(ok, lambda: "%s = %r at %r; g in [%r, %r], f in [%r, %r]" % (what, v[i], gs[i], glo[i], ghi[i], flo[i], fhi[i]))
    # truncation: everything before the first undefined or infinite value
    bad = np.isnan(v) | np.isinf(v)
    m = int(bad.argmax()) if bad.any() else len(v)
    ctx.eq(np.asarray(cut[0]), np.asarray(gs)[:m], "support of truncated %s" % what)
    ctx.eq(np.asarray(cut[1]), v[:m], "truncated %s" % what)
