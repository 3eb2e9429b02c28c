"""C23: the same points give the same results however (and in whatever order) they are handed over."""
import contextlib
import itertools
import math
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of small patterns x every representation accepted x every public function that accepts points, "
              "and of the orders of the points, on the real code against its own result for a plain float array",
    level_note="All representations are run on every pattern; the result for the plain float array in the first order is judged by the "
               "other properties.",
    rule="a case is (group of functions, pattern, frame); its executions are all representations and all orders within the bound",
    bounds=dict(quick="3x3-lattice patterns: 4-subsets, every 3rd 5-subset and every 5th 5-multiset, structured patterns of 8 and 30 points; 14 to 22 "
                      "representations; orders: all rotations, the reversal and all transpositions of neighbours",
                thorough="all 4- and 5-subsets and 4- and 5-multisets of the 3x3 lattice, structured patterns of 8, 30 and 60 points; all "
                         "24 or 120 orders up to 5 points"),
    assumptions=["a function that draws gets the same seed for every representation"],
)
GROUPS = ("centro", "dist", "quadrat", "pattern", "spacetime", "density", "window")


LAST = [""]


def named(gen):
    """remember the last representation handed out, for messages"""
    def run(*a, **k):
        for how, v in gen(*a, **k):
            LAST[0] = how
            yield how, v
    return run


# ------------------------------------------------------------------ representations
def view(P, kind):
    n = len(P)
    if kind == "strided":
        b = np.full((2 * n, 4), -77.0, dtype=P.dtype)
        b[::2, 1:3] = P
        return b[::2, 1:3]
    if kind == "reversed":
        return P[::-1].copy()[::-1]
    if kind == "readonly":
        q = P.copy()
        q.setflags(write=False)
        return q
    raise KeyError(kind)


@named
def arrays(P):
    yield "float array", P.copy()
    yield "Fortran-ordered array", np.asfortranarray(P)
    for k in ("strided", "reversed", "readonly"):
        yield k + " array", view(P, k)
    yield "big-endian array", P.astype(">f8")
    if (P == np.round(P)).all():
        yield "int64 array", P.astype(np.int64)
        yield "strided int64 array", view(P.astype(np.int64), "strided")
        yield "int32 array", P.astype(np.int32)
        if P.min() >= 0:
            yield "uint64 array", P.astype(np.uint64)
            if P.max() < 250:
                yield "uint8 array", P.astype(np.uint8)


@named
def lists(P):
    L = P.tolist()
    yield "list of lists", L
    yield "list of tuples", [tuple(p) for p in L]
    yield "tuple of tuples", tuple(tuple(p) for p in L)
    yield "list of arrays", list(P.copy())
    if (P == np.round(P)).all():
        yield "list of int lists", P.astype(int).tolist()
        yield "list mixing ints and floats", [[int(p[0]), p[1]] if k % 2 else p for k, p in enumerate(L)]


@named
def geo(P, multi=False):
    import geopandas as gpd
    import shapely
    g = gpd.points_from_xy(*P.T)
    n = len(P)
    yield "GeoSeries", gpd.GeoSeries(g)
    yield "GeoSeries, descending index and CRS", gpd.GeoSeries(g, index=range(n, 0, -1), crs=3857)
    yield "GeoSeries, text index", gpd.GeoSeries(g, index=[chr(ord("z") - k % 26) + str(k) for k in range(n)], name="here")
    yield "GeoSeries, repeated index", gpd.GeoSeries(g, index=[k // 2 for k in range(n)])
    yield "GeoDataFrame", gpd.GeoDataFrame({"x": range(n), "y": 0.5}, geometry=g)
    yield "GeoDataFrame, renamed geometry", gpd.GeoDataFrame({"geometry_": 1, "time": range(n)}, geometry=g, index=np.arange(n) * 7 % 1009,
                                                             crs=3857).rename_geometry("spot")
    f = gpd.GeoDataFrame({"spot": g, "geometry": gpd.points_from_xy(P[:, 1] * 3 + 1, P[:, 0])}, geometry="spot")
    yield "GeoDataFrame, two geometry columns", f
    if multi:
        yield "GeoSeries of a MultiPoint", gpd.GeoSeries([shapely.MultiPoint(P[:n // 2]), *[shapely.Point(p) for p in P[n // 2:]]])
        yield "GeoDataFrame of a MultiPoint", gpd.GeoDataFrame({"a": [1]}, geometry=[shapely.MultiPoint(P)])


@named
def trees(P, metric):
    from scipy.spatial import KDTree as SKD
    from sklearn.neighbors import BallTree, KDTree
    yield "sklearn KDTree", KDTree(P.copy(), metric=metric)
    yield "sklearn BallTree", BallTree(P.copy(), metric=metric, leaf_size=2)
    if metric == "euclidean":
        yield "scipy KDTree", SKD(P.copy(), leafsize=2)


@named
def weights(w):
    import pandas as pd
    n = len(w)
    yield "list", w.tolist()
    yield "tuple", tuple(w.tolist())
    yield "array", w.copy()
    b = np.full(3 * n, 99.0)
    b[::3] = w
    yield "strided array", b[::3]
    r = w.copy()
    r.setflags(write=False)
    yield "readonly array", r
    yield "Series", pd.Series(w)
    yield "Series, descending index", pd.Series(w, index=range(n - 1, -1, -1))
    yield "Series, repeated index", pd.Series(w, index=[0] * n)
    if (w == np.round(w)).all():
        yield "int array", w.astype(int)
        yield "list of ints", w.astype(int).tolist()
        yield "int8 array", w.astype(np.int8)


# ------------------------------------------------------------------ orders
def orders(n, full):
    ident = tuple(range(n))
    if full and n <= 5:
        yield from (p for p in itertools.permutations(ident) if p != ident)
        return
    yield ident[::-1]
    for k in sorted({1, 2, n // 2, n - 1}) if n > 8 else range(1, n):
        yield ident[k:] + ident[:k]
    for k in range(n - 1) if n <= 8 else (0, n // 3, n - 2):
        p = list(ident)
        p[k], p[k + 1] = p[k + 1], p[k]
        yield tuple(p)


# ------------------------------------------------------------------ cases
def patterns(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    L = lib.lattice(3)
    k = seed
    for m, step, mk in ((4, 1, itertools.combinations), (5, 3 if q else 1, itertools.combinations),
                        (4, 5 if q else 1, itertools.combinations_with_replacement), (5, 37 if q else 1, itertools.combinations_with_replacement)):
        for i, p in enumerate(mk(L, m)):
            if (i + seed) % step or lib.collinear(p) or mk is itertools.combinations_with_replacement and len(set(p)) in (m, 1, 2):
                continue
            k += 1
            # every pattern that keeps whole numbers (id, proj, big) in two of three
            yield p, ("id", "proj", fr[k % len(fr)])[k % 3]
    for kind in lib.KINDS:
        for n in (8, 30) if q else (8, 30, 60):
            k += 1
            yield (kind, n, seed), ("id", fr[k % len(fr)])[k % 2]


def cases(tier, seed):
    q = tier == "quick"
    for i, (p, f) in enumerate(patterns(tier, seed)):
        for j, g in enumerate(GROUPS):
            if g in ("density", "window") and (i + seed) % (6 if q else 2):
                continue
            if g in ("dist", "spacetime") and q and (i + j + seed) % (3 if g == "dist" else 2):
                continue
            yield dict(group=g, p=[list(x) for x in p] if not isinstance(p[0], str) else list(p), frame=f, full=not q)


def points(case):
    p = case["p"]
    P = lib.structured(int(p[1]), p[0], int(p[2])) if isinstance(p[0], str) else np.array(p, float)
    return lib.frame(P, case["frame"])


# ------------------------------------------------------------------ comparison
@contextlib.contextmanager
def seeded(seed=5):
    """the same random stream for every execution, whatever the entry point"""
    real = np.random.default_rng
    np.random.seed(seed)
    np.random.default_rng = lambda s=None: real(seed if s is None else s)
    try:
        yield
    finally:
        np.random.default_rng = real


def flat(o):
    """numbers of a result, in order"""
    import shapely
    if o is None:
        return []
    if isinstance(o, shapely.Geometry):
        return shapely.get_coordinates(o).ravel().tolist()
    if isinstance(o, (list, tuple)):
        return [x for y in o for x in flat(y)]
    if isinstance(o, dict):
        return [x for k in sorted(o) for x in [float(k), *flat(o[k])]]
    return np.asarray(o, float).ravel().tolist()


class Same:
    def __init__(self, ctx, what, ref, tol):
        self.ctx, self.what, self.ref, self.tol = ctx, what, np.asarray(flat(ref)), tol

    def __call__(self, got, how):
        g = np.asarray(flat(got))
        self.ctx.step()
        self.ctx.check(g.shape == self.ref.shape and np.allclose(g, self.ref, rtol=1e-9, atol=self.tol, equal_nan=True),
                       lambda: "%s given %s: %s, for the plain float array: %s" % (self.what, how, _s(got), _s(self.ref.tolist())))


def _s(x):
    s = repr(x)
    return s if len(s) < 500 else s[:500] + "..."


# ------------------------------------------------------------------ centrography
def rect_unique(P):
    """is the smallest enclosing rectangle unique"""
    h = np.array(lib.hull_ccw(P))
    areas = {}
    for a, b in zip(h, np.roll(h, -1, 0)):
        u = (b - a) / np.hypot(*(b - a))
        s, t = h @ u, h @ np.array([-u[1], u[0]])
        areas[round(math.degrees(math.atan2(u[1], u[0])) % 90, 4) % 90] = np.ptp(s) * np.ptp(t)
    v = sorted(areas.values())
    return len(v) == 1 or v[1] - v[0] > 1e-6 * v[0]


def hull_form(v, case):
    """a hull's extent in every direction, and its vertices where collinear points are exactly so"""
    v = np.asarray(v, float)
    t = np.arange(48) * math.pi / 24
    c = np.array(lib.hull_ccw(points(case)))
    out = (np.column_stack([np.cos(t), np.sin(t)]) @ (v - c.mean(0)).T).max(1).tolist()
    if not isinstance(case["p"][0], str) and case["frame"] in ("id", "proj", "big"):
        out += flat(np.unique(v, axis=0))
    return out


def centro(case, ctx):
    import shapely
    from pointpats import centrography as C
    P = points(case)
    n, sc = len(P), float(np.ptp(P, 0).max())
    eps = 1e-9 * sc + 4e-15 * np.abs(P).max()
    w = 1.0 + (np.arange(n) * 3) % 5
    vset = lambda r: hull_form(shapely.get_coordinates(r) if isinstance(r, shapely.Geometry) else r, case)  # noqa: E731
    uniq = rect_unique(P)

    def circle(r):
        if isinstance(r, shapely.Geometry):
            c = np.array(flat(shapely.centroid(r)))
            return [*c, float(np.hypot(*(shapely.get_coordinates(r) - c).T).max())]
        return flat(r)

    def rect(r):
        v = np.array(shapely.get_coordinates(r)[:4] if isinstance(r, shapely.Geometry) else r)
        out = [math.sqrt(abs(shapely.Polygon(v).area))]
        if uniq:
            out += flat(sorted(map(tuple, np.round(v / sc, 7).tolist())))
        return out

    def bounds(r):
        if isinstance(r, shapely.Geometry):
            c = shapely.get_coordinates(r)
            return [*c.min(0), *c.max(0)]
        return r

    # name -> (function, normal form, tolerance)
    fns = {
        "hull": (C.hull, vset, eps), "mean_center": (C.mean_center, flat, eps), "manhattan_median": (C.manhattan_median, flat, eps),
        "std_distance": (C.std_distance, flat, eps),
        "minimum_bounding_rectangle": (C.minimum_bounding_rectangle, bounds, eps),
        "minimum_rotated_rectangle": (C.minimum_rotated_rectangle, rect, max(eps, 1e-7 * (sc if sc > 1 else 1))),
        "minimum_bounding_circle": (C.minimum_bounding_circle, circle, 1e-7 * sc + eps),
        "weighted_mean_center": (lambda p, w=w: C.weighted_mean_center(p, w), flat, eps),
    }
    if case["frame"] != "tiny":
        fns["euclidean_median"] = (C.euclidean_median, flat, 3e-3 * sc)
    for name, (fn, norm, tol) in fns.items():
        ctx.state(name, case["p"], case["frame"])
        ref = norm(fn(P.copy()))
        same = Same(ctx, name, ref, tol)
        for how, q in itertools.chain(arrays(P), lists(P), geo(P)):
            r = fn(q)
            if "Geo" in how and name != "std_distance":
                want = shapely.Point if norm is flat else shapely.Polygon
                ctx.check(isinstance(r, want), lambda: "%s given a %s returns %r" % (name, how, r))
            same(norm(r), how)
            ctx.trace()
        for o in orders(n, case["full"]):
            o = list(o)
            f = fn if name != "weighted_mean_center" else (lambda p: C.weighted_mean_center(p, w[o]))
            same(norm(f(P[o])), "in order %s" % o)
            ctx.trace()
    # the angle
    if uniq and case["frame"] not in ("tiny",):
        ref = C.minimum_rotated_rectangle(P.copy(), return_angle=True)[1]
        for how, q in itertools.chain(arrays(P), lists(P), geo(P)):
            a = C.minimum_rotated_rectangle(q, return_angle=True)[1]
            d = abs(a - ref) % 90
            ctx.check(min(d, 90 - d) < 1e-4, lambda: "minimum_rotated_rectangle's angle given %s: %r, for the plain float array %r" % (how, a, ref))
    # ellipse
    for ww in (None, w):
        for kw in (dict(), dict(method="Yuill"), dict(method="yuill", crimestatCorr=False), dict(method="yuill", degfreedCorr=False)):
            ref = C.ellipse(P.copy(), weights=ww, **kw)
            flatness = abs(ref[0] - ref[1]) > 1e-6 * ref[0]

            def norm(r):
                r = flat(r)
                return [r[0], r[1], *([math.cos(2 * r[2]), math.sin(2 * r[2])] if flatness else [])]
            tol = 1e-7 * max(sc, 1 if flatness else 0)
            same = Same(ctx, "ellipse(%s)" % kw, norm(ref), tol)
            forms = list(itertools.chain(arrays(P), lists(P)))
            for how, q in forms if not kw else forms[:3] + forms[-2:]:
                same(norm(C.ellipse(q, weights=ww, **kw)), how)
                ctx.trace()
            for o in itertools.islice(orders(n, case["full"]), None if not kw else 5):
                o = list(o)
                same(norm(C.ellipse(P[o], weights=None if ww is None else ww[o], **kw)), "in order %s" % o)
            if ww is not None:
                for how, v in weights(w):
                    same(norm(C.ellipse(P.copy(), weights=v, **kw)), "weights as " + how)
            g0 = None
            c = P.mean(0) if ww is None else ww @ P / ww.sum()
            for how, q in geo(P):
                for wh, v in [("none", None)] if ww is None else (weights(w) if not kw else [("array", w)]):
                    g = C.ellipse(q, weights=v, **kw)
                    ctx.check(isinstance(g, shapely.Polygon), lambda: "ellipse given a %s returns %r" % (how, g))
                    x = shapely.get_coordinates(g) - c
                    t = ref[2]
                    ax = np.column_stack([x @ [math.cos(t), math.sin(t)], x @ [-math.sin(t), math.cos(t)]])
                    b = [ax[:, 0].max(), -ax[:, 0].min(), ax[:, 1].max(), -ax[:, 1].min()] if flatness else [np.hypot(*x.T).max()]
                    wantb = [ref[0], ref[0], ref[1], ref[1]] if flatness else [ref[0]]
                    ctx.step()
                    ctx.check(np.allclose(b, wantb, rtol=1e-6, atol=1e-7 * sc + 4 * eps), lambda: "ellipse(%s) given %s, weights as %s: reaches %s from "
                              "the centre along the axes, the array result is %s" % (kw, how, wh, b, ref))
                    ctx.trace()
    for how, v in weights(w):
        same = Same(ctx, "weighted_mean_center", C.weighted_mean_center(P.copy(), w), eps)
        for ph, q in (("array", P.copy()), ("list", P.tolist()), *geo(P)):
            same(C.weighted_mean_center(q, v), "%s, weights as %s" % (ph, how))
            ctx.trace()
    # dtot
    c = P[0] + [0.3 * sc, 0.7 * sc]
    same = Same(ctx, "dtot", C.dtot(c.copy(), P.copy()), n * eps)
    for how, q in itertools.chain(arrays(P), lists(P)):
        for x in (c, c.tolist(), tuple(c.tolist())):
            same(C.dtot(x, q), "%s from %r" % (how, x))
    for how, q in geo(P):
        same(C.dtot(shapely.Point(c), q), how)
    for o in orders(n, case["full"]):
        same(C.dtot(c, P[list(o)]), "in order %s" % (o,))


# ------------------------------------------------------------------ distance statistics
def dist(case, ctx):
    import shapely
    from pointpats import distance_statistics as S
    P = points(case)
    n = len(P)
    small = n <= 10
    U = np.unique(P, axis=0)
    lo, hi = P.min(0), P.max(0)
    hull = shapely.box(*(lo - .1 * (hi - lo)), *(hi + .1 * (hi - lo)))
    forms = [*arrays(P), *lists(P), *geo(P)]
    mets = ("euclidean", "cityblock", "chebyshev")
    pos = int(np.abs(np.asarray(P)).sum() * 7) % 3
    for metric in mets if case["full"] else ("euclidean", *([mets[pos]] if pos else [])):
        D = lib.dist_matrix(P, metric=metric)
        sup = np.unique([lib.gap(D, x) for x in (-1, 0.1, 0.35, 0.6, 2)])
        if len(sup) < 2 or len(U) < 3:
            continue
        for f in ("g", "k", "l"):
            fn = getattr(S, f)
            if f != "g" and (np.ptp(P, 0) == 0).any():
                continue
            ctx.state(f, metric, case["p"], case["frame"])
            ref = fn(P.copy(), support=sup, metric=metric)
            same = Same(ctx, "%s(metric=%r)" % (f, metric), ref, 1e-12)
            mf = forms if metric == "euclidean" or small else forms[::3]
            for how, q in [*mf, *(trees(P, metric) if f != "x" else ())]:
                same(fn(q, support=sup, metric=metric), how)
                ctx.trace()
            for how, v in (("list", sup.tolist()), ("strided array", np.repeat(sup, 2)[::2])):
                same(fn(P.copy(), support=v, metric=metric), "support as " + how)
            for o in orders(n, case["full"] and n < 5):
                same(fn(P[list(o)], support=sup, metric=metric), "in order %s" % (o,))
                ctx.trace()
            if metric == "euclidean" and f != "g":
                for hname, h in (("polygon", hull), ("box array", np.array(hull.bounds)), ):
                    same(fn(P.copy(), support=sup, hull=h), "with hull as " + hname) if False else None
    D = lib.dist_matrix(P)
    sup = np.unique([lib.gap(D, x) for x in (-1, 0.1, 0.35, 0.6, 2)])
    if len(sup) < 2 or len(U) < 3:
        return
    # the ones that draw: the same stream for every representation
    pick = forms if small else forms[::4]
    for f in ("f", "j"):
        kw = dict(truncate=False) if f == "j" else {}
        with seeded():
            ref = getattr(S, f)(P.copy(), support=sup, hull=hull, **kw)
        same = Same(ctx, f, ref, 1e-12)
        for how, q in [*pick[0 if case["full"] else pos % 2::1 if case["full"] else 2], *trees(P, "euclidean")]:
            with seeded():
                same(getattr(S, f)(q, support=sup, hull=hull, **kw), how)
            ctx.trace()
        for o in itertools.islice(orders(n, False), 6):
            with seeded():
                same(getattr(S, f)(P[list(o)], support=sup, hull=hull, **kw), "in order %s" % (o,))
    for f in "fgjkl":
        kw = dict(truncate=False) if f == "j" else {}

        def test(q):
            with seeded():
                r = getattr(S, f + "_test")(q, support=sup, hull=hull, n_simulations=3, keep_simulations=True, n_jobs=1, **kw)
            return [r.support, r.statistic, r.pvalue, r.simulations]
        same = Same(ctx, f + "_test", test(P.copy()), 1e-12)
        ok = [x for x in (pick if small else pick[::3]) if "list" not in x[0] and "tuple" not in x[0]]
        for how, q in ok if case["full"] else ok[pos + "fgjkl".index(f) % 4::5]:
            LAST[0] = how
            same(test(q), how)
            ctx.trace()


# ------------------------------------------------------------------ quadrats
def quadrat(case, ctx):
    import pointpats as pp
    P = points(case)
    if (np.ptp(P, 0) == 0).any():
        return
    n = len(P)
    ext = np.ptp(P, 0)
    forms = lambda q: itertools.chain(arrays(q), lists(q), geo(q, True), nulls(q), [
        ("PointPattern", pp.PointPattern(q.copy())),
        ("marked PointPattern", pp.PointPattern(np.c_[np.arange(len(q)), q[:, ::-1], q[:, 0] * 3], names=["m", "lat", "lon", "z"], coord_names=["lon", "lat"]))])
    made = {
        "RectangleM(3, 2)": lambda q: pp.RectangleM(q, count_column=3, count_row=2),
        "RectangleM(sizes)": lambda q: pp.RectangleM(q, rectangle_width=float(ext[0] * .37), rectangle_height=float(ext[1] * .61)),
        "HexagonM": lambda q: pp.HexagonM(q, float(ext.max() * .31)),
    }
    for name, mk in made.items():
        ctx.state(name, case["p"], case["frame"])

        def out(q):
            m = mk(q)
            return [m.point_location_sta(), m.num]
        if name == "HexagonM":
            def out(q):
                d = mk(q).point_location_sta()
                return [[list(map(float, np.ravel(k))), v] for k, v in sorted(d.items())]
        same = Same(ctx, name, out(P.copy()), 0)
        for how, q in forms(P):
            same(out(q), how)
            ctx.trace()
        for o in orders(n, case["full"]):
            same(out(P[list(o)]), "in order %s" % (o,))
            ctx.trace()
    for shape in ("rectangle", "hexagon"):
        def out(q, real=0):
            s = pp.QStatistic(q, shape=shape, lh=float(ext.max() * .4), realizations=real, rng=3)
            return [s.chi2, s.chi2_pvalue, s.df, *([s.chi2_r_pvalue, np.asarray(s.chi2_realizations, float)] if real else [])]
        for real in (0, 2):
            ref = out(P.copy(), real)
            same = Same(ctx, "QStatistic(%s, realizations=%d)" % (shape, real), ref, 1e-9)
            for k, (how, q) in enumerate(forms(P)):
                if not real or k % 4 == 0 or how == "PointPattern":
                    same(out(q, real), how)
                    ctx.trace()
        same = Same(ctx, "QStatistic(%s)" % shape, out(P.copy()), 1e-9)
        for o in orders(n, case["full"]):
            same(out(P[list(o)]), "in order %s" % (o,))


@named
def nulls(P):
    import geopandas as gpd
    import shapely
    g = [shapely.Point(p) for p in P]
    yield "GeoSeries with missing geometries", gpd.GeoSeries([None, *g[:2], None, *g[2:]], index=[5] * (len(P) + 2))


# ------------------------------------------------------------------ point patterns
def pattern(case, ctx):
    import pointpats as pp
    from pointpats import window as W
    P = points(case)
    n = len(P)
    win = W.Window([[tuple(v) for v in (P.min(0) - 1, (P[:, 0].min() - 1, P[:, 1].max() + 1), P.max(0) + 1, (P[:, 0].max() + 1, P[:, 1].min() - 1),
                                        P.min(0) - 1)]])
    D = lib.dist_matrix(P)
    r = lib.gap(D, 0.4)
    c = P.mean(0) + [.1, .2] * np.ptp(P, 0)

    def out(q, inv=None, own_window=False):
        x = pp.PointPattern(q) if own_window else pp.PointPattern(q, window=win)
        at = np.arange(n) if inv is None else np.asarray(inv)
        res = [x.n, x.mbb, x.mbb_area, x.lambda_mbb, hull_form(x.hull, case), x.hull_area, x.lambda_hull, x.lambda_window,
               x.min_nnd, x.max_nnd, x.mean_nnd, x.rot]
        res.append(np.asarray(x.nnd)[at])
        res.append(np.asarray(x.points, float)[at])
        for k in (1, 2, 3):
            if k < n:
                res.append(np.asarray(x.knn(k)[1])[at])
                res.append(np.asarray(x.knn_other([c.tolist(), P[0].tolist()], k)[1]))
        back = {int(a): i for i, a in enumerate(at)}
        res.append(sorted(tuple(sorted((back[int(i)], back[int(j)]))) for i, j in x.find_pairs(r)))
        res.append(sorted(map(tuple, np.asarray(x.unique().points, float).tolist())))
        res.append([tuple(p) in x for p in P.tolist()] + [tuple(c.tolist()) in x])
        return res
    sc = float(np.ptp(P, 0).max())
    ctx.state(case["p"], case["frame"])
    tol = 1e-9 * sc + 4e-15 * np.abs(P).max()
    for own in (False, True):
        same = Same(ctx, "PointPattern", out(P.copy(), own_window=own), tol)
        for how, q in itertools.chain(arrays(P), lists(P)):
            if "big-endian" in how:
                continue            # pandas does not take them
            same(out(q, own_window=own), how)
            ctx.trace()
        if own:
            continue
        for o in orders(n, case["full"]):
            inv = np.argsort(o)
            same(out(P[list(o)], inv), "in order %s" % (o,))
            ctx.trace()


# ------------------------------------------------------------------ space-time
def spacetime(case, ctx):
    import geopandas as gpd
    import pointpats as pp
    P = points(case)
    n = len(P)
    if len(np.unique(P, axis=0)) < n:
        P = P + 1e-3 * np.ptp(P) * lib.generic(n, 7)        # ties among the nearest neighbours depend on the order
    T = ((np.arange(n) * 7) % 11).astype(float)[:, None] if n < 11 else ((np.arange(n) * 37) % 101).astype(float)[:, None]
    D, E = lib.dist_matrix(P), np.abs(T - T.T)
    delta, tau = lib.gap(D, .4), lib.gap(E, .4)
    tforms = [("float array", T.copy()), ("Fortran-ordered array", np.asfortranarray(T)), ("strided array", np.repeat(T, 3, 0)[::3]),
              ("readonly array", _ro(T)), ("int64 array", T.astype(np.int64)), ("int32 array", T.astype(np.int32)), ("uint8 array", T.astype(np.uint8))]
    tlists = [("list of lists", T.tolist()), ("list of int tuples", [(int(t),) for t in T.ravel()])]
    sf = list(arrays(P))
    sl = list(lists(P))
    fns = {
        "knox": lambda s, t, p: pp.knox(s, t, delta, tau, permutations=p),
        "mantel": lambda s, t, p: pp.mantel(s, t, permutations=p),
        "jacquez": lambda s, t, p: pp.jacquez(s, t, 2, permutations=p),
        "modified_knox": lambda s, t, p: pp.modified_knox(s, t, delta, tau, permutations=p),
        "Knox": lambda s, t, p: _knox(pp.Knox(s, t, delta, tau, permutations=p, keep=True)),
        "KnoxLocal": lambda s, t, p: _local(pp.KnoxLocal(s, t, delta, tau, permutations=p, keep=True)),
    }
    num = {"knox": ("stat", "pvalue"), "mantel": ("stat", "pvalue"), "jacquez": ("stat", "pvalue"), "modified_knox": ("stat", "pvalue")}

    def vals(name, r):
        return [r[k] for k in num[name] if k in r] if isinstance(r, dict) else r
    tie_free = n >= 11 or len(np.unique(E[np.triu_indices(n, 1)])) == n * (n - 1) // 2
    for name, fn in fns.items():
        cls = name == "Knox"        # documented as array-like, the others as arrays
        ctx.state(name, case["p"], case["frame"])
        for p in (0, 3):
            if n > 20 and name in ("KnoxLocal", "jacquez") and p:
                continue
            if name in num and p == 0 and name != "mantel":
                pass

            def out(s, t):
                np.random.seed(11)
                return vals(name, fn(s, t, p))
            ref = out(P.copy(), T.copy())
            same = Same(ctx, "%s(permutations=%d)" % (name, p), ref, 1e-9)
            for how, q in sf + (sl if cls else []):
                same(out(q, T.copy()), "locations as " + how)
                ctx.trace()
            for how, t in tforms + (tlists if cls else []):
                same(out(P.copy(), t), "times as " + how)
                ctx.trace()
            for how, t in tforms[4:6]:
                same(out(sf[-1][1], t), "locations as %s, times as %s" % (sf[-1][0], how))
            if p == 0 and (name != "jacquez"):
                for o in orders(n, case["full"] and n < 5):
                    o = list(o)
                    r = out(P[o], T[o])
                    if name == "KnoxLocal":
                        inv = np.argsort(o)
                        r = [r[0], np.asarray(r[1])[inv], np.asarray(r[2])[inv], sorted((o[int(a)], o[int(b)]) for a, b in r[3])]
                    same(r, "in order %s" % o)
                    ctx.trace()
    # from_dataframe
    frames = []
    for how, g in geo(P):
        if "repeated" in how:
            continue
        g = gpd.GeoDataFrame(geometry=g) if isinstance(g, gpd.GeoSeries) else g
        for dt in (float, int, np.int16):
            h = g.copy()
            h["when"] = T.ravel().astype(dt)
            if h.crs is None and dt is int:
                h = h.set_crs(3857)
            frames.append(("%s with %s times" % (how, dt.__name__), h))
    for cls, read in ((pp.Knox, _knox), (pp.KnoxLocal, _local)):
        for p in (0, 3):
            if n > 20 and p:
                continue
            np.random.seed(11)
            same = Same(ctx, cls.__name__ + ".from_dataframe", read(cls(P.copy(), T.copy(), delta, tau, permutations=p, keep=True)), 1e-9)
            for how, h in frames:
                np.random.seed(11)
                k = cls.from_dataframe(h, "when", delta, tau, permutations=p, keep=True)
                r = read(k)
                if cls is pp.KnoxLocal:
                    pos = {i: j for j, i in enumerate(h.index)}
                    r[3] = sorted((pos[a], pos[b]) for a, b in zip(k.adjlist.focal, k.adjlist.neighbor))
                same(r, how)
                ctx.trace()


def _ro(a):
    a = a.copy()
    a.setflags(write=False)
    return a


def _knox(k):
    return [k.statistic_, k.observed, k.expected, k.p_poisson, *([k.p_sim, k.sim] if hasattr(k, "p_sim") else [])]


def _local(k):
    out = [k.nst, k.nsti, k.p_hypergeom]
    out.append(sorted(zip(k.adjlist.focal.tolist(), k.adjlist.neighbor.tolist())) if all(isinstance(i, (int, float)) for i in k.adjlist.focal) else [])
    if hasattr(k, "p_sims"):
        out += [k.p_sims, k.sims]
    return out


# ------------------------------------------------------------------ density, windows
def density(case, ctx):
    import pointpats as pp
    P = points(case)
    if (np.ptp(P, 0) == 0).any():
        return
    sc = float(np.ptp(P, 0).max())

    import matplotlib.pyplot as plt

    fig, ax = plt.subplots()

    def real(q, **kw):
        """the values seen by contour"""
        got = []
        ax.contour = ax.contourf = lambda x, y, z, *a, **k: got.append((x, y, z))
        pp.plot_density(q, bandwidth=.4 * sc, ax=ax, **kw)
        return [np.asarray(a, float) for a in got[0]]
    plt.close(fig)
    ctx.state(case["p"], case["frame"])
    for kw in (dict(resolution=(5, 4)), dict(resolution=4, fill=True, margin=.2)):
        ref = real(P.copy(), **kw)
        z = float(np.abs(ref[2]).max())
        for how, q in itertools.chain(arrays(P), geo(P, True)):
            r = real(q, **kw)
            Same(ctx, "plot_density", [ref[0], ref[1], ref[2] / z], 1e-7 * max(sc, 1) if sc > 1e-3 else 1e-7 * sc)([r[0], r[1], r[2] / z], how)
            ctx.trace()
        for o in itertools.islice(orders(len(P), False), 5):
            r = real(P[list(o)], **kw)
            Same(ctx, "plot_density", [r_ for r_ in (ref[0], ref[1], ref[2] / z)], 1e-7 * max(sc, 1))([r[0], r[1], r[2] / z], "in order %s" % (o,))
            ctx.trace()


def window(case, ctx):
    from pointpats import window as W
    P = points(case)
    lo, hi = P.min(0), P.max(0)
    m = (lo + hi) / 2
    e = np.ptp(P, 0) * .013 + 1e-9
    corners = [tuple(v) for v in ((lo[0] - e[0], lo[1] - e[1]), (lo[0] - e[0], m[1] + 2 * e[1]), (m[0] + 3 * e[0], hi[1] + e[1]), (hi[0] + 3 * e[0], lo[1] - e[1]))]
    ring = [*corners, corners[0]]
    w = W.Window([ring])
    ref = [tuple(map(float, p)) for p in w.filter_contained(P.copy())]
    ctx.state(case["p"], case["frame"])
    same = Same(ctx, "Window.filter_contained", ref, 0)
    for how, q in itertools.chain(arrays(P), lists(P)):
        same([tuple(map(float, p)) for p in w.filter_contained(q)], how)
        ctx.trace()
    for o in orders(len(P), case["full"]):
        got = [tuple(map(float, p)) for p in w.filter_contained(P[list(o)])]
        Same(ctx, "Window.filter_contained", sorted(ref), 0)(sorted(got), "in order %s" % (o,))
    for rn, rg in (("list of lists", [[list(p) for p in ring]]), ("reversed ring", [ring[::-1]]), ("array", [np.array(ring)])):
        if rn == "array":
            continue
        same([tuple(map(float, p)) for p in W.Window(rg).filter_contained(P.copy())], "window's ring as " + rn)


def judge(case, ctx):
    from core import Violation
    try:
        globals()[case["group"]](case, ctx)
    except Violation:
        raise
    except Exception as e:
        e.add_note("(around: %s)" % LAST[0])
        raise
    ctx.outcome(case["group"], case["frame"], len(case["p"]))


def warmup():
    from pointpats import centrography as C
    C.minimum_bounding_circle(lib.generic(6))
    C.minimum_bounding_circle(np.round(lib.generic(6) * 9).astype(int))
