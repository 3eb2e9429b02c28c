"""C29: results follow the symmetries of the data (order of the points, unit, origin, orientation of the axes)."""
import itertools
import numpy as np
import lib
import tape

META = dict(
    technique="exhaustive enumeration of configurations x a finite group of exact symmetries (orders x dihedral x power-of-two units x translations), the real "
              "function on both sides",
    level_note="Units are powers of two and shifts multiples of the unit, so that the transformed data are exact. Orders are rotations and reversals, all orders for "
               "n <= 3.",
    rule="a case is a configuration with its symmetries; an outcome is its tuple of invariants",
    bounds=dict(quick="every 3rd multiset of 3 and 4 and 5-subset of the 3x3 lattice, 24 generic patterns of 5..30 points, 6 symmetries of each",
                thorough="all of them, and multisets of 5 and generic patterns to 80 points, 40 symmetries of each"),
    assumptions=["multiplication by powers of two and sums below 2^53 are exact"],
)
D4 = [np.array(m, float) for m in ([[1, 0], [0, 1]], [[0, 1], [1, 0]], [[-1, 0], [0, 1]], [[0, -1], [1, 0]], [[1, 0], [0, -1]], [[0, 1], [-1, 0]], [[-1, 0], [0, -1]],
                                   [[0, -1], [-1, 0]])]
UNITS = [1.0, 2.0**-20, 8.0, 2.0**-4, 2.0**20]
SHIFTS = [(0, 0), (3, -5), (-1024, 4096), (2**19, 2**22), (-2**22, 0.5)]


def cases(tier, seed):
    q = tier == "quick"
    i = seed
    small = [p for n in (3, 4) for p in lib.multisets(3, 3, n)] + list(lib.subsets(3, 3, 5))
    if not q:
        small += list(lib.multisets(3, 3, 5))
    m = 6 if q else 40
    for p in small:
        i += 1
        if q and i % 3:
            continue
        yield dict(p=p, r=i, m=m)
    for n in (5, 7, 12, 30) if q else (5, 6, 7, 8, 12, 20, 30, 50, 80):
        for ph in range(6):
            i += 1
            yield dict(n=n, r=i, ph=ph, m=m)


def symmetry(j, n):
    """the j-th of the symmetries, in an order that pairs everything with everything early"""
    a, u, s = j % 8, (j * 3 + j // 8) % 5, (j * 2 + j // 5 + 1) % 5
    if n <= 3:
        perms = list(itertools.permutations(range(n)))
        o = list(perms[j % len(perms)])
    else:
        o = [(k + j) % n for k in range(n)]
        if j % 2:
            o = o[::-1]
    return o, D4[a], UNITS[u], np.array(SHIFTS[s], float)


def config(case):
    if "p" in case:
        return np.array(case["p"], float)
    u = lib.generic(case["n"], 3 * case["ph"])
    # dyadic, so that everything below is exact
    return np.round(u * [[9, 4], [3, 11], [6, 6]][case["ph"] % 3] * 1024) / 1024


def rows(a):
    return sorted(map(tuple, np.round(np.asarray(a, float), 12).tolist()))


class Space:
    """evaluates everything on a pattern; coordinates come back in the units of the base pattern"""

    def __init__(self, P, A, s, t):
        self.A, self.s, self.t = A, s, t
        self.P = (P @ A.T + t) * s
        self.eps = 32 * 2.3e-16 * (np.abs(self.P).max() / s)

    def back(self, q):
        return ((np.asarray(q, float) / self.s) - self.t) @ self.A

    def box(self, b):
        c = self.back(np.asarray(b, float).reshape(2, 2))
        return [*c.min(0), *c.max(0)]


def centro(sp, n, flat, r, w):
    """name -> (value in base units, tolerance in base units)"""
    import pointpats as pp
    from pointpats import centrography as C
    P, s, e = sp.P, sp.s, sp.eps
    out = {}
    pt = lambda v: np.asarray(v, float).ravel()  # noqa: E731
    out["mean_center"] = sp.back(pt(C.mean_center(P))), e
    out["weighted_mean_center"] = sp.back(pt(C.weighted_mean_center(P, w))), e
    out["manhattan_median"] = sp.back(pt(C.manhattan_median(P))), e
    out["std_distance"] = C.std_distance(P) / s, e
    out["dtot"] = C.dtot((np.array([.7, 1.9]) @ sp.A.T + sp.t) * s, P) / s, n * e
    out["mbr"] = sp.box(C.minimum_bounding_rectangle(P)), e
    if not flat:
        m = C.euclidean_median(P)
        out["dtot of euclidean_median"] = C.dtot(m, P) / s, 1e-6 * n + n * e
        out["hull"] = rows(np.round(sp.back(C.hull(P)), 9)), None
        (x, y), rad = C.minimum_bounding_circle(P)
        out["mbc"] = [*sp.back([[x, y]])[0], rad / s], 1e-6 + 64 * e
        if np.abs(P).max() < 1e8:       # GEOS loses its digits beyond (and half of them before)
            R = np.asarray(C.minimum_rotated_rectangle(P), float) / s
            d = np.hypot(*(np.roll(R, 1, 0) - R).T)
            out["area of the rotated rectangle"] = d[0] * d[1], 1e-6 + 1e6 * e
    if not flat:
        a, b, th = C.ellipse(P, weights=w, method=("crimestat", "yuill")[r % 2])
        out["axes of the ellipse"] = [a / s, b / s], 1e-6 + 64 * e
        if a - b > 1e-3 * a:
            ax = sp.A.T @ [np.cos(th), np.sin(th)]
            out["direction of the ellipse"] = [ax[0] ** 2, ax[0] * ax[1]], 1e-5 + 64 * e
    q = pp.PointPattern(P)
    out["n"] = q.n, 0
    out["nnd"] = [q.min_nnd / s, q.mean_nnd / s, q.max_nnd / s], e
    out["mbb"] = sp.box(q.mbb), e
    out["areas"] = [q.mbb_area / s**2, q.window.area / s**2], 16 * e
    out["rot"] = q.rot / s, e
    if not flat:
        out["intensities"] = [q.lambda_mbb * s**2, q.lambda_window * s**2], 1e-6 + 64 * e
        ha = q.hull_area / s**2
        err = 1e-9 + 64 * e
        out["hull_area"] = ha, err
        if err < .1 * ha:
            out["lambda_hull"] = q.lambda_hull * s**2, 2 * n * err / ha**2
    return out


def neighbours(sp, o, n, D):
    """in the numbering of the base pattern"""
    import pointpats as pp
    q = pp.PointPattern(sp.P)
    out = {}
    inv = np.argsort(o)
    for k in range(1, min(n, 5)):
        ids, d = q.knn(k)
        out["knn(%d)" % k] = (np.asarray(d, float).reshape(n, k) / sp.s)[inv], sp.eps
    for rad in (0.0, 1.0, 1.2, 2.0, 2.5, 4.5):
        out["find_pairs(%r)" % rad] = sorted(tuple(sorted((o[i], o[j]))) for i, j in q.find_pairs(rad * sp.s)), None
    Q = (np.array([(.3, .6), (2.4, 1.3), (-1, 5)]) @ sp.A.T + sp.t) * sp.s
    out["knn_other"] = np.asarray(q.knn_other(Q.tolist(), k=2)[1], float) / sp.s, sp.eps
    return out


def ripley(sp, n, flat, D):
    from pointpats import f, g, k, l, j
    P, s = sp.P, sp.s
    sup = np.array([0.0, .4, .9, 1.2, 1.7, 2.1, 2.6, 3.3])
    out = {}
    metrics = ("euclidean", "cityblock", "chebyshev")
    for m in metrics:
        out["g, " + m] = g(P, support=sup * s, metric=m)[1], 1e-12
        if not flat:
            out["k, " + m] = k(P, support=sup * s, metric=m)[1] / s**2, 1e-9 + 64 * sp.eps
            out["l, " + m] = l(P, support=sup * s, metric=m, linearized=True)[1] / s, 1e-8 + 64 * sp.eps
    E = (np.array([(.3, .6), (2.4, 1.3), (1, 2.5), (.2, 1.9), (1.6, .2)]) @ sp.A.T + sp.t) * s
    fd = lib.dist_matrix(E, P).min(1)
    gd = (lib.dist_matrix(P) + np.diag([np.inf] * n)).min(1)
    out["f"] = f(P, support=sup * s, distances=fd)[1], 1e-12
    a, b = j(P, support=sup * s, distances=(gd, fd), truncate=True)
    out["j"] = np.r_[np.asarray(a) / s, b], 1e-9
    sup5, v = g(P, support=5)
    out["g on 5 steps"] = np.r_[np.asarray(sup5) / s, v[:1]], sp.eps + 1e-12
    return out


def quadrats(sp, flat, o, r, A):
    """counts on the grid in the orientation of the base pattern (reflections move points on inner lines, so only transposed or not)"""
    from pointpats import QStatistic, HexagonM
    out = {}
    swap = A[0, 0] == 0
    nx, ny = ((3, 2), (1, 4), (2, 2), (5, 3))[r % 4]
    q = QStatistic(sp.P, nx=ny if swap else nx, ny=nx if swap else ny)
    M = np.array([q.mr.point_location_sta()[c] for c in sorted(q.mr.point_location_sta())]).reshape(q.mr.count_row, q.mr.count_column)
    out["counts"] = (M.T if swap else M).tolist(), None
    out["chi2"] = [q.chi2, q.chi2_pvalue, q.df], 1e-9
    if not swap:
        lh = 1.13 * sp.s
        h = HexagonM(sp.P, lh)
        out["hexagon counts"] = sorted(h.point_location_sta().items()), None
        w = QStatistic(sp.P, rectangle_width=.83 * sp.s, rectangle_height=1.21 * sp.s)
        out["counts of quadrats by size"] = sorted(w.mr.point_location_sta().items()), None
    return out


def windows(sp):
    import pointpats as pp
    from pointpats import geometry as G
    import shapely
    tr = lambda q: [tuple(v) for v in ((np.array(q, float) @ sp.A.T + sp.t) * sp.s).tolist()]  # noqa: E731
    out_, hole = [(-1, -2), (-1, 7), (5, 9), (6, -2), (-1, -2)], [(0, 0), (2, 0), (2, 1), (0, 1), (0, 0)]
    poly = shapely.Polygon(tr(out_), [tr(hole)])
    w = pp.Window([tr(out_)], [tr(hole)])
    Q = tr([(.5, .5), (3, 3), (-.5, 6.9), (-.9, 7.1), (5.5, -1), (5.5, 8.5), (1, 1.1)])
    out = {"Window.area": (w.area / sp.s**2, 1e-9 + 64 * 2.3e-16 * (np.abs(sp.P).max() / sp.s) ** 2), "Window.bbox": (sp.box(w.bbox), sp.eps),
           "Window.centroid": (sp.back([w.centroid])[0], 1e-6 + 64 * 2.3e-16 * (np.abs(sp.P).max() / sp.s) ** 3),
           "contains_point": ([bool(w.contains_point(p)) for p in Q], None),
           "filter_contained": (rows(np.round(sp.back([np.asarray(p) for p in w.filter_contained(Q)]), 6)), None),
           "geometry.contains": ([bool(G.contains(poly, *p)) for p in Q], None),
           "geometry.area, bbox": ([G.area(poly) / sp.s**2, *sp.box(G.bbox(poly))], 1e-9 + 1e3 * sp.eps)}
    return out


def spacetime(sp, T, o, n, r, ts, tt, generic):
    from pointpats import Knox, KnoxLocal, knox, mantel, jacquez, modified_knox
    S, s = sp.P, sp.s
    T = (T + tt) * ts
    t2 = T.reshape(-1, 1)
    out = {}
    inv = np.argsort(o)
    for d, u in ((1.0, 1.0), (1.2, 2.5), (2.1, 0.0), (0.0, 3.0))[r % 2::2]:
        what = "delta=%r tau=%r: " % (d, u)
        k = Knox(S, t2, d * s, u * ts, permutations=0)
        out[what + "Knox"] = [k.nst, *np.ravel(k.observed), *np.ravel(k.expected), k.p_poisson], 1e-9
        out[what + "modified_knox"] = modified_knox(S, t2, d * s, u * ts, permutations=0), 1e-9 * n
        out[what + "knox"] = float(np.ravel(knox(S, t2, d * s, u * ts, permutations=0)["stat"])[0]), 1e-9
        L = KnoxLocal(S, t2, d * s, u * ts, permutations=0, ids=["e%d" % i for i in o])
        out[what + "nsti"] = np.asarray(L.nsti, float)[inv], 1e-12
        out[what + "p_hypergeom"] = np.asarray(L.p_hypergeom, float)[inv], 1e-9
        out[what + "adjlist"] = sorted(map(tuple, L.adjlist[["focal", "neighbor", "orientation"]].values.tolist())), None
        crit = float(np.median(L.p_hypergeom)) + 1e-9
        h = L.hotspots(crit=crit, inference="analytic")
        groups = {}
        for a, b in zip(h.focal, h.cluster):
            groups.setdefault(b, []).append(a)
        out[what + "hotspots"] = sorted(sorted(v) for v in groups.values()), None
    out["mantel"] = mantel(S, t2, 0, scon=.5 * s, spow=-1.0, tcon=2 * ts, tpow=-2.0), 1e-7
    if generic:
        out["jacquez"] = [jacquez(S, t2, k, 0) for k in range(1, min(n, 4))], 0
    return out


def judge(case, ctx):
    import warnings
    P = config(case)
    n, r = len(P), case["r"]
    flat = bool(lib.collinear(P))
    degenerate = (np.ptp(P, 0) == 0).any()
    D = lib.dist_matrix(P)
    T = np.floor(lib.generic(n, r % 40)[:, 1] * (7 if "p" in case else 2**20)) / (1 if "p" in case else 2**12)
    w = np.array([(3 * k + r) % 4 + 1 for k in range(n)], float)
    untied = all(len(set(np.round(M[i], 9))) == n for M in (D, np.abs(T[:, None] - T)) for i in range(n))       # k nearest neighbours are determined
    ctx.state(P, T)

    def everything(j):
        o, A, s, t = symmetry(j, n) if j is not None else (list(range(n)), D4[0], 1.0, np.zeros(2))
        wu, ts, tt = ((1.0, 1.0, 0.0) if j is None else ((1.0, 2.0**-9, 1024.0)[j % 3], (1.0, 64.0, 2.0**-7)[j % 3], (0.0, 738000.0, -4096.0, 2.0**31)[j % 4]))
        sp = Space(P[o], A, s, t)
        out = centro(sp, n, flat, r, w[o] * wu)
        out.update(neighbours(sp, o, n, D))
        out.update(windows(sp))
        if D.max() > 0:
            out.update(ripley(sp, n, flat or degenerate, D))
        if not degenerate:
            out.update(quadrats(sp, flat, o, r, A) if A.min() == 0 else {})
        vary = len(set(map(tuple, P.tolist()))) > 2 and len(set(T.tolist())) > 2
        if vary:
            out.update(spacetime(sp, T[o], o, n, r, ts, tt, untied))
        ctx.step()
        return out, "order %r, axes %r, unit %r, shift %r, time unit %r, time shift %r, unit of weights %r" % (o, A.tolist(), s, t.tolist(), ts, tt, wu)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base, _ = everything(None)
        for i in range(case["m"]):
            got, what = everything(r * 5 + i * 3 + 1)
            for key in [k for k in got if k in base]:
                a, tol = got[key]
                b, tol0 = base[key]
                if tol is None:
                    ctx.check(a == b, lambda: "%s of %s (times %s) is %r; with %s it is %r" % (key, P.tolist(), T.tolist(), b, what, a))
                else:
                    a, b = np.asarray(a, float), np.asarray(b, float)
                    ctx.check(a.shape == b.shape, lambda: "%s: shapes %r and %r; %s" % (key, b.shape, a.shape, what))
                    tol = max(tol, tol0)
                    ok = np.isclose(a, b, rtol=1e-9, atol=tol, equal_nan=True)
                    ctx.check(ok.all(), lambda: "%s of %s (times %s) is %r; with %s it is %r (in the original units)" % (key, P.tolist(), T.tolist(), b.tolist(), what, a.tolist()))
            ctx.trace()
        ctx.outcome(n, flat, round(float(base["std_distance"][0]), 9))
