"""C06: hull, bounding rectangles and bounding circle against brute force."""
import importlib
import itertools
import math
import sys
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of non-collinear lattice configurations x frames x input "
              "kinds x (numba, no numba), real code against brute-force geometry",
    level_note="Every non-collinear configuration on the stated lattices; larger patterns only in "
               "the fixed families; numerical tolerance 1e-6 of the extent.",
    rule="a case is a point set in a frame; an outcome is (hull size, circle radius, rectangle area)",
    bounds=dict(quick="3x3: all sets of 3-6 points, multisets of 4; 4x4: all sets of 3 and 4; sequences in 2 orders; "
                      "flattened 4x4 sets of 4, sampled arcs; families n in {10, 40, 200}; frames id, lonlat (3x3: all 6)",
                thorough="plus 4x4 sets of 5 and 6 (id, neg), 5x5 sets of 4, 3x3 multisets of 5, all frames"),
    assumptions=["shapely/GEOS and qhull primitives"],
)


def cases(tier, seed):
    q = tier == "quick"
    for k in (3, 4, 5, 6):
        for p in lib.subsets(3, 3, k):
            if not lib.collinear(p):
                for f in lib.FRAMES if (k <= 4 or not q) else ("id", "lonlat"):
                    yield dict(p=p, f=f)
    for p in lib.multisets(3, 3, 4):
        if len(set(p)) < 4 and not lib.collinear(p):
            yield dict(p=p[::-1], f="neg")
    for k in (3, 4) if q else (3, 4, 5, 6):
        for i, p in enumerate(lib.subsets(4, 4, k)):
            if not lib.collinear(p):
                yield dict(p=p if i % 2 else p[::-1], f="id" if i % 3 else "lonlat")
                if not q:
                    yield dict(p=p[1:] + p[:1], f=("proj", "neg", "small", "big")[i % 4])
    if not q:
        for p in lib.multisets(3, 3, 5):
            if len(set(p)) < 5 and not lib.collinear(p):
                yield dict(p=p, f="lonlat")
        for p in lib.subsets(5, 5, 4):
            if not lib.collinear(p):
                yield dict(p=p, f="id")
    for n in (10, 40, 200) if q else (10, 15, 25, 40, 80, 200, 500):
        for kind in lib.KINDS:
            for f in lib.FRAMES:
                yield dict(n=n, kind=kind, f=f, seed=seed)
    # points on circles: every triple of 12 directions plus interior points
    for t in itertools.combinations(range(12), 3):
        yield dict(circ=t, f="id")
    # nearly straight hull corners: flattened lattices and finely sampled arcs
    for i, p in enumerate(lib.subsets(4, 4, 4) if q else [p for k in (3, 4, 5) for p in lib.subsets(4, 4, k)]):
        if (not q or i % 3 == 0) and not lib.collinear(p):
            for fy in (0.02, 0.002, 0.0001) if not q else ((0.02, 0.002, 0.0001)[i // 3 % 3],):
                yield dict(flat=p, fy=fy, f=("id", "neg", "small", "big")[i % 4])
    for k in (3, 4, 5, 9, 40) if q else (3, 4, 5, 6, 7, 9, 15, 40, 120):
        for span in (0.004, 0.02, 0.3, 1.5, 3.1) if q else (0.001, 0.004, 0.01, 0.02, 0.05, 0.1, 0.3, 0.8, 1.5, 2.5, 3.1, 4.0, 6.0):
            for x in (0, 1, 2):
                yield dict(arc=[k, span, x], f="id")
    if q:
        yield dict(arc=[120, 0.001, 2], f="id")     # listed finding
    for m in (4, 5, 6, 7, 8, 12):
        for f in ("id", "lonlat", "proj"):
            yield dict(circ=[12 * i / m for i in range(m)], f=f)


_NN = {}


def nonumba():
    """a second copy of centrography imported with numba absent"""
    if "m" not in _NN:
        saved = {k: v for k, v in sys.modules.items() if k == "numba" or k.startswith("numba.")}
        old = sys.modules.pop("pointpats.centrography")
        for k in saved:
            del sys.modules[k]
        sys.modules["numba"] = None
        try:
            _NN["m"] = importlib.import_module("pointpats.centrography")
        finally:
            sys.modules["pointpats.centrography"] = old
            import pointpats
            pointpats.centrography = old
            del sys.modules["numba"]
            sys.modules.update(saved)
    return _NN["m"]


class no_numba:
    """calls into the second copy happen with numba not importable"""

    def __enter__(self):
        self.saved = sys.modules.get("numba")
        sys.modules["numba"] = None

    def __exit__(self, *a):
        if self.saved is None:
            del sys.modules["numba"]
        else:
            sys.modules["numba"] = self.saved


def warmup():
    from pointpats import centrography as C
    C.minimum_bounding_circle(np.array([(0., 0.), (4., 1.), (2., 5.), (0.5, 3.)]))
    nonumba()


def mec(pts):
    """smallest enclosing circle by brute force over hull pairs and triples"""
    h = pts
    best = None
    tol = 1e-12 * max(1e-300, max(abs(c) for p in pts for c in p))

    def ok(cx, cy, r):
        return all(math.hypot(p[0] - cx, p[1] - cy) <= r * (1 + 1e-9) + tol for p in h)
    for a, b in itertools.combinations(h, 2):
        c = ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2, math.dist(a, b) / 2)
        if (best is None or c[2] < best[2]) and ok(*c):
            best = c
    for a, b, c in itertools.combinations(h, 3):
        d = 2 * (a[0] * (b[1] - c[1]) + b[0] * (c[1] - a[1]) + c[0] * (a[1] - b[1]))
        if abs(d) < 1e-12 * (math.dist(a, b) + math.dist(b, c)) ** 2:
            continue
        aa, bb, cc = (p[0] ** 2 + p[1] ** 2 for p in (a, b, c))
        x = (aa * (b[1] - c[1]) + bb * (c[1] - a[1]) + cc * (a[1] - b[1])) / d
        y = (aa * (c[0] - b[0]) + bb * (a[0] - c[0]) + cc * (b[0] - a[0])) / d
        t = (x, y, math.dist((x, y), a))
        if (best is None or t[2] < best[2]) and ok(*t):
            best = t
    return best


def mrr_area(h):
    """least area over the directions of the hull edges"""
    best = None
    P = np.asarray(h, float)
    for i in range(len(P)):
        e = P[(i + 1) % len(P)] - P[i]
        e = e / np.hypot(*e)
        u, v = P @ e, P @ np.array([-e[1], e[0]])
        a = (u.max() - u.min()) * (v.max() - v.min())
        if best is None or a < best:
            best = a
    return best


def local_points(case):
    if "p" in case:
        return np.asarray(case["p"], float)
    if "flat" in case:
        return np.asarray(case["flat"], float) * [1, case["fy"]]
    if "arc" in case:
        k, span, x = case["arc"]
        a = 0.3 + np.linspace(0, span, k)
        m = 0.3 + span / 2
        return np.vstack([5 * np.c_[np.cos(a), np.sin(a)], [((4.9 - x) * math.cos(m), (4.9 - x) * math.sin(m)), (4.1, 0.2), (-4.0, 1.0)][:x + 1]])
    if "circ" in case:
        t = [2 * math.pi * i / 12 for i in case["circ"]]
        return np.array([(3 + 2 * math.cos(a), 1 + 2 * math.sin(a)) for a in t] + [(3.1, 1.2), (2.9, 0.9)])
    return lib.structured(case["n"], case["kind"], case["seed"])


def judge(case, ctx):
    import geopandas as gpd
    import shapely
    from pointpats import centrography as C
    P0 = local_points(case)
    P = lib.frame(P0, case["f"])
    s, dx, dy = lib.FRAMES[case["f"]]
    ctx.state(P)
    # reference in the local frame (translation and scale are exact up to rounding)
    Q = (P - P[0])
    if lib.collinear(Q):
        return
    ext = np.ptp(Q, axis=0).max()
    eps = 1e-7 * ext + 8 * np.finfo(float).eps * np.abs(P).max()
    ref = [tuple(t) for t in lib.hull_ccw(P0)] if case["f"] != "id" or "p" in case else lib.hull_ccw(P0)
    refhull = [tuple(t) for t in (lib.frame(ref, case["f"]) - P[0])]
    robust = "p" in case or case.get("kind") in ("grid", "dups") or "circ" not in case
    gs = gpd.GeoSeries.from_xy(P[:, 0], P[:, 1])
    gdf = gpd.GeoDataFrame({"a": range(len(P))}, geometry=gs.values, index=range(5, 5 + len(P)))
    seqs = {"array": P, "list": P.tolist(), "tuples": [tuple(t) for t in P.tolist()]}

    # ---- axis-aligned box
    bb = (P[:, 0].min(), P[:, 1].min(), P[:, 0].max(), P[:, 1].max())
    for nm, v in seqs.items():
        ctx.eq(np.array(C.minimum_bounding_rectangle(v)), np.array(bb), "minimum_bounding_rectangle(%s)" % nm)
    for nm, v in (("GeoSeries", gs), ("GeoDataFrame", gdf)):
        g = C.minimum_bounding_rectangle(v)
        ctx.close(g.bounds, bb, "minimum_bounding_rectangle(%s)" % nm, rtol=1e-12)
        ctx.close(g.area, (bb[2] - bb[0]) * (bb[3] - bb[1]), "area of minimum_bounding_rectangle(%s)" % nm, rtol=1e-6)
    ctx.step(5)

    # ---- hull
    def check_hull(h, nm):
        h = np.asarray(h, float)
        A = lib.poly_area([tuple(t) for t in h - P[0]])
        ctx.check(A > 0, "hull(%s) is not counterclockwise" % nm)
        hq = h - P[0]
        # every point inside, every vertex a data point and extreme
        for i in range(len(hq)):
            a, b = hq[i], hq[(i + 1) % len(hq)]
            e = b - a
            L = np.hypot(*e)
            ctx.check(L > 0, "hull(%s) repeats a vertex" % nm)
            cr = (e[0] * (Q[:, 1] - a[1]) - e[1] * (Q[:, 0] - a[0])) / L
            ctx.check(cr.min() >= -eps, lambda: "hull(%s) leaves a point %g outside" % (nm, -cr.min()))
        ctx.check(all((np.abs(Q - v).max(1) <= eps).any() for v in hq), "hull(%s) vertex is no data point" % nm)
        if "kind" not in case or case["kind"] not in ("line", "grid"):
            if "p" in case and case["f"] in ("id", "small", "big", "neg", "proj"):
                ctx.check(len(hq) == len(refhull), lambda: "hull(%s) has %d vertices, expected %d: %r"
                          % (nm, len(hq), len(refhull), h.tolist()))
        ctx.close(A, lib.poly_area(refhull), "area of hull(%s)" % nm, rtol=1e-6, atol=eps * ext)
    for nm, v in seqs.items():
        check_hull(C.hull(v), nm)
    g = C.hull(gs)
    ring = np.asarray(g.exterior.coords)[:-1]
    check_hull(ring[::-1] if lib.poly_area([tuple(t) for t in ring - P[0]]) < 0 else ring, "GeoSeries")
    ctx.close(C.hull(gdf).area, g.area, "hull(GeoDataFrame)")
    ctx.step(5)

    # ---- rotated rectangle
    want = mrr_area(refhull)
    sq = 1e-6 if np.abs(P).max() < 1e3 * ext else 5e-5      # GEOS loses digits far from the origin

    def check_rect(r, ang, nm):
        r = np.asarray(r, float) - P[0]
        ctx.check(r.shape == (4, 2), "minimum_rotated_rectangle(%s) shape %s" % (nm, r.shape))
        e = [r[(i + 1) % 4] - r[i] for i in range(4)]
        ls = [np.hypot(*x) for x in e]
        for i in range(4):
            ctx.check(abs(np.dot(e[i], e[(i + 1) % 4])) <= sq * ls[i] * ls[(i + 1) % 4] + eps * max(ls),
                      "minimum_rotated_rectangle(%s) has no right angles" % nm)
        area = abs(lib.poly_area([tuple(t) for t in r]))
        ctx.close(area, want, "area of minimum_rotated_rectangle(%s)" % nm, rtol=sq, atol=4 * eps * ext)
        sg = 1 if lib.poly_area([tuple(t) for t in r]) > 0 else -1
        for i in range(4):
            cr = sg * (e[i][0] * (Q[:, 1] - r[i][1]) - e[i][1] * (Q[:, 0] - r[i][0])) / ls[i]
            ctx.check(cr.min() >= -2 * eps - 0.1 * sq * ext, lambda: "minimum_rotated_rectangle(%s) leaves a point %g outside"
                      % (nm, -cr.min()))
        if ang is not None:
            # the remainder of a negative rounding error is 90.0
            ctx.check(0 <= ang < 90 or ang == 90 and any(0 < min(map(abs, x)) < 1e-12 * max(map(abs, x)) for x in e), "angle %r" % ang)
            ds = [math.degrees(math.atan2(x[1], x[0])) % 90 for x in e]
            tol = 1e-4 + math.degrees(4 * eps / min(ls)) + (0 if sq == 1e-6 else 1e-2)
            ctx.check(min(min(abs(ang - d), 90 - abs(ang - d)) for d in ds) <= tol,
                      lambda: "angle %r is not that of a side (%r)" % (ang, ds))
    for nm, v in seqs.items():
        check_rect(C.minimum_rotated_rectangle(v), None, nm)
        r, a = C.minimum_rotated_rectangle(v, return_angle=True)
        check_rect(r, a, nm)
    for nm, v in (("GeoSeries", gs), ("GeoDataFrame", gdf)):
        g = C.minimum_rotated_rectangle(v)
        check_rect(np.asarray(g.exterior.coords)[:-1], None, nm)
        g, a2 = C.minimum_rotated_rectangle(v, return_angle=True)
        check_rect(np.asarray(g.exterior.coords)[:-1], a2, nm)
        ctx.close(a2, a, "angle for %s" % nm, atol=1e-6)
    ctx.step(10)

    # ---- bounding circle
    c = mec(refhull)

    def check_circ(got, nm):
        (x, y), r = got
        x, y = x - P[0][0], y - P[0][1]
        ctx.close(r, c[2], "radius of minimum_bounding_circle(%s)" % nm, rtol=1e-6, atol=eps,
                  key="mbc-arc-120-.001-2" if case.get("arc") == [120, 0.001, 2] and abs(r / c[2] - 1) < 0.05 else "")
        far = np.hypot(Q[:, 0] - x, Q[:, 1] - y).max()
        ctx.check(far <= r * (1 + 1e-6) + 2 * eps,
                  lambda: "minimum_bounding_circle(%s) %r leaves a point %g outside" % (nm, got, far - r))
    for nm, v in seqs.items():
        check_circ(C.minimum_bounding_circle(v), nm)
    N = nonumba()
    with no_numba():
        check_circ(N.minimum_bounding_circle(P), "array, no numba")
        check_circ(N.minimum_bounding_circle(P.tolist()), "list, no numba")
    if (P == np.round(P)).all():
        check_circ(C.minimum_bounding_circle(P.astype(int)), "int array")
        check_circ(C.minimum_bounding_circle(P.astype(int).tolist()), "int list")
    for nm, v in (("GeoSeries", gs), ("GeoDataFrame", gdf)):
        g = C.minimum_bounding_circle(v)
        b = g.bounds
        check_circ((((b[0] + b[2]) / 2, (b[1] + b[3]) / 2), (b[2] - b[0]) / 2), nm)
        m = np.asarray(g.exterior.coords) - P[0]
        ctx.check(len(m) > 16, "minimum_bounding_circle(%s) is no circle" % nm)
        g = C.minimum_bounding_circle(v, quad_segs=3)
        ctx.check(len(g.exterior.coords) == 13, "buffer keywords are not passed on")
    ctx.step(8)
    ctx.outcome(len(refhull), round(c[2] / s, 6), round(want / s / s, 6))
    ctx.trace()
