"""C05: regions in every representation against an even-odd reference."""
import itertools
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of lattice regions x representations x query points, real "
              "geometry/window code against an even-odd reference model",
    level_note="All lattice rectangles, all convex lattice polygons from 3-5 points, rectangles "
               "with every lattice hole, two-part regions; points on boundaries are not judged.",
    rule="a case is a region in a frame; an outcome is the containment bitmap of its query points",
    bounds=dict(quick="all sequences of 1-3 points and all simple polygons with 4 or 5 corners on 3x3, 4x4 lattice hulls (3,4 points), 3x3 (5 points), all holes in a 5x5 box, 2-part regions; 3 frames",
                thorough="simple polygons with up to 6 corners on 3x3 and 4-5 on larger lattices, 4x4 hulls of 3-6 points, 5x4 of 4 points, all pairs of holes and parts; 5 frames"),
    assumptions=["shapely, qhull and libpysal primitives", "points closer than 1e-9 of the extent to a boundary are not judged"],
)


def rects(m):
    return [(a, b, c, d) for a in range(m) for b in range(m) for c in range(a + 1, m + 1) for d in range(b + 1, m + 1)]


def cases(tier, seed):
    q = tier == "quick"
    frames = ["id", "proj", "neg"] if q else list(lib.FRAMES)
    for r in rects(3):
        for f in frames:
            yield dict(op="box", r=r, f=f)
    for w, h, k in ((4, 4, 3), (4, 4, 4), (3, 3, 5)) if q else ((4, 4, 3), (4, 4, 4), (3, 3, 5), (4, 4, 5), (5, 4, 4), (3, 3, 6), (4, 4, 6)):
        for p in lib.subsets(w, h, k):
            if not lib.collinear(p):
                yield dict(op="hull", p=p, f="id" if (q and k > 3) else "neg")
                if k == 3:
                    yield dict(op="hull", p=p, f="proj")
    for n in (1, 2, 3):
        for p in itertools.product(lib.lattice(3), repeat=n):
            yield dict(op="pts", p=p, f=frames[(p[0][0] + 2 * p[-1][1]) % len(frames)])
    for k, w, h in ((4, 3, 3), (5, 3, 3)) if q else ((4, 3, 3), (5, 3, 3), (6, 3, 3), (4, 4, 4), (5, 4, 3)):
        i = 0
        for p in lib.subsets(w, h, k):
            for o in itertools.permutations(p[1:]):
                if o[0] < o[-1] and simple((p[0], *o)):
                    i += 1
                    yield dict(op="poly", p=(p[0], *o), f=frames[i % len(frames)])
    inner = [r for r in rects(5) if r[0] > 0 and r[1] > 0 and r[2] < 5 and r[3] < 5]
    for r in inner:
        for f in frames:
            yield dict(op="rings", parts=[[(0, 0, 5, 5), [r]]], f=f)
    for r, s in itertools.combinations(inner, 2):
        if r[2] < s[0] or s[2] < r[0] or r[3] < s[1] or s[3] < r[1]:
            yield dict(op="rings", parts=[[(0, 0, 5, 5), [r, s]]], f="id")
    for f in lib.FRAMES:        # almost their own bounding boxes
        yield dict(op="rings", parts=[[(0, 0, 15, 15), [(7, 4, 8, 5)]]], f=f)
        yield dict(op="rings", parts=[[(0, 0, 30, 15), [(7, 4, 8, 5), (21, 11, 22, 12)]]], f=f)
        for p in ([(0, 0), (15, 0), (15, 14), (14, 15), (0, 15)], [(0, 0), (9, 1), (20, 0), (20, 20), (0, 20)], [(0, 1), (1, 0), (20, 0), (20, 19), (19, 20), (0, 20)]):
            yield dict(op="poly", p=p, f=f)
    for r in rects(3) if q else rects(4):
        yield dict(op="rings", parts=[[(0, 0, 4, 4), []], [(r[0] + 6, r[1], r[2] + 6, r[3]), []]], f="neg")
        yield dict(op="rings", parts=[[(0, 0, 4, 4), [(1, 1, 2, 3)]], [(r[0] + 6, r[1] - 2, r[2] + 6, r[3] - 2), []],
                                      [(-9, r[1], -6, r[3] + 4), [(-8, r[3] + 1, -7, r[3] + 2)]]], f="id")
    for n in (12, 60, 400):
        for k in lib.KINDS:
            for f in frames[:3 if n < 400 else 1]:
                if k != "line":
                    yield dict(op="cloud", n=n, kind=k, f=f, seed=seed)


# ------------------------------------------------------------------ reference
def simple(ring):
    """no two edges touch except neighbours at their common vertex, and no straight angles"""
    n = len(ring)

    def cr(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])

    def on(a, b, p):
        return cr(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])
    E = [(ring[i], ring[(i + 1) % n]) for i in range(n)]
    for i in range(n):
        if cr(ring[i - 1], ring[i], ring[(i + 1) % n]) == 0:
            return False
        for j in range(i + 1, n):
            (a, b), (c, d) = E[i], E[j]
            if j == i + 1 or (i == 0 and j == n - 1):
                continue
            s = [cr(a, b, c), cr(a, b, d), cr(c, d, a), cr(c, d, b)]
            if s[0] * s[1] < 0 and s[2] * s[3] < 0 or on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b):
                return False
    return True


def judge_pts(case, ctx):
    """bounding boxes and centres of bare points, in the orders and forms they come in"""
    from pointpats import geometry as G
    import pointpats
    P = lib.frame(case["p"], case["f"])
    bb = np.array([*P.min(0), *P.max(0)])
    ctx.state("pts", P)
    forms = [("array", P), ("reversed", P[::-1]), ("list", P.tolist()), ("tuples", [tuple(t) for t in P.tolist()])]
    if case["f"] == "id":
        forms.append(("int array", P.astype(int)))
    for nm, v in forms:
        ctx.close(np.asarray(G.bbox(v), float), bb, "bbox(%s of %d points)" % (nm, len(P)), rtol=1e-12)
        ctx.check(np.shape(G.bbox(v)) == (4,), "bbox(%s) has shape %r" % (nm, np.shape(G.bbox(v))))
        if isinstance(v, np.ndarray):
            ctx.close(np.asarray(G.centroid(v), float), P.mean(0), "centroid(%s of %d points)" % (nm, len(P)), rtol=1e-12, atol=1e-9 * abs(bb).max())
            ctx.close(np.asarray(G.prepare_hull(v), float), bb, "prepare_hull(%s)" % nm, rtol=1e-12)
            ctx.close(np.asarray(G.prepare_hull(v, "bbox"), float), bb, "prepare_hull(%s, 'bbox')" % nm, rtol=1e-12)
        ctx.step(4)
    ctx.close(np.asarray(G.bbox(bb), float), bb, "bbox(bbox)")
    ctx.close(np.asarray(G.bbox(bb.tolist()), float), bb, "bbox(bbox as a list)")
    ctx.close(np.asarray(G.centroid(bb), float), [(bb[0] + bb[2]) / 2, (bb[1] + bb[3]) / 2], "centroid(bbox)", rtol=1e-12)
    ctx.close(float(G.area(bb)), (bb[2] - bb[0]) * (bb[3] - bb[1]), "area(bbox)", rtol=1e-12)
    for x in (bb[0], bb[2], (bb[0] + bb[2]) / 2):
        for y in (bb[1], bb[3], (bb[1] + bb[3]) / 2):
            ctx.check(bool(G.contains(bb, x, y)), lambda: "contains(%r, %r, %r) is not True" % (bb, x, y))
            ctx.check(not G.contains(bb, x + 1 + bb[2] - bb[0], y) and not G.contains(bb, x, y - 1 - bb[3] + bb[1]), "contains outside of a box")
            ctx.step(3)
    if bb[2] > bb[0] and bb[3] > bb[1]:
        w = pointpats.as_window(pointpats.poly_from_bbox(bb))
        ctx.close(w.area, (bb[2] - bb[0]) * (bb[3] - bb[1]), "window of a bbox", rtol=1e-6)
    ctx.outcome(bb)
    ctx.trace()


def ring_of(r):
    a, b, c, d = r
    return [(a, b), (c, b), (c, d), (a, d)]


def inside(ring, x, y):
    """even-odd; None within tol of the boundary"""
    c = False
    n = len(ring)
    ext = max(max(abs(a - x), abs(b - y)) for a, b in ring)
    for i in range(n):
        (x1, y1), (x2, y2) = ring[i], ring[(i + 1) % n]
        L = ((x2 - x1) ** 2 + (y2 - y1) ** 2) ** 0.5
        t = ((x - x1) * (x2 - x1) + (y - y1) * (y2 - y1)) / (L * L)
        t = min(1, max(0, t))
        if ((x - x1 - t * (x2 - x1)) ** 2 + (y - y1 - t * (y2 - y1)) ** 2) ** 0.5 <= 1e-6 * ext:
            return None
        if (y1 > y) != (y2 > y) and x < (x2 - x1) * (y - y1) / (y2 - y1) + x1:
            c = not c
    return c


def region_contains(polys, x, y):
    res = False
    for shell, holes in polys:
        s = inside(shell, x, y)
        if s is None:
            return None
        if s:
            for h in holes:
                t = inside(h, x, y)
                if t is None:
                    return None
                if t:
                    s = False
        res = res or s
    return res


def queries(polys, m=7):
    xs = [p[0] for s, _ in polys for p in s]
    ys = [p[1] for s, _ in polys for p in s]
    w, h = max(xs) - min(xs), max(ys) - min(ys)
    gx = np.linspace(min(xs) - 0.13 * w, max(xs) + 0.17 * w, m)
    gy = np.linspace(min(ys) - 0.16 * h, max(ys) + 0.11 * h, m)
    out = [(float(x), float(y)) for x in gx for y in gy]
    for s, hs in polys:
        out += [(sum(p[0] for p in r) / len(r), sum(p[1] for p in r) / len(r)) for r in hs]
        for a, b, c in zip(s, s[1:] + s[:1], s[2:] + s[:2]):       # just inside or outside of a corner
            m = ((a[0] + c[0]) / 2, (a[1] + c[1]) / 2)
            if len(s) < 9:
                out += [(b[0] + t * (m[0] - b[0]), b[1] + t * (m[1] - b[1])) for t in (.002, -.03)]
    return out


def centroid_of(polys):
    A = X = Y = 0.0
    ox, oy = polys[0][0][0]
    for shell, holes in polys:
        for ring, sg in [(shell, 1)] + [(h, -1) for h in holes]:
            a = x = y = 0.0
            n = len(ring)
            for i in range(n):
                x1, y1 = ring[i][0] - ox, ring[i][1] - oy
                x2, y2 = ring[(i + 1) % n][0] - ox, ring[(i + 1) % n][1] - oy
                cr = x1 * y2 - x2 * y1
                a += cr / 2
                x += (x1 + x2) * cr / 6
                y += (y1 + y2) * cr / 6
            if a < 0:
                a, x, y = -a, -x, -y
            A += sg * a
            X += sg * x
            Y += sg * y
    return A, (X / A + ox, Y / A + oy)


def close_ring(r):
    return r + [r[0]]


def judge(case, ctx):
    import shapely
    import scipy.spatial as sp
    import libpysal as ps
    import pointpats
    from pointpats import geometry as G
    f = case["f"]
    if case["op"] == "pts":
        return judge_pts(case, ctx)

    def T(ring):
        return [tuple(map(float, x)) for x in lib.frame(ring, f)]
    box = None
    hullpts = None
    if case["op"] == "poly":
        polys = [(T(case["p"]), [])]
    elif case["op"] == "box":
        box = case["r"]
        polys = [(T(ring_of(box)), [])]
    elif case["op"] in ("hull", "cloud"):
        p = case["p"] if case["op"] == "hull" else lib.structured(case["n"], case["kind"], case["seed"])
        hullpts = lib.frame(p, f)
        polys = [(T(lib.hull_ccw(p)), [])]
    else:
        polys = [(T(ring_of(s)), [T(ring_of(h)) for h in hs]) for s, hs in case["parts"]]
    ctx.state(polys)
    qs = queries(polys)
    want = [region_contains(polys, x, y) for x, y in qs]
    area, cen = centroid_of(polys)
    xs = [p[0] for s, _ in polys for p in s]
    ys = [p[1] for s, _ in polys for p in s]
    bb = np.array([min(xs), min(ys), max(xs), max(ys)])
    ctx.outcome(tuple(want), round(area, 6))
    scale = max(bb[2] - bb[0], bb[3] - bb[1])
    pos = 1e-9 * (np.abs(bb).max() + scale)

    # ------------------------------------------------- geometry representations
    reps = {}
    if len(polys) == 1:
        sh, hs = polys[0]
        reps["polygon"] = shapely.Polygon(sh, hs)
        reps["polygon cw"] = shapely.Polygon(sh[::-1], [h[::-1] for h in hs])
        reps["multipolygon of one"] = shapely.MultiPolygon([shapely.Polygon(sh, hs)])
    if len(polys) > 1:
        reps["multipolygon"] = shapely.MultiPolygon([shapely.Polygon(s, h) for s, h in polys])
        reps["multipolygon reversed"] = shapely.MultiPolygon([shapely.Polygon(s, h) for s, h in polys[::-1]])
    if box is not None:
        reps["bbox array"] = bb.copy()
        reps["shapely.box"] = shapely.box(*bb)
        reps["ConvexHull"] = sp.ConvexHull(np.array(polys[0][0]))
    if hullpts is not None:
        reps["ConvexHull"] = sp.ConvexHull(hullpts)
        reps["ConvexHull of hull"] = sp.ConvexHull(np.array(polys[0][0]))
    for name, r in reps.items():
        ctx.close(G.area(r), area, "area(%s)" % name, rtol=1e-7)
        ctx.close(np.asarray(G.bbox(r), float), bb, "bbox(%s)" % name, atol=pos)
        c = np.asarray(G.centroid(r), float)
        cw = cen
        if name.startswith("ConvexHull"):
            cw = r.points[r.vertices].mean(axis=0)        # of its own corners: qhull may leave out nearly straight ones
        ctx.close(c, np.asarray(cw), "centroid(%s)" % name, rtol=1e-9, atol=1e-7 * scale + pos)
        for (x, y), w in zip(qs, want):
            if w is not None:
                ctx.check(bool(G.contains(r, x, y)) == w,
                          lambda: "contains(%s, %r, %r) is not %r" % (name, x, y, w))
        ctx.step(3 + len(qs))
        # prepare_hull passes a given hull through
        h = G.prepare_hull(np.array(qs), r)
        ctx.close(G.area(h), area, "area(prepare_hull(.., %s))" % name, rtol=1e-7)
        ctx.close(np.asarray(G.bbox(h), float), bb, "bbox(prepare_hull(.., %s))" % name, atol=pos)
    if hullpts is not None:
        for arg in (None, "bbox"):
            ctx.close(G.prepare_hull(hullpts, arg), bb, "prepare_hull(points, %r)" % arg)
        h = G.prepare_hull(hullpts, "convex")
        ctx.close(G.area(h), area, "prepare_hull(points, 'convex')", rtol=1e-7)
        ctx.close(G.bbox(h), bb, "bbox of prepare_hull(points, 'convex')", atol=pos)
        ctx.close(G.bbox(hullpts), bb, "bbox(points)")
        ctx.close(G.bbox([tuple(t) for t in hullpts.tolist()]), bb, "bbox(list of points)")
        ctx.close(G.centroid(hullpts), hullpts.mean(0), "centroid(points)", atol=pos)
        if case["op"] == "cloud" and case["kind"] in ("uniform", "skew", "spiral"):
            a = G.prepare_hull(hullpts, "alpha")
            ctx.check(a.area <= area * (1 + 1e-7), "alpha shape larger than the hull")
            ctx.check(shapely.convex_hull(a).buffer(1e-6 * scale).covers(
                shapely.MultiPoint(hullpts)) or case["n"] > 20, "alpha shape")
        ctx.step(8)

    # ----------------------------------------------------------------- windows
    parts = [close_ring(s) for s, _ in polys]
    holes = [close_ring(h) for _, hs in polys for h in hs]

    def sorted_rings(rs):
        def canon(r):
            r = [tuple(map(float, p)) for p in r]
            r = r[:-1] if r[0] == r[-1] else r
            vs = []
            for q in (r, r[::-1]):
                i = q.index(min(q))
                vs.append(tuple(q[i:] + q[:i]))
            return min(vs)
        return sorted(canon(r) for r in rs if len(r))
    windows = {}
    poly = ps.cg.Polygon(parts if len(parts) > 1 or holes else parts[0], holes if holes else None) \
        if True else None
    windows["as_window(Polygon)"] = pointpats.as_window(poly)
    windows["as_window(cw)"] = pointpats.as_window(
        ps.cg.Polygon([p[::-1] for p in parts], [h[::-1] for h in holes] if holes else None))
    windows["Window"] = pointpats.Window([list(p) for p in parts], [list(h) for h in holes])
    if holes:
        windows["as_window(Window)"] = pointpats.as_window(windows["Window"])
    else:
        windows["Window(no holes)"] = pointpats.Window([list(p) for p in parts])
    if box is not None:
        windows["poly_from_bbox"] = pointpats.as_window(pointpats.poly_from_bbox(bb))
        windows["poly_from_bbox(list)"] = pointpats.as_window(pointpats.poly_from_bbox(bb.tolist()))
    inq = [t for t, w in zip(qs, want) if w is not None]
    for name, w in windows.items():
        ctx.close(w.area, area, "%s.area" % name, rtol=1e-6)
        ctx.close(np.asarray(w.bbox, float), bb, "%s.bbox" % name, atol=pos)
        ctx.check(sorted_rings(w.parts) == sorted_rings(parts), lambda: "%s.parts %r" % (name, w.parts))
        ctx.check(sorted_rings(w.holes) == sorted_rings(holes), lambda: "%s.holes %r" % (name, w.holes))
        kept = w.filter_contained(np.array(inq))
        exp = [t for t in inq if region_contains(polys, *t)]
        ctx.check([tuple(map(float, t)) for t in kept] == exp,
                  lambda: "%s.filter_contained: %r, expected %r" % (name, [tuple(t) for t in kept], exp))
        ctx.check(all(isinstance(t, np.ndarray) and t.shape == (2,) for t in kept), "filter_contained items")
        ctx.check([tuple(map(float, t)) for t in w.filter_contained(inq[::-1])] == exp[::-1],
                  "%s.filter_contained does not keep the order" % name)
        twice = inq + inq[::2] + inq[:3] * 2
        ctx.check([tuple(map(float, t)) for t in w.filter_contained(twice)] == [t for t in twice if region_contains(polys, *t)],
                  "%s.filter_contained loses repeated points" % name)
        ctx.check(len(w.filter_contained([])) == 0, "%s.filter_contained of nothing" % name)
        ctx.step(4)
    if case["op"] in ("cloud", "rings") and f == "id" and (case["op"] == "cloud" or len(case["parts"]) > 1):
        many = [t for t in queries(polys, 36) if region_contains(polys, *t) is not None]
        exp = [t for t in many if region_contains(polys, *t)]
        for name, w in windows.items():
            kept = w.filter_contained(np.array(many))
            ctx.check([tuple(map(float, t)) for t in kept] == exp, lambda: "%s.filter_contained of %d points keeps %d, expected %d" % (name, len(many), len(kept), len(exp)))
            ctx.step()
    ctx.check(pointpats.Window([list(p) for p in parts]).holes in ([], [[]]), "holes leak between windows")
    # ----------------------------------------------------------------- to_ccf
    for s, hs in polys:
        for r in [s] + hs:
            o = list(r)
            got = pointpats.to_ccf(list(o))
            ctx.check(list(got) == o + [o[0]], lambda: "to_ccf(open) = %r" % (got,))
            c = o + [o[0]]
            ctx.check(list(pointpats.to_ccf(list(c))) == c, "to_ccf(closed) changed the ring")
            ctx.step(2)
    ctx.trace()
