"""Hulls with an even-odd reference, shared by the simulator checks."""
import numpy as np
import lib

SQ = [(0., 0.), (3., 0.), (3., 4.), (0., 4.)]
HULLS = ("box", "points", "points4", "tri", "hole", "holes2", "parts", "partshole", "convex", "thin")


def _tr(ring, f):
    return [tuple(map(float, p)) for p in lib.frame(ring, f)]


def make(name, f="id"):
    """-> dict(arg, polys [(shell, holes)], box, area, closed)"""
    import shapely
    from scipy.spatial import ConvexHull
    polys = [(SQ, [])]
    if name in ("box", "points", "points4"):
        pass
    elif name == "tri":
        polys = [([(0., 0.), (4., 1.), (1., 3.)], [])]
    elif name == "hole":
        polys = [(SQ, [[(0.5, 0.5), (2.75, 0.5), (2.75, 3.), (0.5, 3.)]])]
    elif name == "holes2":
        polys = [(SQ, [[(0.25, 0.25), (1.25, 0.25), (1.25, 3.5), (0.25, 3.5)], [(1.75, 1.), (2.8, 1.), (2.8, 1.5), (1.75, 1.5)]])]
    elif name == "parts":
        polys = [(SQ, []), ([(5., 1.), (6., 1.), (6., 5.), (5., 5.)], [])]
    elif name == "partshole":
        polys = [(SQ, [[(1., 1.), (2., 1.), (2., 3.), (1., 3.)]]), ([(1.25, 1.5), (1.75, 1.5), (1.75, 2.5), (1.25, 2.5)], []),
                 ([(4., 3.), (6., 4.), (4.5, 6.)], [])]
    elif name == "pinhole":
        polys = [(SQ, [[(1.44, 1.92), (1.56, 1.92), (1.56, 2.08), (1.44, 2.08)]])]
    elif name == "nick":
        polys = [([(0., 0.), (3., 0.), (3., 3.48), (2.61, 4.), (0., 4.)], [])]
    elif name == "convex":
        polys = [([(0., 1.), (2., 0.), (4., 2.), (3., 4.), (1., 3.)], [])]
    elif name == "thin":
        polys = [([(0., 0.), (4., 4.), (4., 4.5), (0., 0.5)], [])]
    polys = [(_tr(s, f), [_tr(h, f) for h in hs]) for s, hs in polys]
    P = np.array([p for s, _ in polys for p in s])
    box = (*P.min(0), *P.max(0))
    area = sum(abs(lib.poly_area(s)) - sum(abs(lib.poly_area(h)) for h in hs) for s, hs in polys)
    if name == "box":
        arg = np.array(box)
    elif name == "points":
        (x0, y0, x1, y1) = box
        arg = np.array([(x0, y0 + .3 * (y1 - y0)), (x1, y1), (x0 + .4 * (x1 - x0), y0), (x0 + .5 * (x1 - x0), y0 + .6 * (y1 - y0)),
                        (x0 + .1 * (x1 - x0), y1)])
    elif name == "points4":
        (x0, y0, x1, y1) = box
        arg = np.array([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])
    elif name == "convex":
        extra = np.vstack([P, P.mean(0), 0.5 * (P[0] + P.mean(0))])
        arg = ConvexHull(extra)
    elif len(polys) == 1:
        arg = shapely.Polygon(polys[0][0], polys[0][1])
    else:
        arg = shapely.MultiPolygon([shapely.Polygon(s, h) for s, h in polys])
    return dict(arg=arg, polys=polys, box=box, area=area, name=name, f=f, ext=max(box[2] - box[0], box[3] - box[1]))


def inside(ring, P, tol):
    """-> (+1 in, 0 within tol of the ring, -1 out) for each row of P"""
    x, y = P[:, 0], P[:, 1]
    c = np.zeros(len(P), bool)
    near = np.zeros(len(P), bool)
    for (x1, y1), (x2, y2) in zip(ring, ring[1:] + ring[:1]):
        dx, dy = x2 - x1, y2 - y1
        t = np.clip(((x - x1) * dx + (y - y1) * dy) / (dx * dx + dy * dy), 0, 1)
        near |= np.hypot(x - x1 - t * dx, y - y1 - t * dy) <= tol
        if y1 != y2:
            c ^= ((y1 > y) != (y2 > y)) & (x < dx * (y - y1) / dy + x1)
    return np.where(near, 0, np.where(c, 1, -1))


def classify(h, P):
    """+1 inside, 0 within 1e-9 of the boundary, -1 outside the hull"""
    P = np.asarray(P, float).reshape(-1, 2)
    tol = 1e-9 * h["ext"] + 4e-16 * np.abs(P).max(initial=0)
    out = np.full(len(P), -1)
    zero = np.zeros(len(P), bool)
    for s, hs in h["polys"]:
        r = inside(s, P, tol)
        zero |= r == 0
        for g in hs:
            k = inside(g, P, tol)
            zero |= k == 0
            r = np.where(k == 1, -1, np.where((k == 0) & (r == 1), 0, r))
        out = np.maximum(out, r)
    return np.where((out < 1) & zero, 0, out)


def check_result(ctx, res, n, reps, h, what):
    """size and containment of one simulator result -> (reps, n, 2) view"""
    want = (n, 2) if reps == 1 else (reps, n, 2)
    ctx.check(isinstance(res, np.ndarray) and res.shape == want, lambda: "%s: shape %r, expected %r" % (what, getattr(res, "shape", res), want))
    R = res.reshape(reps, n, 2)
    flat = R.reshape(-1, 2)
    ctx.check(bool(np.isfinite(flat).all()), "%s: not finite: %r" % (what, flat))
    if len(flat):
        c = classify(h, flat)
        ctx.check(bool((c >= 0).all()), lambda: "%s: points outside the hull: %r" % (what, flat[c < 0][:5].tolist()))
    return R
