"""Shared input alphabets and small reference models."""
import itertools
import math
import numpy as np


# ---------------------------------------------------------------- alphabets
def lattice(w, h=None):
    h = w if h is None else h
    return [(x, y) for x in range(w) for y in range(h)]


def subsets(w, h, k):
    """all k-subsets of the w x h lattice"""
    return itertools.combinations(lattice(w, h), k)


def multisets(w, h, k):
    return itertools.combinations_with_replacement(lattice(w, h), k)


def halton(n, phase=0, b1=2, b2=3):
    def vdc(i, b):
        f, r = 1.0, 0.0
        while i:
            f /= b
            r += f * (i % b)
            i //= b
        return r
    return np.array([(vdc(i, b1), vdc(i, b2)) for i in range(1 + phase, 1 + phase + n)])


def structured(n, kind, seed=1):
    """Larger deterministic patterns; kind in KINDS."""
    ph = 7 * (seed % 50)
    u = halton(n, ph)
    if kind == "uniform":
        return u * [10.0, 6.0]
    if kind == "cluster":
        c = np.array([(2.0, 3.0), (8.5, 2.0), (5.0, 9.0)])
        return c[np.arange(n) % 3] + 0.6 * (u - 0.5)
    if kind == "dups":
        p = np.round(u * [4, 3])
        return p + 0.0
    if kind == "skew":
        t = u[:, 0] * 20
        return np.column_stack([t, 0.3 * t + u[:, 1] * 2.0])
    if kind == "spiral":
        t = np.arange(1, n + 1)
        return np.column_stack([np.sqrt(t) * np.cos(2.4 * t), np.sqrt(t) * np.sin(2.4 * t)])
    if kind == "grid":
        m = int(math.ceil(math.sqrt(n)))
        g = np.array([(i, j) for i in range(m) for j in range(m)], float)[:n]
        return g
    if kind == "outlier":
        p = u * 1.0
        p[-1] = (50.0, -20.0)
        return p
    if kind == "line":                      # nearly collinear, one off point
        p = np.column_stack([u[:, 0] * 10, u[:, 0] * 20])
        p[0] = (3.0, 0.0)
        return p
    raise KeyError(kind)


def generic(n, phase=0, dim=2):
    """points of the unit cube in general position (no equal distances): fractional parts of square roots of primes"""
    primes = [p for p in range(2, 4000) if all(p % d for d in range(2, int(p ** .5) + 1))]
    v = np.sqrt(np.array(primes[phase % 100:phase % 100 + n * dim], float)) % 1
    return v.reshape(n, dim)


KINDS = ("uniform", "cluster", "dups", "skew", "spiral", "grid", "outlier", "line")

# affine frames: unit, small, large, projected-coordinate-like offset, negative
FRAMES = {
    "id": (1.0, 0.0, 0.0),
    "small": (1e-3, 0.0, 0.0),
    "proj": (250.0, 512000.0, 4186000.0),
    "neg": (0.5, -7.0, -3.25),
    "big": (1e5, 0.0, 0.0),
    "lonlat": (0.001, -122.4, 37.7),
    "tiny": (1e-6, 0.0, 0.0),
}


def frame(points, name):
    s, dx, dy = FRAMES[name]
    p = np.asarray(points, dtype=float) * s
    return p + [dx, dy]


def dist_matrix(p, q=None, metric="euclidean"):
    p = np.asarray(p, float)
    q = p if q is None else np.asarray(q, float)
    d = np.abs(p[:, None, :] - q[None, :, :])
    if metric in ("euclidean", "l2"):
        return np.sqrt((d ** 2).sum(-1))
    if metric in ("cityblock", "manhattan", "l1"):
        return d.sum(-1)
    if metric in ("chebyshev", "linfinity"):
        return d.max(-1)
    raise KeyError(metric)


def gap(D, q):
    """a threshold in the middle of a gap between the distances around quantile q (below all if q < 0, above all if q > 1)"""
    u = np.unique(D[~np.eye(len(D), dtype=bool)])
    if q < 0:
        return float(u[0]) * 0.5 if u[0] > 0 else float(u[u > 0][0]) * 0.5 if (u > 0).any() else 0.5
    if q > 1 or len(u) == 1:
        return float(u[-1]) * 1.5 + 1e-9
    m = len(u)
    for k in list(range(int(q * (m - 1)), m - 1)) + list(range(m - 1)):
        if u[k + 1] - u[k] > 1e-7 * u[-1]:
            return float(u[k] + u[k + 1]) / 2
    return float(u[-1]) * 1.5 + 1e-9


def collinear(pts):
    """exact for ints / small rationals; tolerance relative otherwise"""
    p = np.asarray(pts, float)
    if len(p) < 3:
        return True
    c = p - p.mean(0)
    s = np.linalg.svd(c, compute_uv=False)
    return s[1] <= 1e-9 * max(s[0], 1e-300)


# ------------------------------------------------------------- convex hull
def hull_ccw(points):
    """Extreme points in counterclockwise order (monotone chain, strict),
    starting at the lexicographically smallest; exact on small lattices."""
    pts = sorted(set(map(tuple, np.asarray(points, float).tolist())))
    if len(pts) <= 2:
        return pts

    def cross(o, a, b):
        return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])
    lo = []
    for p in pts:
        while len(lo) >= 2 and cross(lo[-2], lo[-1], p) <= 0:
            lo.pop()
        lo.append(p)
    up = []
    for p in reversed(pts):
        while len(up) >= 2 and cross(up[-2], up[-1], p) <= 0:
            up.pop()
        up.append(p)
    return lo[:-1] + up[:-1]


def poly_area(ring):
    a = 0.0
    n = len(ring)
    x0, y0 = ring[0]
    for i in range(n):
        x1, y1 = ring[i]
        x2, y2 = ring[(i + 1) % n]
        a += (x1 - x0) * (y2 - y0) - (x2 - x0) * (y1 - y0)
    return a / 2


# ------------------------------------------------------------ global RNG state
def rng_state():
    """comparable snapshot of numpy's global random state"""
    s = np.random.get_state(legacy=False)

    def flat(o):
        if isinstance(o, dict):
            return tuple((k, flat(v)) for k, v in sorted(o.items()))
        if isinstance(o, np.ndarray):
            return o.tobytes()
        return o
    return flat(s)
