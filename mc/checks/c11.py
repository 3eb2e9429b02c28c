"""C11: quadrat counts: every point in exactly one cell that contains it."""
import fractions
import itertools
import math
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of bounding boxes x grids x probe points (interior lattice, cell edges and corners, one "
              "rounding step beside them) and of lattice patterns, real counts against cell geometry (assignment search)",
    level_note="All boxes, grids and probes of the stated alphabets; a point on a shared edge may be counted in any cell "
               "touching it within 1e-9 of the cell size; zero-extent bounding boxes are excluded.",
    rule="a case is (bounding box, grid, frame) with all its probes, or a pattern with all its grids; an outcome is a count table",
    bounds=dict(quick="9x9 box sizes x 9 hexagon sides and 12 rectangle grids x about 150 probes each (frames rotating); all 3x3 "
                      "lattice sets of 2-5 and multisets of 3-4 x 14 grids; families n in {50, 300}; plots on a subset",
                thorough="13x13 box sizes x 15 sides, all 6 frames, 300 probes; 4x4 sets of 3 and 4"),
    assumptions=[],
)
SIZES = [1.0, 0.5, 1.5, 2.0, 3.0, math.sqrt(3), 0.3, 0.87, 0.504]
MORE = [2.5, 3.5, math.sqrt(3) / 2, 4.2]
SIDES = [1.0, 0.5, 0.3, 2.0, 1 / math.sqrt(3), 2 / 3, 0.7, 5.0, 1 / 3]
MORE_SIDES = [0.25, 0.2, 1.5, math.sqrt(3) / 3 / 2, 0.1, 1.1]
RECTS = [dict(count_column=a, count_row=b) for a, b in ((3, 3), (1, 1), (2, 5), (7, 2), (10, 3))] + \
        [dict(rectangle_width=a, rectangle_height=b) for a, b in ((0.5, 0.5), (0.3, 0.7), (0.1, 1.0), (1.0, 0.25), (5.0, 9.0), (0.7, 0.3))] + \
        [dict()]


def cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    i = 0
    sizes = SIZES if q else SIZES + MORE
    for w, h in itertools.product(sizes, repeat=2):
        for s in SIDES if q else SIDES + MORE_SIDES:
            i += 1
            for f in (fr[i % len(fr)],) if q else fr:
                yield dict(op="hex", w=w, h=h, s=s, f=f)
        for r in RECTS:
            i += 1
            for f in (fr[i % len(fr)],) if q else fr:
                yield dict(op="rect", w=w, h=h, r=r, f=f)
    pats = itertools.chain(lib.subsets(3, 3, 2), lib.subsets(3, 3, 3), lib.subsets(3, 3, 4), lib.subsets(3, 3, 5),
                           lib.multisets(3, 3, 3), lib.multisets(3, 3, 4))
    if not q:
        pats = itertools.chain(pats, lib.subsets(4, 4, 3), lib.subsets(4, 4, 4))
    for p in pats:
        i += 1
        P = np.asarray(p)
        if (np.ptp(P, axis=0) > 0).all():
            yield dict(op="pat", p=p, f=fr[i % len(fr)])
    for n in (50, 300) if q else (20, 50, 120, 300, 1000):
        for kind in lib.KINDS:
            for f in ("id", "proj", "lonlat"):
                yield dict(op="pat", n=n, kind=kind, f=f, seed=seed)
    for i, p in enumerate(itertools.islice(lib.subsets(3, 3, 4), 0, None, 8 if q else 2)):
        yield dict(op="plot", p=p, f=fr[i % 3])


def rect_cells(box, nx, ny, w, h):
    x0, y0 = box[0], box[1]
    return {ix + iy * nx: (x0 + ix * w, y0 + iy * h, x0 + (ix + 1) * w, y0 + (iy + 1) * h) for ix in range(nx) for iy in range(ny)}


def hex_center(box, L, ix, iy):
    sh = L * math.sqrt(3) / 2
    return box[0] + 1.5 * L * ix, box[1] + (2 * iy + ix % 2) * sh


def hex_dist(P, c, L):
    """signed distance-like excess of points over a hexagon (<= 0: inside)"""
    dx, dy = np.abs(P[..., 0] - c[0]), np.abs(P[..., 1] - c[1])
    sh = L * math.sqrt(3) / 2
    return np.maximum(dy - sh, (math.sqrt(3) * dx + dy) / 2 - sh)


def hex_box_gap(c, L, box):
    """how far a hexagon is from the box (0 when they touch)"""
    sh = L * math.sqrt(3) / 2
    gx = max(box[0] - (c[0] + L), c[0] - L - box[2], 0)
    gy = max(box[1] - (c[1] + sh), c[1] - sh - box[3], 0)
    return max(gx, gy)


def assignable(counts, touch):
    """can the points be spread over cells they touch with exactly these counts"""
    left = dict(counts)
    amb = []
    for t in touch:
        t = [c for c in t if c in left]
        if not t:
            return False
        if len(t) == 1:
            left[t[0]] -= 1
            if left[t[0]] < 0:
                return False
        else:
            amb.append(t)
    # bipartite matching of the ambiguous points to the remaining places
    owner = {}
    for i, t in enumerate(amb):
        seen = set()

        def aug(i):
            for c in amb[i]:
                for k in range(left[c]):
                    s = (c, k)
                    if s in seen:
                        continue
                    seen.add(s)
                    if s not in owner or aug(owner[s]):
                        owner[s] = i
                        return True
            return False
        if not aug(i):
            return False
    return sum(left.values()) == len(amb)


def grid_of(m, box, kind, par, ctx, what):
    """id -> geometry of the grid the parameters describe, with the library's own ids"""
    W, H = box[2] - box[0], box[3] - box[1]
    if kind == "rect":
        if par.get("rectangle_width") and par.get("rectangle_height"):
            w, h = par["rectangle_width"], par["rectangle_height"]
            nx, ny = m.count_column, m.count_row
            for nn, tot, size in ((nx, W, w), (ny, H, h)):
                k = tot / size
                exact = fractions.Fraction(float(tot)) / fractions.Fraction(float(size))
                ok = nn == math.ceil(exact) or (exact.denominator > 1 and abs(k - round(k)) < 1e-6 and nn in (round(k), round(k) + 1))
                ctx.check(ok, "%s: %d cells of %r for an extent of %r" % (what, nn, size, tot))
        else:
            nx, ny = par.get("count_column", 3), par.get("count_row", 3)
            ctx.check(m.count_column == nx and m.count_row == ny, "%s: grid of %r by %r" % (what, m.count_column, m.count_row))
            w, h = W / nx, H / ny
        ctx.close([m.rectangle_width, m.rectangle_height], [w, h], what + ": cell size", rtol=1e-9)
        return rect_cells(box, nx, ny, w, h), nx
    return None, m.count_column


def check_counts(ctx, P, m, kind, par, box, what):
    """-> count table, after checking it against the geometry"""
    t = m.point_location_sta()
    ctx.eq(np.array(m.mbb), np.array(box), what + ": bounding box")
    ulp = np.finfo(float).eps * np.abs(P).max()
    ctx.check(sum(t.values()) == len(P), lambda: "%s counts %d of %d points: %r" % (what, sum(t.values()), len(P), t))
    ctx.check(all(v >= 0 and v == int(v) for v in t.values()), "%s: counts %r" % (what, t))
    ctx.check(len(t) == m.num, "%s: %d cells, num is %r" % (what, len(t), m.num))
    cells, nc = grid_of(m, box, kind, par, ctx, what)
    touch = [[] for _ in P]
    if kind == "rect":
        ctx.check(set(t) == set(cells), "%s: cell ids %r" % (what, sorted(t)))
        tol = 1e-9 * max(m.rectangle_width, m.rectangle_height) + 8 * ulp
        # bounding box covered
        ctx.check(max(c[2] for c in cells.values()) >= box[2] - 8 * tol and max(c[3] for c in cells.values()) >= box[3] - 8 * tol,
                  "%s: cells do not reach the upper right corner" % what)
        for c, b in cells.items():
            inside = (P[:, 0] >= b[0] - tol) & (P[:, 0] <= b[2] + tol) & (P[:, 1] >= b[1] - tol) & (P[:, 1] <= b[3] + tol)
            for k in np.flatnonzero(inside):
                touch[k].append(c)
    else:
        L = par
        tol = 1e-9 * L + 8 * ulp
        cover = []
        for c in t:
            ix, iy = c % nc, c // nc
            ce = hex_center(box, L, ix, iy)
            ctx.check(hex_box_gap(ce, L, box) <= tol, lambda: "%s: cell %r at %r is apart from the bounding box" % (what, c, ce))
            for k in np.flatnonzero(hex_dist(P, ce, L) <= tol):
                touch[k].append(c)
    ctx.check(assignable(t, touch), lambda: "%s: counts %r; cells touched by each point %r (points %r)"
              % (what, {k: v for k, v in t.items() if v}, touch[:40], P[:40].tolist()))
    ctx.step()
    return t


def make(kind, P, par):
    from pointpats import HexagonM, RectangleM
    return RectangleM(P, **par) if kind == "rect" else HexagonM(P, par)


def probes(kind, w, h, par, thorough=True):
    xs, ys = set(np.linspace(0, w, 7)), set(np.linspace(0, h, 7))
    pts = list(itertools.product(sorted(xs), sorted(ys)))
    edge = []
    if kind == "rect":
        if par.get("rectangle_width"):
            cw, ch = par["rectangle_width"], par["rectangle_height"]
        else:
            cw, ch = w / par.get("count_column", 3), h / par.get("count_row", 3)
        gx = [k * cw for k in range(0, min(int(w / cw) + 2, 6))] + [w]
        gy = [k * ch for k in range(0, min(int(h / ch) + 2, 6))] + [h]
        for x in gx:
            for y in gy:
                edge.append((x, y))
            edge.append((x, 0.37 * h))
        for y in gy:
            edge.append((0.61 * w, y))
    else:
        L = par
        sh = L * math.sqrt(3) / 2
        nx, ny = min(int(w / (1.5 * L)) + 2, 4), min(int(h / (2 * sh)) + 2, 4)
        for ix in range(nx):
            for iy in range(ny):
                cx, cy = 1.5 * L * ix, (2 * iy + ix % 2) * sh
                v = [(cx + L, cy), (cx + L / 2, cy + sh), (cx - L / 2, cy + sh), (cx - L, cy)]
                edge += v + [((a[0] + b[0]) / 2, (a[1] + b[1]) / 2) for a, b in zip(v, v[1:])]
                edge += [(cx + L / 2, h), (cx - L / 2, h), (w, cy), (w, cy + sh), (cx + 0.75 * L, h), (w, cy + 0.4 * sh)]
    out = []
    for x, y in pts + edge:
        if -1e-12 <= x <= w * (1 + 1e-12) and -1e-12 <= y <= h * (1 + 1e-12):
            out.append((min(max(x, 0.0), w), min(max(y, 0.0), h)))
    out = list(dict.fromkeys(out))
    near = []
    for x, y in out[49::3]:
        for dx, dy in ((1e-7, 0), (-1e-7, 0), (0, 1e-7), (0, -1e-7)):
            if 0 <= x + dx <= w and 0 <= y + dy <= h:
                near.append((x + dx, y + dy))
    return out, near


def judge(case, ctx):
    s, dx, dy = lib.FRAMES[case["f"]]
    if case["op"] in ("hex", "rect"):
        w, h = case["w"], case["h"]
        kind = case["op"]
        par0 = case["s"] if kind == "hex" else case["r"]
        out, near = probes(kind, w, h, par0)
        par = par0 * s if kind == "hex" else {k: (v * s if k.startswith("rect") else v) for k, v in par0.items()}
        corners = lib.frame([(0, 0), (w, h)], case["f"])
        corners2 = lib.frame([(0, h), (w, 0)], case["f"])
        cand = lib.frame(np.array(out + near), case["f"])
        cand = np.clip(cand, corners[0], corners[1])
        box = np.array([*corners[0], *corners[1]])
        if box[2] - box[0] <= 0 or box[3] - box[1] <= 0:
            return
        # all probes in one pattern, and a few in patterns of their own (the other corners included)
        P = np.vstack([corners, cand])
        what = "%s grid %r on box %r x %r, frame %s" % (kind, par0, w, h, case["f"])
        t = check_counts(ctx, P, make(kind, P, par), kind, par, box, what)
        for k in range(0, len(cand), 9):
            Q = np.vstack([corners2 if k % 2 else corners, cand[k:k + 1]])
            check_counts(ctx, Q, make(kind, Q, par), kind, par, box, what + " probe %r" % (cand[k].tolist(),))
        ctx.state(kind, par0, w, h, case["f"])
        ctx.outcome(kind, par0, sorted(t.items()))
        ctx.trace()
        return
    P0 = np.asarray(case["p"], float) if "p" in case else lib.structured(case["n"], case["kind"], case["seed"])
    P = lib.frame(P0, case["f"])
    box = np.array([*P.min(0), *P.max(0)])
    if (np.ptp(P, axis=0) <= 1e-9 * np.abs(P).max()).any():
        return
    ctx.state(P)
    if case["op"] == "plot":
        return judge_plot(P, s, ctx)
    ext = float(np.ptp(P, axis=0).max())
    u = s if "p" in case else ext / 4
    ref = None
    for r in RECTS:
        par = {k: (v * u if k.startswith("rect") else v) for k, v in r.items()}
        if par.get("rectangle_width") and ext / min(par["rectangle_width"], par["rectangle_height"]) > 60:
            continue
        m = make("rect", P, par)
        t = check_counts(ctx, P, m, "rect", par, box, "RectangleM(%r)" % (par,))
        ctx.outcome("rect", r, sorted(t.values()))
    for L in (1.0, 0.6, 2 / math.sqrt(3)):
        m = make("hex", P, L * u)
        t = check_counts(ctx, P, m, "hex", L * u, box, "HexagonM(%r)" % (L * u))
        ctx.outcome("hex", L, sorted(t.values()))
    # other ways to hand the same points over, and the order of the points
    import geopandas as gpd
    from pointpats import PointPattern
    gs = gpd.GeoSeries.from_xy(P[:, 0], P[:, 1])
    want = {k: make(k, P, v).point_location_sta() for k, v in (("rect", dict(count_column=2, count_row=3)), ("hex", 0.8 * u))}
    for nm, v in (("reversed", P[::-1]), ("list", P.tolist()), ("GeoSeries", gs), ("GeoDataFrame", gpd.GeoDataFrame(geometry=gs)),
                  ("PointPattern", PointPattern(P))):
        for k, par in (("rect", dict(count_column=2, count_row=3)), ("hex", 0.8 * u)):
            got = make(k, v, par).point_location_sta()
            ctx.check(got == want[k], lambda: "%s counts for %s: %r, for the array %r" % (k, nm, got, want[k]))
            ctx.step()
    ctx.trace()


def judge_plot(P, s, ctx):
    """what a plot shows: one label per cell, the number of points in that cell"""
    import matplotlib.pyplot as plt
    box = np.array([*P.min(0), *P.max(0)])
    for kind, par in (("rect", dict(count_column=2, count_row=2)), ("rect", dict(rectangle_width=0.7 * s, rectangle_height=1.1 * s)),
                      ("hex", 0.8 * s)):
        m = make(kind, P, par)
        t = check_counts(ctx, P, m, kind, par, box, "plotted %s" % kind)
        ax, ids = m.plot(show="counts")
        try:
            ctx.check(sorted(ids) == sorted(t), "plot shows cells %r of %r" % (ids, sorted(t)))
            texts = [x for x in ax.texts]
            ctx.check(len(texts) == len(t), "plot has %d labels for %d cells" % (len(texts), len(t)))
            polys = [p.vertices for c in ax.collections for p in c.get_paths() if len(p.vertices) in (5, 6, 7, 8)]
            used = set()
            for cid, tx in zip(ids, texts):
                x, y = tx.get_position()
                if kind == "rect":
                    w, h = m.rectangle_width, m.rectangle_height
                    c = ((cid % m.count_column + .5) * w + box[0], (cid // m.count_column + .5) * h + box[1])
                else:
                    c = hex_center(box, par, cid % m.count_column, cid // m.count_column)
                ctx.close([x, y], c, "label of cell %r" % cid, rtol=1e-9, atol=1e-9 * s)
                ctx.check(tx.get_text() == str(t[cid]), lambda: "cell %r is labelled %r, it has %r points" % (cid, tx.get_text(), t[cid]))
                used.add((round(x / s, 6), round(y / s, 6)))
            ctx.check(len(used) == len(t), "labels coincide")
            cen = {(round(float(v[:-1, 0].mean() if kind == "hex" else v[:4, 0].mean()) / s, 4),
                    round(float(v[:-1, 1].mean() if kind == "hex" else v[:4, 1].mean()) / s, 4)) for v in
                   [np.asarray(p) if len(p) in (5, 7) else np.asarray(p)[:5 if kind == "rect" else 7] for p in polys if len(p) > 4]}
            lab = {(round(x / s, 4), round(y / s, 4)) for x, y in (tx.get_position() for tx in texts)}
            miss = [a for a in lab if not any(abs(a[0] - b[0]) < 1e-3 and abs(a[1] - b[1]) < 1e-3 for b in cen)]
            ctx.check(not miss, lambda: "no cell drawn around the labels %r (drawn around %r)" % (miss, cen))
        finally:
            plt.close("all")
        contrib = np.arange(len(t)) * 1.25
        ax, ids = m.plot(show="chi2", chi2_contrib=contrib)
        try:
            got = [tx.get_text() for tx in ax.texts]
            ctx.check(got == ["%.2f" % v for v in contrib], "chi2 labels %r" % (got,))
        finally:
            plt.close("all")
        for bad in (dict(show="chi2"), dict(show="x"), dict(show="chi2", chi2_contrib=np.ones(len(t) + 1))):
            try:
                m.plot(**bad)
            except ValueError:
                pass
            else:
                ctx.fail("plot(%r) was accepted" % (bad,))
            finally:
                plt.close("all")
        ctx.step(3)
    ctx.outcome("plot", P)
    ctx.trace()
