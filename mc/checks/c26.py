"""C26: what the quadrat plots show against the counts and contributions."""
import itertools
import math
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of lattice patterns x grids (rectangles, hexagons) x windows x what is shown, on the real drawings "
              "(matplotlib artists) against cell geometry and the chi-square definition",
    level_note="Artists are read back from the axes, whatever calls made them; a point on a shared edge may be counted in either cell.",
    rule="a case is a pattern in a frame; every grid, window and plot kind of the alphabet is drawn for it",
    bounds=dict(quick="one in 7 of the 3- to 5-subsets and one in 23 of the 4-multisets of the 3x3 lattice with positive extents, families n=40 and 400, patterns 26 and 45 cells wide or tall; 6 rectangle and "
                      "5 hexagon grids, 6 windows in rotation", thorough="every subset and multiset, families up to n=1200, 101 cells wide or tall, all combinations"),
    assumptions=["matplotlib draws what its artists hold"],
)


def cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    i = seed
    for step, pats in ((7 if q else 1, itertools.chain(*(lib.subsets(3, 3, k) for k in (3, 4, 5)))), (23 if q else 2, lib.multisets(3, 3, 4))):
        for p in pats:
            i += 1
            if i % step == 0 and (np.ptp(np.asarray(p), axis=0) > 0).all():
                yield dict(p=p, f=fr[i // step % len(fr)], r=i, full=not q)
    for n in (40, 400) if q else (40, 150, 400, 1200):
        for kind in lib.KINDS if n < 400 or not q else (lib.KINDS[seed % 8], "dups"):
            i += 1
            yield dict(n=n, kind=kind, f=fr[i % len(fr)], r=i, full=not q)
    # many columns, many rows
    for wide in (26, -26, 40, -45) if q else (26, -26, 40, -45, 101, -101):
        i += 1
        yield dict(n=30, kind=lib.KINDS[i % 8], f="id", r=i, full=False, wide=wide)


def windows(lo, ext):
    import shapely
    b = lambda x0, y0, x1, y1: shapely.box(*(lo + ext * [x0, y0]), *(lo + ext * [x1, y1]))  # noqa: E731
    yield None
    yield b(-.5, -.25, 1.5, 2)
    yield shapely.Polygon(b(-1, -1, 2, 2).exterior, [b(-.5, -.5, -.2, -.2).exterior, b(1.3, 1.2, 1.7, 1.9).exterior])
    yield shapely.MultiPolygon([b(-.1, -.1, 1.1, 1.1), shapely.Polygon(b(2, 0, 3, 1).exterior, [b(2.2, .2, 2.4, .7).exterior])])
    yield shapely.GeometryCollection([b(-.1, -.1, 1.1, 1.1), shapely.MultiPolygon([b(2, 0, 3, 1), b(4, 0, 5, 3)])])
    yield shapely.Polygon([lo - ext, lo + ext * [3, -1], lo + ext * [.5, 4]])


def rings(g):
    if hasattr(g, "geoms"):
        return [r for x in g.geoms for r in rings(x)]
    return [np.asarray(r.coords)[:, :2] for r in [g.exterior, *g.interiors]]


def same_ring(a, b, tol):
    """closed rings, any start and direction"""
    if len(a) != len(b) or np.abs(a[0] - a[-1]).max() > tol:
        return False
    a, b = a[:-1], b[:-1]
    return any(np.allclose(np.roll(x, k, axis=0), b, rtol=0, atol=tol) for x in (a, a[::-1]) for k in range(len(a)))


class Drawing:
    """points, outlines, cells (polygon, colour value) and labels of an axes"""

    def __init__(self, ax):
        from matplotlib.collections import PathCollection
        self.points, self.outlines, self.cells = [], [], []
        for l in ax.lines:
            xy = np.column_stack([l.get_xdata(), l.get_ydata()]).astype(float)
            if l.get_linestyle() in ("None", "", " "):
                self.points += xy.tolist()
            else:
                self.outlines.append(xy)
        for c in ax.collections:
            if isinstance(c, PathCollection):
                self.points += np.asarray(c.get_offsets(), float).tolist()
                continue
            arr = c.get_array()
            for k, p in enumerate(c.get_paths()):
                self.cells.append((p.vertices, None if arr is None else float(arr[k])))
        for p in ax.patches:
            self.cells.append((p.get_path().transformed(p.get_patch_transform()).vertices, None))
        self.labels = [(t.get_text(), *map(float, t.get_position())) for t in ax.texts]
        self.title, self.aspect = ax.get_title(), ax.get_aspect()
        self.others = len(ax.figure.axes) - 1


def check_frame(ctx, what, D, P, win, box, title, tol):
    import shapely
    got = sorted(D.points)
    ctx.check(len(got) == len(P) and np.allclose(got, sorted(P.tolist()), rtol=0, atol=tol), lambda: "%s: points drawn %r, given %r" % (what, got, P.tolist()))
    want = rings(win if win is not None else shapely.box(*box))
    left = list(D.outlines)
    for r in want:
        k = next((k for k, o in enumerate(left) if same_ring(o, r, tol)), None)
        ctx.check(k is not None, lambda: "%s: the ring %s of the window is not drawn; outlines %r" % (what, r.tolist(), [o.tolist() for o in D.outlines]))
        left.pop(k)
    ctx.check(not left, lambda: "%s: an outline %r is no ring of the window" % (what, left))
    ctx.check(D.title == title, lambda: "%s: title %r, asked for %r" % (what, D.title, title))
    ctx.check(D.aspect in (1.0, "equal"), lambda: "%s: aspect %r" % (what, D.aspect))


def check_cells(ctx, what, D, grid, box, tol):
    """-> centres; every cell has the shape of the grid and sits on it"""
    cen = []
    for v, _ in D.cells:
        v = v[:-1] if np.allclose(v[0], v[-1], rtol=0, atol=tol) else v
        c = (v.min(axis=0) + v.max(axis=0)) / 2
        if grid["kind"] == "rect":
            w, h = grid["w"], grid["h"]
            corners = [(c[0] + sx * w / 2, c[1] + sy * h / 2) for sx in (-1, 1) for sy in (-1, 1)]
            k = ((c - box[:2]) / [w, h] - .5)
        else:
            L, sh = grid["L"], grid["L"] * math.sqrt(3) / 2
            corners = [(c[0] + L * math.cos(a), c[1] + L * math.sin(a)) for a in np.arange(6) * math.pi / 3]
            col = round((c[0] - box[0]) / (1.5 * L))
            k = np.array([(c[0] - box[0]) / (1.5 * L), (c[1] - box[1]) / (2 * sh) - .5 * (col % 2)])
        ctx.check(len(v) == len(corners) and np.allclose(np.array(sorted(np.round(v / tol / 8).tolist())), np.array(sorted(np.round(np.array(corners) / tol / 8).tolist())),
                                                         rtol=0, atol=1e9) and
                  all(np.abs(v - q).max(axis=1).min() <= tol for q in np.array(corners)), lambda: "%s: a cell is drawn as %r, expected %r" % (what, v.tolist(), corners))
        ctx.check(np.abs(k - np.round(k)).max() < 1e-6 and np.round(k).min() >= 0, lambda: "%s: the cell at %s is off the grid anchored at %s" % (what, c.tolist(), box[:2]))
        cen.append((int(round(k[0])), int(round(k[1]))))
    ctx.check(len(set(cen)) == len(cen), lambda: "%s: cells drawn twice: %r" % (what, sorted(cen)))
    if grid["kind"] == "rect":
        ctx.check(sorted(cen) == sorted(itertools.product(range(grid["nx"]), range(grid["ny"]))), lambda: "%s: cells %r of a %d by %d grid" % (what, sorted(cen), grid["nx"], grid["ny"]))
    return cen


def inside(P, cen, grid, box, tol):
    """(strictly inside, touching) counts of the points for one cell"""
    i, j = cen
    if grid["kind"] == "rect":
        w, h = grid["w"], grid["h"]
        c = box[:2] + (np.array([i, j]) + .5) * [w, h]
        d = (np.abs(P - c) - [w / 2, h / 2]).max(axis=1)
    else:
        L, sh = grid["L"], grid["L"] * math.sqrt(3) / 2
        c = box[:2] + np.array([1.5 * L * i, (2 * j + i % 2) * sh])
        dx, dy = np.abs(P - c).T
        d = np.maximum(dy - sh, (math.sqrt(3) * dx + dy) / 2 - sh)
    return int((d < -tol).sum()), int((d <= tol).sum()), c


def labels_of(ctx, what, D, cen, P, grid, box, tol):
    """the label of each cell, which stands at its centre"""
    C = np.array([inside(P[:0], c, grid, box, tol)[2] for c in cen])
    ctx.check(len(D.labels) == len(cen), lambda: "%s: %d labels for %d cells" % (what, len(D.labels), len(cen)))
    out = [None] * len(cen)
    for t, x, y in D.labels:
        k = int(np.abs(C - [x, y]).max(axis=1).argmin())
        ctx.check(np.abs(C[k] - [x, y]).max() <= 10 * tol, lambda: "%s: the label %r at (%r, %r) is not at the centre of a cell" % (what, t, x, y))
        ctx.check(out[k] is None, lambda: "%s: two labels at %s" % (what, C[k].tolist()))
        out[k] = t
    return out


def check_counts(ctx, what, D, cen, P, grid, box, tol):
    lab = labels_of(ctx, what, D, cen, P, grid, box, tol)
    got = {}
    for c, t in zip(cen, lab):
        lo, hi, _ = inside(P, c, grid, box, tol)
        ctx.check(t.isdigit() and lo <= int(t) <= hi, lambda: "%s: the cell %s holds %d to %d points, its label is %r" % (what, c, lo, hi, t))
        got[c] = int(t)
    ctx.check(sum(got.values()) == len(P), lambda: "%s: the labels sum to %d for %d points" % (what, sum(got.values()), len(P)))
    ctx.check(all(v is None for _, v in D.cells), lambda: "%s: counts plot with colour values" % what)
    return got


def check_values(ctx, what, D, cen, vals, P, grid, box, tol):
    """vals: cell -> value"""
    lab = labels_of(ctx, what, D, cen, P, grid, box, tol)
    for c, t, (_, v) in zip(cen, lab, D.cells):
        w = vals[c]
        ctx.check(v is not None and (abs(v - w) <= 1e-9 * max(1, abs(w))), lambda: "%s: the cell %s has colour value %r, expected %r" % (what, c, v, w))
        try:
            f = float(t)
        except ValueError:
            f = math.nan
        ctx.check(abs(f - w) <= 0.0050001 * max(1.0, 1e-9 * abs(w)), lambda: "%s: the cell %s is labelled %r, expected %.2f" % (what, c, t, w))
    ctx.check(D.others == 1, lambda: "%s: %d axes besides the plot, expected a colour bar" % (what, D.others))


def refuses(ctx, what, fn, plt):
    try:
        fn()
    except ValueError:
        return
    finally:
        plt.close("all")
    ctx.fail(what + " is accepted")


def judge(case, ctx):
    import geopandas as gpd
    import matplotlib.pyplot as plt
    import pointpats as pp
    P0 = np.asarray(case["p"], float) if "p" in case else lib.structured(case["n"], case["kind"], case["r"])
    P = lib.frame(P0, case["f"])
    wide = case.get("wide")
    if wide:
        lo, ext = P.min(axis=0), np.ptp(P, axis=0)
        if ext.min() <= 0:
            return
        P = (P - lo) / ext * ([abs(wide), 2.3] if wide > 0 else [2.3, abs(wide)])
    n, r = len(P), case["r"]
    lo, ext = P.min(axis=0), np.ptp(P, axis=0)
    if ext.min() <= 0:
        return
    box = np.array([*P.min(axis=0), *P.max(axis=0)])
    tol = 1e-9 * ext.max() + 32 * np.finfo(float).eps * np.abs(P).max()
    ctx.state(P)
    grids = [dict(count_column=a, count_row=b) for a, b in ((3, 3), (1, 2), (4, 1), (2, 5))]
    grids += [dict(rectangle_width=float(ext[0] * a), rectangle_height=float(ext[1] * b)) for a, b in ((.4, .7), (.3, 1.5))]
    grids += [dict(lh=float(ext.max() * a)) for a in (.31, .5, .173, .9, 2.1)]
    if wide:
        a = abs(wide)
        grids = [dict(count_column=a, count_row=2), dict(count_column=2, count_row=a), dict(rectangle_width=1.0, rectangle_height=.9), dict(lh=1.0)]
    W = list(windows(lo, ext))
    forms = [lambda: P.copy(), lambda: pp.PointPattern(P.copy()), lambda: gpd.GeoDataFrame({"v": range(n)}, geometry=gpd.points_from_xy(*P.T), index=range(9, 9 + n))]
    E = 0
    for gi, g in enumerate(grids):
        for wi in range(len(W)) if case.get("full") and gi % 3 == 0 else ((r + gi) % len(W),):
            E += 1
            win, src = W[wi], forms[(r + gi + wi) % 3]()
            title = ("Quadrat Count", "T%d" % r)[(r + gi) % 2]
            tk = {} if title == "Quadrat Count" else dict(title=title)
            what = "%s(%s, window %d) of %s" % ("HexagonM" if "lh" in g else "RectangleM", g, wi, P.tolist()[:9])
            if "lh" in g:
                m = pp.HexagonM(src, g["lh"], window=win)
                q = pp.QStatistic(src, shape="hexagon", lh=g["lh"], window=win)
                grid = dict(kind="hex", L=g["lh"])
            else:
                m = pp.RectangleM(src, window=win, **g)
                if "count_row" in g:
                    q = pp.QStatistic(src, nx=g["count_column"], ny=g["count_row"], window=win)
                    nx, ny = g["count_column"], g["count_row"]
                else:
                    q = pp.QStatistic(src, window=win, **g)
                    nx, ny = (int(math.ceil(ext[k] / g[("rectangle_width", "rectangle_height")[k]])) for k in (0, 1))
                grid = dict(kind="rect", nx=nx, ny=ny, w=g.get("rectangle_width", ext[0] / nx), h=g.get("rectangle_height", ext[1] / ny))
            try:
                ctx.step(4)
                # counts
                ax, ids = m.plot(**tk)
                D = Drawing(ax)
                check_frame(ctx, what, D, P, win, box, title, tol)
                cen = check_cells(ctx, what, D, grid, box, tol)
                got = check_counts(ctx, what, D, cen, P, grid, box, tol)
                cells = m.point_location_sta()
                ctx.check(len(ids) == len(cen) and sorted(ids) == sorted(cells), lambda: "%s: ids %r of the plotted cells, counted %r" % (what, ids, sorted(cells)))
                ctx.check(all(cells[i] == got[c] for i, c in zip(ids, cen)), lambda: "%s: ids %r are not in the order of the cells drawn" % (what, ids))
                plt.close("all")
                # any values, in the order of the ids
                vals = [((7 * k + r) % 11) / 4 for k in range(len(ids))]
                ax, ids2 = m.plot(show="chi2", chi2_contrib=vals if E % 2 else np.array(vals), **tk)
                D = Drawing(ax)
                check_frame(ctx, what + ".plot(chi2)", D, P, win, box, title, tol)
                cen2 = check_cells(ctx, what, D, grid, box, tol)
                idc = dict(zip(ids, cen))
                check_values(ctx, what + ".plot(chi2)", D, cen2, {idc[i]: v for i, v in zip(ids2, vals)}, P, grid, box, tol)
                plt.close("all")
                # QStatistic
                ax = q.plot(**tk)
                D = Drawing(ax)
                check_frame(ctx, what + " QStatistic.plot", D, P, win, box, title, tol)
                cq = check_cells(ctx, what, D, grid, box, tol)
                gq = check_counts(ctx, what + " QStatistic.plot", D, cq, P, grid, box, tol)
                ctx.check(gq == got, lambda: "%s: QStatistic shows %r, the grid %r" % (what, gq, got))
                ctx.check(len(plt.get_fignums()) == 1, lambda: "%s: QStatistic.plot leaves %d figures" % (what, len(plt.get_fignums())))
                plt.close("all")
                e = n / len(gq)
                ax = q.plot(show="chi2", **tk)
                D = Drawing(ax)
                check_frame(ctx, what + " QStatistic.plot(chi2)", D, P, win, box, title, tol)
                cq = check_cells(ctx, what, D, grid, box, tol)
                check_values(ctx, what + " QStatistic.plot(chi2)", D, cq, {c: (o - e) ** 2 / e for c, o in gq.items()}, P, grid, box, tol)
                ctx.check(len(plt.get_fignums()) == 1, lambda: "%s: QStatistic.plot(chi2) leaves %d figures" % (what, len(plt.get_fignums())))
                plt.close("all")
                ctx.check(m.point_location_sta() == cells, lambda: "%s: plotting changes the counts" % what)
                if E == 1:
                    for bad in ("both", None, "count"):
                        refuses(ctx, "RectangleM/HexagonM.plot(show=%r)" % (bad,), lambda: m.plot(show=bad, chi2_contrib=vals), plt)
                        refuses(ctx, "QStatistic.plot(show=%r)" % (bad,), lambda: q.plot(show=bad), plt)
                if E < 3 or "lh" in g:
                    refuses(ctx, what + ".plot(show='chi2') without values", lambda: m.plot(show="chi2"), plt)
                    refuses(ctx, what + ".plot with a value too many", lambda: m.plot(show="chi2", chi2_contrib=vals + [1.0]), plt)
                    refuses(ctx, what + ".plot with a value too few", lambda: m.plot(show="chi2", chi2_contrib=vals[:-1]), plt)
            finally:
                plt.close("all")
            ctx.outcome(sorted(got.items()), g.keys())
            ctx.trace()
