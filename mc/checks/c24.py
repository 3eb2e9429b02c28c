"""C24: the surface plot_density draws against the kernel density of the points on the grid."""
import itertools
import math
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of point configurations (all subsets of a lattice, structured families) x bandwidth x resolution x margin x kernel x "
              "input form x drawing options, on the real function with the contour calls recorded, against a direct kernel sum",
    level_note="Point sets of zero width or height are excluded (no contour exists); KDEpy's surface is compared with KDEpy's own grid and, for the Gaussian "
               "kernel, loosely with the direct sum.",
    rule="a case is a point set with its options; an outcome is the surface",
    bounds=dict(quick="all 3-subsets of a 3x3 lattice with positive extent, 8 families of 5..40 points in rotating frames, 5 input forms, 6 resolutions, 4 margins, 4 bandwidths, 5 kernels",
                thorough="3- and 4-subsets in all frames"),
    assumptions=["KDEpy for named kernels", "matplotlib draws the arrays it is given"],
)
FORMS = ("array", "series", "frame", "multi", "mixed", "fortran", "int")


def cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    i = seed
    for k in (3,) if q else (3, 4):
        for c in lib.subsets(3, 3, k):
            if len({p[0] for p in c}) < 2 or len({p[1] for p in c}) < 2:
                continue
            i += 1
            for f in (fr[i % len(fr)],) if q else fr:
                yield dict(op="surface", pts=c, f=f, r=i)
    for kind in lib.KINDS:
        for n in (5, 12, 40):
            i += 1
            for f in (fr[i % len(fr)], fr[(i + 3) % len(fr)]) if q else fr:
                yield dict(op="surface", kind=kind, n=n, f=f, r=i)
                yield dict(op="kernel", kind=kind, n=n, f=f, r=i)
    for kind, n in (("uniform", 300), ("cluster", 700), ("dups", 1100)):
        i += 1
        yield dict(op="surface", kind=kind, n=n, f=fr[i % len(fr)], r=i)
        yield dict(op="kernel", kind=kind, n=n, f=fr[i % len(fr)], r=i)
    for form in FORMS:
        yield dict(op="options", form=form, r=i)
    yield dict(op="reject")
    yield dict(op="default")


def points(case):
    P = np.array(case["pts"], float) if "pts" in case else lib.structured(case["n"], case["kind"], case["r"])
    return lib.frame(P, case["f"])


def give(P, form):
    import geopandas as gpd
    import shapely
    n = len(P)
    if form == "array":
        return P.copy()
    if form == "fortran":
        return np.asfortranarray(P)
    if form == "series":
        return gpd.GeoSeries.from_xy(*P.T, index=range(5, 5 + n), crs="EPSG:3857")
    if form == "frame":
        return gpd.GeoDataFrame({"x": 9.0, "y": range(n)}, geometry=gpd.points_from_xy(*P.T), index=[str(i) for i in range(n)]).rename_geometry("spot")
    h = n // 2
    if form == "multi":
        return gpd.GeoSeries([shapely.MultiPoint(P[:h]), shapely.MultiPoint(P[h:])])
    return gpd.GeoSeries([shapely.MultiPoint(P[:h])] + [shapely.Point(p) for p in P[h:]], index=[0] * (1 + n - h))


class record:
    """record what matplotlib is asked to draw"""

    def __enter__(self):
        from matplotlib.axes import Axes
        self.calls, self.old = [], (Axes.contour, Axes.contourf)

        def wrap(fn, name):
            def inner(ax, *a, **k):
                cs = fn(ax, *a, **k)
                self.calls.append((name, ax, a, dict(k), cs))
                return cs
            return inner
        Axes.contour, Axes.contourf = wrap(self.old[0], "contour"), wrap(self.old[1], "contourf")
        return self.calls

    def __exit__(self, *a):
        from matplotlib.axes import Axes
        Axes.contour, Axes.contourf = self.old


def surface(ctx, calls, what):
    ctx.check(len(calls) == 1, lambda: "%s: %d contour calls" % (what, len(calls)))
    name, ax, a, k, cs = calls[0]
    ctx.check(len(a) >= 3, what + ": contours drawn without a grid")
    x, y, z = (np.asarray(v, float) for v in a[:3])
    if x.ndim == 2:
        ctx.check(x.shape == y.shape == z.shape, "%s: shapes %r %r %r" % (what, x.shape, y.shape, z.shape))
        ctx.check(bool((x == x[:1]).all() and (y == y[:, :1]).all()), what + ": x does not run along columns and y along rows")
        x, y = x[0], y[:, 0]
    ctx.check(z.shape == (len(y), len(x)), lambda: "%s: grid %d x %d, surface %r" % (what, len(x), len(y), z.shape))
    return x, y, z


def gauss(P, x, y, bw):
    gx = np.exp(-0.5 * ((x[:, None] - P[:, 0]) / bw) ** 2) / (bw * math.sqrt(2 * math.pi))
    gy = np.exp(-0.5 * ((y[:, None] - P[:, 1]) / bw) ** 2) / (bw * math.sqrt(2 * math.pi))
    return gy @ gx.T / len(P)


def grid(ctx, P, x, y, res, margin, what):
    nx, ny = (100, 100) if res is None else res if isinstance(res, tuple) else (res, res)
    ctx.check((len(x), len(y)) == (nx, ny), lambda: "%s: grid of %d x %d nodes" % (what, len(x), len(y)))
    for v, c, m in ((x, P[:, 0], nx), (y, P[:, 1], ny)):
        w = c.max() - c.min()
        ctx.close(v, np.linspace(c.min() - margin * w, c.max() + margin * w, m), what + ": grid nodes", rtol=1e-12, atol=1e-9 * w)


def judge(case, ctx):
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    from pointpats import plot_density
    op = case["op"]
    try:
        if op == "surface":
            P, r = points(case), case["r"]
            ext = float((P.max(0) - P.min(0)).max())
            for j in range(3):
                res = (7, (5, 9), (12, 4), 6, (3, 3), (2, 11))[(r + j) % 6]
                margin = (0.1, 0.0, 0.35, 1.0)[(r + 2 * j) % 4]
                bw = ext * (0.3, 0.11, 0.9, 2.5)[(r // 4 + j) % 4]
                form = ("array", "series", "frame", "multi", "mixed", "fortran")[(r + 5 * j) % 6]
                fill = bool((r + j) % 2)
                what = "%d points in frame %s (%s), bandwidth=%r, resolution=%r, margin=%r" % (len(P), case["f"], form, bw, res, margin)
                with record() as calls:
                    ax = plot_density(give(P, form), bw, resolution=res, margin=margin, fill=fill)
                x, y, z = surface(ctx, calls, what)
                grid(ctx, P, x, y, res, margin, what)
                w = gauss(P, x, y, bw)
                ctx.close(z, w, what + ": surface", rtol=1e-8, atol=1e-10 * w.max())
                ctx.check(calls[0][0] == ("contourf" if fill else "contour"), "%s fill=%r: drawn with %s" % (what, fill, calls[0][0]))
                ctx.check(ax is calls[0][1], what + ": other axes returned")
                ctx.state(P, res, margin, bw, form)
                ctx.outcome(z / w.max())
                ctx.step()
                plt.close("all")
        elif op == "kernel":
            from KDEpy import FFTKDE
            P, r = points(case), case["r"]
            ext = float((P.max(0) - P.min(0)).max())
            for j in range(3):
                kernel = ("gaussian", "epa", "tri", "cosine", "box")[(r + j) % 5]
                res = (16, (11, 9), (8, 15), (12, 12), None)[(r // 5 + j) % 5]
                bw = ext * (0.3, 0.15, 0.6)[(r + j) % 3]
                form = ("array", "series", "frame", "multi", "mixed")[(r + 2 * j) % 5]
                what = "%d points in frame %s (%s), kernel %s, bandwidth=%r, resolution=%r" % (len(P), case["f"], form, kernel, bw, res)
                try:
                    FFTKDE(bw=bw, kernel=kernel).fit(P.copy()).evaluate(res)
                except ValueError:      # documented: KDEpy cannot resolve every bandwidth with every kernel
                    ctx.note("beyond KDEpy")
                    continue
                with record() as calls:
                    ax = plot_density(give(P, form), bw, kernel=kernel, resolution=res, fill=bool(r % 2))
                x, y, z = surface(ctx, calls, what)
                # without a resolution KDEpy chooses the grid
                nx, ny = (len(x), len(y)) if res is None else res if isinstance(res, tuple) else (res, res)
                ctx.check((len(x), len(y)) == (nx, ny), lambda: "%s: grid of %d x %d nodes" % (what, len(x), len(y)))
                g, v = FFTKDE(bw=bw, kernel=kernel).fit(P.copy()).evaluate((nx, ny))
                g, v = np.asarray(g).reshape(nx, ny, 2), np.asarray(v).reshape(nx, ny)
                ctx.close(x, g[:, 0, 0], what + ": x nodes", rtol=1e-12, atol=1e-9 * ext)
                ctx.close(y, g[0, :, 1], what + ": y nodes", rtol=1e-12, atol=1e-9 * ext)
                ctx.close(z, v.T, what + ": surface", rtol=1e-8, atol=1e-10 * v.max())
                if kernel == "gaussian" and case["f"] in ("id", "small", "neg") and min(nx, ny) >= 11 and max(x[1] - x[0], y[1] - y[0]) < bw / 2:
                    w = gauss(P, x, y, bw)
                    ctx.check(np.abs(z - w).max() <= 0.4 * w.max(), lambda: "%s: surface is %r off the direct sum, maximum %r" % (what, np.abs(z - w).max(), w.max()))
                    ctx.note("gaussian FFT surfaces compared with the direct sum")
                ctx.state(P, res, kernel, bw, form)
                ctx.outcome(z / v.max())
                ctx.step()
                plt.close("all")
        elif op == "options":
            P = lib.structured(9, "grid" if case["form"] == "int" else "uniform")
            P = np.column_stack([P[:, 0], P[:, 1] * 3])
            data = P.astype(int) if case["form"] == "int" else give(P, case["form"])
            for fill, ret, own, kernel, lev in itertools.product((False, True), (False, True), (False, True), (None, "gaussian"), (10, 4, (0.001, 0.004, 0.01))):
                fig, mine = plt.subplots()
                plt.subplots()                      # another current figure
                kw = dict(alpha=0.5, cmap="magma")
                before = set(plt.get_fignums())
                with record() as calls:
                    out = plot_density(data, 0.9, kernel=kernel, resolution=12, levels=lev, fill=fill, ax=mine if own else None, figsize=(3, 7),
                                       return_contourset=ret, **kw)
                what = "plot_density(fill=%r, return_contourset=%r, ax %s, kernel=%r, levels=%r)" % (fill, ret, "given" if own else "not given", kernel, lev)
                name, ax, a, k, cs = calls[0]
                x, y, z = surface(ctx, calls, what)
                ctx.check(name == ("contourf" if fill else "contour"), what + ": drawn with " + name)
                if ret:
                    ctx.check(isinstance(out, tuple) and len(out) == 2 and out[0] is ax and out[1] is cs, what + ": does not return (axes, contour set)")
                else:
                    ctx.check(out is ax, what + ": returns %r" % (out,))
                if own:
                    ctx.check(ax is mine and set(plt.get_fignums()) == before, what + ": does not draw on the axes given")
                else:
                    ctx.check(ax is not mine and ax.figure.number not in before, what + ": no new figure")
                    ctx.check(tuple(ax.figure.get_size_inches()) == (3, 7), what + ": figure size")
                ctx.check(ax.get_aspect() in (1.0, "equal"), what + ": aspect %r" % (ax.get_aspect(),))
                got = k.get("levels", a[3] if len(a) > 3 else None)
                ctx.check(np.array_equal(got, lev), what + ": levels %r" % (got,))
                ctx.check(all(k.get(o) == v for o, v in kw.items()), what + ": style %r" % (k,))
                if kernel is None:
                    grid(ctx, P, x, y, 12, 0.1, what)
                    ctx.close(z, gauss(P, x, y, 0.9), what + ": surface", rtol=1e-8, atol=1e-12)
                ctx.state(case["form"], fill, ret, own, kernel, lev)
                ctx.step()
                plt.close("all")
            ctx.outcome(case["form"])
        elif op == "default":
            P = lib.structured(4, "uniform")
            for kernel, kw in ((None, {}), (None, dict(resolution=None)), ("gaussian", {}), (None, dict(resolution=(100, 20)))):
                with record() as calls:
                    plot_density(P, 2.0, kernel=kernel, **kw)
                x, y, z = surface(ctx, calls, "defaults")
                if kernel is None:
                    grid(ctx, P, x, y, kw.get("resolution", None), 0.1, "defaults")
                    ctx.close(z, gauss(P, x, y, 2.0), "surface", rtol=1e-8, atol=1e-12)
                else:
                    ctx.check(z.shape == (100, 100), "default resolution %r" % (z.shape,))
                ctx.check(calls[0][0] == "contour" and np.array_equal(calls[0][3].get("levels", (list(calls[0][2]) + [None])[3] if len(calls[0][2]) > 3 else None), 10), "default drawing")
                ctx.state(kernel, str(kw))
                ctx.step()
                plt.close("all")
        else:
            import geopandas as gpd
            import shapely
            pts = [shapely.Point(p) for p in lib.structured(5, "uniform")]
            for bad in (shapely.LineString([(0, 0), (3, 4)]), shapely.Point(1, 1).buffer(1), shapely.LinearRing([(0, 0), (1, 1), (1, 0)]),
                        shapely.MultiLineString([[(0, 0), (1, 1)]])):
                for pos in (0, 2, 5):
                    for kernel in (None, "gaussian"):
                        g = gpd.GeoSeries(pts[:pos] + [bad] + pts[pos:])
                        for data in (g, gpd.GeoDataFrame(geometry=g)):
                            try:
                                plot_density(data, 1.0, kernel=kernel, resolution=8)
                            except ValueError:
                                ctx.step()
                            else:
                                ctx.fail("plot_density accepts a %s" % bad.geom_type)
                            finally:
                                plt.close("all")
                ctx.state(bad.geom_type)
    finally:
        plt.close("all")
    ctx.trace()
