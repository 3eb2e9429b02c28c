"""C25: what the plots and maps of point patterns and local Knox hotspots show against what was computed."""
import ast
import itertools
import re
import numpy as np
import lib
import tape

META = dict(
    technique="exhaustive enumeration of event configurations (multisets on a space-time lattice, shapes), identifiers, every distinct significance level "
              "x inference x edges x colours, and of small point patterns x plot flags x windows, on the real drawings (matplotlib artists, folium layers)",
    level_note="Artists and map layers are read back from the axes and the map that the call returns, whatever calls made them.",
    rule="a case is a configuration of events with all levels, or a point pattern with all flags",
    bounds=dict(quick="one in 24 of the 1365 multisets of 4 events on 4x3 (position, time), 5 shapes of 5..7 events, 4 families of 12 events, 2 crowds of 13 and 24; patterns of up to 6000 points; every 4th 1- to "
                      "5-subset of the 3x3 lattice", thorough="every 3rd multiset, more shapes and families; all subsets and multisets"),
    assumptions=["matplotlib and folium draw what their artists and layers hold"],
)
COLORS = (None, dict(focal="#112233", neighbor="blue", nonsig="#eeddcc"), dict(focal="green", neighbor="orange", nonsig="purple"),
          dict(focal="red", neighbor="#777777", nonsig="#777777"), dict(focal="blue", neighbor="blue", nonsig="blue"))
SHAPES = ("path", "star", "two", "cross", "late")


def cases(tier, seed):
    q = tier == "quick"
    ev = [(x, t) for x in range(4) for t in (0, 1, 3)]
    C = list(itertools.combinations_with_replacement(ev, 4))
    step = 24 if q else 3
    k = seed
    for i, c in enumerate(C):
        if (i + seed) % step == 0:
            k += 1
            yield dict(op="knox", ev=[[x, 0.5 * (j % 2), t] for j, (x, t) in enumerate(c)], d=1.2, u=1.0, r=k)
    for n in (5, 6, 7) if q else range(4, 12):
        for sh in SHAPES:
            k += 1
            yield dict(op="knox", shape=sh, n=n, d=1.05, u=1.0, r=k)
    for n in (13, 24) if q else (13, 16, 24, 40):
        k += 1
        yield dict(op="knox", shape="crowd", n=n, d=9.0, u=1.0, r=k, full=True)
    for n in (300, 1500, 6000):
        yield dict(op="many", n=n, r=seed)
    for kind in lib.KINDS[::2] if q else lib.KINDS:
        for n in (12,) if q else (12, 25):
            k += 1
            yield dict(op="knox", family=kind, n=n, r=k)
    i = seed
    fr = list(lib.FRAMES)
    for m in (1, 2, 3, 4, 5):
        for mk in (itertools.combinations, itertools.combinations_with_replacement):
            for p in mk(lib.lattice(3), m):
                i += 1
                if (i % (4 if mk is itertools.combinations else 29) if q else i % 3 if m == 5 else 0):
                    continue
                yield dict(op="pattern", p=p, f=("id", fr[i % len(fr)])[i % 2], r=i, some=q and i % 6 != 0)


# ------------------------------------------------------------------ reading drawings
def rgba(c):
    from matplotlib.colors import to_rgba
    return tuple(round(x, 6) for x in to_rgba(c))


def point_artists(ax):
    """[(x, y, face colour, collection)] of the markers in the axes"""
    from matplotlib.collections import PathCollection
    out = []
    for c in ax.collections:
        if isinstance(c, PathCollection):
            o, fc = np.asarray(c.get_offsets(), float), c.get_facecolor()
            for k, p in enumerate(o):
                out.append((*p.tolist(), rgba(fc[k % len(fc)]), c))
    return out


def segments(ax):
    from matplotlib.collections import LineCollection
    out = []
    for c in ax.collections:
        if isinstance(c, LineCollection):
            col = c.get_color()
            for k, s in enumerate(c.get_segments()):
                if len(s):
                    out.append((np.asarray(s, float), rgba(col[k % len(col)]), c))
    for l in ax.lines:
        s = np.column_stack([l.get_xdata(), l.get_ydata()]).astype(float)
        if len(s):
            out.append((s, rgba(l.get_color()), l))
    return out


def layers(m):
    """-> [(type, coordinates, colour, style, layer, attributes)] of every feature of a folium map"""
    import folium
    out = []

    def walk(e):
        for c in e._children.values():
            if isinstance(c, folium.GeoJson):
                for f in c.data["features"]:
                    st = c.style_function(f)
                    out.append((f["geometry"]["type"], np.asarray(f["geometry"]["coordinates"], float), st.get("color"), st, c, f.get("properties") or {}))
            elif not isinstance(c, folium.TileLayer):
                walk(c)
    walk(m)
    return out


# ------------------------------------------------------------------ local Knox
def events(case):
    n = case.get("n", 0)
    j = np.arange(n)
    if "ev" in case:
        e = np.array(case["ev"], float)
        return e[:, :2], e[:, 2], case["d"], case["u"]
    if "shape" in case:
        S, T = {"path": (np.column_stack([j, 0 * j]), j % 3), "star": (np.column_stack([np.where(j, np.cos(j * 2.1), 0), np.where(j, np.sin(j * 2.1), 0)]),
                                                                      np.where(j, 2 * (j % 2), 1)),
                "two": (np.column_stack([j % 3, (j >= n // 2) * 10]), j % 2), "cross": (np.column_stack([([0, 4, 1, 5, 2, 3, 9, 12, 13, 14, 20, 21] + [*range(30, 99)])[:n], 0 * j]), 0 * j),
                "crowd": (np.column_stack([j * .05, j % 3 * .1]), j % 2), "late": (np.column_stack([j, j % 2 * .1]), np.where(j < n - 2, j % 2, 40))}[case["shape"]]
        return S.astype(float), T.astype(float), case["d"], case["u"]
    S = lib.structured(n, case["family"], case["r"])
    T = np.floor(np.arange(n) * 7.3 % (n / 3.0))
    return S, T, lib.gap(lib.dist_matrix(S), .25), 1.0


def judge_knox(case, ctx):
    import geopandas as gpd
    import matplotlib.pyplot as plt
    import pandas as pd
    from pointpats import KnoxLocal
    S, T, d, u = events(case)
    n, r = len(S), case["r"]
    ids = (None, ["e%02d" % ((5 * k + 3) % 97) for k in range(n)], [(3 * k + 1) % 101 + 7 for k in range(n)])[r % 3]
    if ids is not None and r % 5 < 2:       # with a name
        ids = pd.Index(ids, name=("fid", "time")[r % 2]) if r % 5 else pd.Series(ids, name="key", index=range(5, 5 + n))
    crs = (None, 3857)[(r // 3) % 2]
    P = (0, 3)[r % 2]
    with tape.legacy([], seed=r):
        if r % 4 == 3:
            g = gpd.GeoDataFrame({"t": T}, geometry=gpd.points_from_xy(*S.T), crs=crs, index=ids)
            k = KnoxLocal.from_dataframe(g, "t", d, u, permutations=P)
        else:
            k = KnoxLocal(S, T.reshape(-1, 1), d, u, permutations=P, ids=ids, crs=crs)
    A = (lib.dist_matrix(S) <= d) & (np.abs(T[:, None] - T[None, :]) <= u) & ~np.eye(n, dtype=bool)
    e = 0
    ctx.state(S, T)
    for inf in ("permutation", "analytic"):
        p = np.asarray(k.p_sims if inf == "permutation" and P else k.p_hypergeom, float)
        lv = sorted(set(p.tolist()))
        for crit in [0.0] + lv[:3] + lv[3::3] + [1.0]:
            sig = p <= crit
            cls = ["focal" if sig[i] else "neighbor" if (A[i] & sig).any() else "nonsig" for i in range(n)]
            pairs = sorted((i, j) for i, j in np.argwhere(A) if i < j and (sig[i] or sig[j]))
            e += 1
            for how in ("plot", "explore") if (e + r) % 3 == 0 or case.get("full") else ("plot",):
                colors = COLORS[(r + e) % 5]
                edge = ("black", "#00ff77")[(r + e) % 2]
                edges = (r + e) % 5 != 0
                kw = dict(crit=crit, inference=inf, plot_edges=edges)
                if colors:
                    kw["colors"] = dict(colors)
                if edge != "black":
                    kw["edge_color"] = edge
                ctx.step()
                what = "%s(%s) of events %s at times %s" % (how, kw, S.tolist(), T.tolist())
                want = {c: (colors or dict(focal="red", neighbor="yellow", nonsig="grey"))[c] for c in ("focal", "neighbor", "nonsig")}
                if how == "plot":
                    check_plot(ctx, k, kw, what, S, cls, want, pairs if edges else [], edge, plt, e)
                else:
                    check_map(ctx, k, kw, what, S, cls, want, pairs if edges else [], edge, crs, T, p, A, list(range(n) if ids is None else ids))
                ctx.check(kw.get("colors") in (None, colors), "%s changes the colours it is given" % what)
                ctx.outcome(sig, cls, how)
                ctx.trace()
    for bad in ("both", "", None):
        for f in (k.plot, k.explore, k.hotspots):
            try:
                f(inference=bad)
            except ValueError:
                continue
            finally:
                plt.close("all")
            ctx.fail("%s accepts inference=%r" % (f.__name__, bad))


def matched(ctx, what, got, want, tol, label):
    """got and want as multisets of (coordinates, label)"""
    got, want = list(got), list(want)
    ctx.check(len(got) == len(want), lambda: "%s: %d %s are shown, expected %d: %r" % (what, len(got), label, len(want), got))
    left = list(range(len(got)))
    for c, l in want:
        k = next((k for k in left if got[k][1] == l and np.allclose(got[k][0], c, rtol=0, atol=tol)), None)
        ctx.check(k is not None, lambda: "%s: no %s at %s shown as %s; shown %r" % (what, label, np.asarray(c).tolist(), l, got))
        left.remove(k)


def check_plot(ctx, k, kw, what, S, cls, want, pairs, edge, plt, e):
    kw = dict(kw)
    given = None
    if e % 2:
        fig, given = plt.subplots()
        kw["ax"] = given
        plt.figure()
    if e % 3 == 0:
        kw["point_kwargs"] = dict(markersize=17.0)
        kw["edge_kwargs"] = dict(linewidth=3.5)
    try:
        ax = k.plot(**kw)
        ctx.check(given is None or ax is given, lambda: what + ": not drawn in the axes given")
        tol = 1e-9 * max(1, np.abs(S).max())
        pts = point_artists(ax)
        matched(ctx, what, [((x, y), c) for x, y, c, _ in pts], [(S[i], rgba(want[cls[i]])) for i in range(len(S))], tol, "events")
        segs = segments(ax)
        for s, c, _ in segs:
            ctx.check(c == rgba(edge), lambda: "%s: an edge is drawn in %r" % (what, c))
        check_edges(ctx, what, [s for s, _, _ in segs], S, pairs, tol)
        if "point_kwargs" in kw:
            for *_, c in pts:
                ctx.check(set(np.asarray(c.get_sizes()).tolist()) == {17.0}, lambda: "%s: marker sizes %r, asked for 17" % (what, c.get_sizes()))
            for _, _, c in segs:
                ctx.check(set(np.atleast_1d(c.get_linewidth()).tolist()) == {3.5}, lambda: "%s: line widths %r, asked for 3.5" % (what, c.get_linewidth()))
    finally:
        plt.close("all")


def check_edges(ctx, what, segs, S, pairs, tol):
    """every pair is joined, and nothing else; coincident events have edges of no length"""
    def has(a, b, s):
        return len(s) == 2 and (np.allclose(s, [a, b], rtol=0, atol=tol) or np.allclose(s, [b, a], rtol=0, atol=tol))
    for i, j in pairs:
        ctx.check(any(has(S[i], S[j], s) for s in segs), lambda: "%s: no edge between the space-time neighbours %s and %s; edges %s"
                  % (what, S[i].tolist(), S[j].tolist(), [s.tolist() for s in segs]))
    for s in segs:
        ctx.check(any(has(S[i], S[j], s) for i, j in pairs), lambda: "%s: edge %s joins no pair of space-time neighbours with a significant one; the pairs "
                  "are %s" % (what, s.tolist(), [(S[i].tolist(), S[j].tolist()) for i, j in pairs]))


def check_attributes(ctx, what, pts, W, T, p, A, ids, tol):
    """what the map tells of an event is true of it: identifier, time, p-value, neighbours"""
    at = {v: i for i, v in enumerate(ids)}
    for _, c, _, _, _, a in pts:
        i = at.get(a.get("index"))
        if i is None:
            continue
        ctx.check(np.abs(c - W[i]).max() <= tol, lambda: "%s: the event named %r is drawn at %s, it is at %s" % (what, ids[i], c, W[i]))
        for key, v in (("time", T[i]), ("pvalue", p[i])):
            if key in a:
                ctx.check(abs(a[key] - v) <= 1e-9, lambda: "%s: event %r is shown with %s %r, has %r" % (what, ids[i], key, a[key], v))
        if "neighbor" in a:
            nb = a["neighbor"]
            if isinstance(nb, str):
                try:
                    nb = ast.literal_eval(re.sub(r"np\.\w+\(([^)]*)\)", r"\1", nb))
                except (ValueError, SyntaxError):
                    continue
            ctx.check(sorted(nb or [], key=str) == sorted((ids[j] for j in np.flatnonzero(A[i])), key=str),
                      lambda: "%s: event %r is shown with the neighbours %r, has %r" % (what, ids[i], nb, [ids[j] for j in np.flatnonzero(A[i])]))
        ctx.step()


def check_map(ctx, k, kw, what, S, cls, want, pairs, edge, crs, T, p, A, ids):
    import geopandas as gpd
    kw = dict(kw)
    style = None
    if len(pairs) % 2:
        kw["radius"] = 9
        kw["edge_weight"] = 4
    elif len(pairs) % 3 == 2:
        style = kw["style_kwds"] = dict(radius=3, fillOpacity=0.25)
    m = k.explore(tiles=None, **kw) if len(pairs) % 4 else k.explore(**kw)
    W = S
    if crs is not None:
        W = gpd.GeoSeries(gpd.points_from_xy(*S.T), crs=crs).to_crs(4326)
        W = np.column_stack([W.x, W.y])
    tol = 1e-9 * max(1e-5, np.ptp(W))
    L = layers(m)
    pts = [f for f in L if f[0] == "Point"]
    matched(ctx, what, [(c, col) for _, c, col, *_ in pts], [(W[i], want[cls[i]]) for i in range(len(S))], tol, "events")
    check_attributes(ctx, what, pts, W, T, p, A, ids, tol)
    lines = [f for f in L if f[0] != "Point"]
    for t, c, col, st, *_ in lines:
        ctx.check(col == edge and t == "LineString", lambda: "%s: an edge %s is drawn in %r" % (what, t, col))
        if "edge_weight" in kw:
            ctx.check(st.get("weight") == 4, lambda: "%s: edge weight %r, asked for 4" % (what, st.get("weight")))
    for _, _, _, st, l, _ in pts:
        radius = st.get("radius", l.marker.options.get("radius"))
        ctx.check(radius == (9 if "radius" in kw else 3 if style else 5), lambda: "%s: marker radius %r" % (what, radius))
        if style:
            ctx.check(st.get("fillOpacity") == 0.25, lambda: "%s: style %r, asked for %r" % (what, st, style))
    check_edges(ctx, what, [c for _, c, *_ in lines], W, pairs, tol)


# ------------------------------------------------------------------ point patterns
def judge_pattern(case, ctx):
    import matplotlib.pyplot as plt
    import pointpats as pp
    P = lib.frame(case["p"], case["f"])
    n, r = len(P), case["r"]
    flat = lib.collinear(P)
    e = np.ptp(P, 0) + lib.FRAMES[case["f"]][0]
    lo, hi = P.min(0) - .1 * e, P.max(0) + .1 * e
    rect = lambda a, b: [(a[0], a[1]), (a[0], b[1]), (b[0], b[1]), (b[0], a[1]), (a[0], a[1])]  # noqa: E731
    wins = {"box": [rect(lo, hi)], "two": [rect(lo, hi), rect(hi + e, hi + 2 * e)], "tri": [[tuple(lo), (lo[0], hi[1] + 2 * e[1]), (hi[0] + 2 * e[0], lo[1]), tuple(lo)]]}
    names, rows, xy = None, P, None
    if r % 3 == 1:          # attributes before the coordinates, and a second pair of columns
        rows = np.column_stack([np.arange(n) * 3.0, P[:, 1] + 1, P[:, 0], P[:, 1]])
        names, xy = ["a", "b", "east", "north"], ["east", "north"]
    ctx.state(P, r % 3)
    tol = 1e-9 * max(e) + 1e-15 * np.abs(P).max()
    for wname in (None, *wins):
        q = pp.PointPattern(rows, names=names, coord_names=xy, window=None if wname is None else pp.Window(wins[wname])) if names else \
            pp.PointPattern(P, window=None if wname is None else pp.Window(wins[wname]))
        if r % 2:
            q.add_marks([list(range(n))], ["m"])
        parts = [np.array(w) for w in wins[wname]] if wname else [np.array(rect(P.min(0), P.max(0)))]
        if wname is None and (np.ptp(P, 0) == 0).any():
            continue
        for j, (window, hull, get_ax, title) in enumerate(itertools.product((False, True), (False, True), (False, True), (None, "T %d" % r))):
            if case.get("some") and (j ^ j >> 1 ^ j >> 2 ^ j >> 3 ^ r) & 1:      # half of them: all pairs of flags
                continue
            if hull and flat:
                continue
            kw = dict(window=window, hull=hull, get_ax=get_ax)
            if title:
                kw["title"] = title
            what = "plot(%s) of %s, window %s" % (kw, P.tolist(), wname)
            plt.close("all")
            other, ax0 = plt.subplots()
            ax0.plot([0, 1], [0, 1])
            ax = q.plot(**kw)
            ctx.step()
            if not get_ax:
                ctx.check(ax is None, lambda: "%s returns %r" % (what, ax))
                ax = plt.gca()
            ctx.check(ax is not ax0 and len(ax0.lines) == 1 and not ax0.collections, lambda: what + " draws in a figure made before")
            ctx.check(ax.get_title() == (title or "Point Pattern"), lambda: "%s: title %r" % (what, ax.get_title()))
            asp = ax.get_aspect()
            ctx.check(asp == "equal" or asp == 1, lambda: "%s: aspect %r" % (what, asp))
            pts, shapes = [], []
            for l in ax.lines:
                s = np.column_stack([l.get_xdata(), l.get_ydata()]).astype(float)
                if l.get_marker() not in ("", "None", None) and l.get_linestyle() in ("None", "", " "):
                    pts += [(p, "") for p in s]
                else:
                    shapes.append(s)
            pts += [((x, y), "") for x, y, *_ in point_artists(ax)]
            matched(ctx, what, pts, [(p, "") for p in P], tol, "points")
            for c in ax.collections:
                if type(c).__name__ != "PathCollection":
                    ctx.check(not len(c.get_facecolor()) or c.get_facecolor()[:, 3].max() < .9, lambda: what + ": the outline hides the points")
                    for path in c.get_paths():
                        for poly in path.to_polygons(closed_only=True):
                            shapes.append(np.asarray(poly))
            for p in ax.patches:
                shapes.append(np.asarray(p.get_path().vertices))
            want = (parts if window else []) + ([np.array(lib.hull_ccw(P))] if hull else [])
            got = [canon(s, tol) for s in shapes]
            ctx.check(len(got) == len(want), lambda: "%s: %d outlines, expected %d" % (what, len(got), len(want)))
            for k, w in enumerate(want):
                isnt_hull = not hull or k < len(want) - 1
                v = canon(w, tol)
                ctx.check(any(len(v) == len(g) and np.allclose(v, g, rtol=0, atol=10 * tol) for g in got) if isnt_hull or case["f"] in ("id", "proj", "big") else
                          any(np.allclose(spread(v, P), spread(g, P), rtol=0, atol=1e-6 * max(e)) for g in got),
                          lambda: "%s: outline %s is not drawn, only %s" % (what, w.tolist(), [s.tolist() for s in shapes]))
            ctx.trace()
        # drawn with the axes exchanged after flip_coordinates, and as before after a second one; the pattern itself stays as it was
        before = (q.df.copy(), list(q.coord_names), np.asarray(q.mbb, float), q.window.area)
        for k in (1, 2, 3):
            q.flip_coordinates()
            plt.close("all")
            ax = q.plot(get_ax=True)
            pts = [(p, "") for l in ax.lines for p in np.column_stack([l.get_xdata(), l.get_ydata()]).astype(float)] + [((x, y), "") for x, y, *_ in point_artists(ax)]
            matched(ctx, "plot after %d flips of %s" % (k, P.tolist()), pts, [(p[::-1] if k % 2 else p, "") for p in P], tol, "points")
            ctx.check(q.df.equals(before[0]) and list(q.coord_names) == before[1] and np.array_equal(np.asarray(q.mbb, float), before[2])
                      and q.window.area == before[3] and np.array_equal(np.asarray(q.points, float), P), lambda: "flip_coordinates changed the pattern %s" % P.tolist())
            ctx.step()
    plt.close("all")
    ctx.outcome(n, flat)


def judge_many(case, ctx):
    """every point of a large pattern is drawn"""
    import matplotlib.pyplot as plt
    import pointpats as pp
    P = lib.structured(case["n"], "uniform", case["r"]) + np.arange(case["n"])[:, None] * 1e-9
    q = pp.PointPattern(P)
    for window, flip in itertools.product((False, True), (False, True)):
        if flip:
            q.flip_coordinates()
        plt.close("all")
        ax = q.plot(window=window, get_ax=True)
        pts = [np.column_stack([l.get_xdata(), l.get_ydata()]).astype(float) for l in ax.lines if l.get_marker() not in ("", "None", None)]
        pts = np.vstack(pts + [np.array([(x, y) for x, y, *_ in point_artists(ax)]).reshape(-1, 2)])
        want = P[:, ::-1] if flip else P
        ctx.state(case["n"], window, flip)
        ctx.check(pts.shape == want.shape and np.allclose(pts[np.lexsort(pts.T)], want[np.lexsort(want.T)]),
                  lambda: "plot of %d points (window=%r, flipped: %r): %d points are drawn, or elsewhere" % (case["n"], window, flip, len(pts)))
        ctx.step()
        if flip:
            q.flip_coordinates()
    plt.close("all")
    ctx.outcome(case["n"])


def spread(v, P):
    t = np.arange(24) * np.pi / 12
    return (np.column_stack([np.cos(t), np.sin(t)]) @ (np.asarray(v, float) - P.mean(0)).T).max(1)


def canon(v, tol):
    """ring from its smallest vertex, counterclockwise, not closed"""
    v = np.asarray(v, float)
    while len(v) > 1 and np.allclose(v[0], v[-1], rtol=0, atol=tol):
        v = v[:-1]
    c = v - v[0]
    x, y = c.T
    if (x * np.roll(y, -1) - np.roll(x, -1) * y).sum() < 0:
        v = v[::-1]
    k = int(np.lexsort((v[:, 1], v[:, 0]))[0])
    return np.vstack([v[k:], v[:k]])


def judge(case, ctx):
    dict(knox=judge_knox, many=judge_many).get(case["op"], judge_pattern)(case, ctx)


def warmup():
    import folium, matplotlib.pyplot  # noqa: F401
