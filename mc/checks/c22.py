"""C22: calls leave their inputs, each other and the global random state alone."""
import atexit
import os
import pickle
import shutil
import tempfile
import numpy as np
import lib

META = dict(
    technique="exhaustive exploration of call histories: every ordered pair f(a), g(b), f(a) of public calls x datasets on the "
              "real code in one process per f, inputs and results compared with those in a process of their own",
    level_note="Every ordered pair of the registered public calls occurs next to each other in some history; input objects are "
               "compared bit for bit (values, types, names, window) and results to 1e-9.",
    rule="a case is (f, dataset of f, dataset of g, block of calls g); the histories explored are f f, then g f for every g, one "
         "after the other in one process, so both orders of every pair occur; and f(a), f(b) with b written into the arrays and lists of a",
    bounds=dict(quick="one call per public function, all pairs x 3 of the 9 pairs of datasets; every other call form against that "
                      "function's first form, on one dataset",
                thorough="all pairs of all call forms x all 9 pairs of datasets, and every g repeated"),
    assumptions=["results of calls that draw without a generator argument are compared in their deterministic parts only"],
)

N = 9
_dir = []


# ------------------------------------------------------------------ datasets
def points(ds):
    if ds == 0:
        return lib.generic(N, 3) * [10.0, 6.0]
    if ds == 1:
        return lib.generic(N, 50) * [250.0, 400.0] + [5120.0, 4180.0]
    p = np.array([(0, 0), (4, 1), (4, 1), (2, 5), (7, 3), (1, 1), (6, 6), (2, 5), (3, 3)], float)
    if N > 9:
        k = np.arange(N)
        return np.column_stack([k * 7 % 11, k * k % 13]).astype(float)
    return p


def build(ds):
    """fresh inputs of every kind"""
    import geopandas as gpd
    import pandas as pd
    import shapely
    import libpysal as ps
    from scipy.spatial import ConvexHull
    from scipy.spatial import KDTree as SKD
    from sklearn.neighbors import KDTree
    import pointpats
    P = points(ds)
    lo, hi = P.min(0), P.max(0)
    D = lib.dist_matrix(P)
    ext = float((hi - lo).max())
    t = np.round(lib.generic(N, 20 + ds, 1) * 10, 1 if ds < 2 else 0)
    if ds == 1:
        t = t + 738000.0                        # days since year one
    i = dict(P=P, F=np.asfortranarray(P), L=P.tolist(), T=[tuple(p) for p in P.tolist()], I=np.round(P).astype(int))
    i["gs"] = gpd.GeoSeries(gpd.points_from_xy(*P.T), index=[f"r{k}" for k in range(N)], crs="EPSG:3857")
    i["gdf"] = gpd.GeoDataFrame({"v": range(N), "time": t.ravel()}, geometry=gpd.points_from_xy(*P.T), index=range(40, 40 - N, -1),
                                crs="EPSG:3857").rename_geometry("where")
    i["box"] = np.array([lo[0] - 1, lo[1] - 2, hi[0] + 1, hi[1] + 1])
    i["boxl"] = i["box"].tolist()
    c = (lo + hi) / 2
    i["poly"] = shapely.Polygon([(lo[0] - ext, lo[1] - ext), (hi[0] + ext, lo[1] - ext), (c[0], hi[1] + ext)],
                                [[(c[0], c[1]), (c[0] + .01 * ext, c[1]), (c[0], c[1] + .01 * ext)]])
    i["mpoly"] = shapely.MultiPolygon([shapely.box(*lo, *hi), shapely.box(hi[0] + 1, lo[1], hi[0] + 3, hi[1])])
    i["chull"] = ConvexHull(P)
    i["tree"] = KDTree(P)
    i["skd"] = SKD(P)
    i["w"] = np.arange(1.0, N + 1)
    i["wi"] = list(range(N, 0, -1))
    i["ws"] = pd.Series(np.arange(2.0, N + 2), index=range(N, 0, -1))
    i["t"] = t
    i["ti"] = np.floor(t).astype(int)
    i["tj"], i["tj3"] = (np.arange(1.0, N + 1)[:, None] ** e % 11 + np.arange(1.0, N + 1)[:, None] / 100 for e in (2, 3))
    i["sup"] = np.array([lib.gap(D, q) for q in (0.05, 0.3, 0.5, 0.8)])
    i["supl"] = i["sup"].tolist()
    i["supt"] = (0.0, float(i["sup"][-1]), 6)
    i["D"] = D
    i["d1"] = np.where(np.eye(N, dtype=bool), np.inf, D).min(1)
    i["du"] = D[np.triu_indices(N, 1)]
    i["e1"] = lib.dist_matrix(P + [.1 * ext, .2 * ext], P).min(1)
    i["de"] = lib.dist_matrix(P, (P + [.1 * ext, .2 * ext])[:5])
    i["cov"] = np.array([[4.0, 0.5], [0.5, 4.0]])
    i["cov3"] = np.array([[[4.0, 0.5], [0.5, 4.0]], [[1.0, 0.0], [0.0, 1.0]]])
    i["radii"] = [0.5, 0.7]
    i["radiia"] = np.array([0.5, 0.7])
    i["center"] = np.array(c)
    i["ring"] = [(0.0, 0.0), (0.0, 4.0), (4.0, 4.0), (4.0, 0.0)]
    i["parts"] = [[(lo[0] - 2, lo[1] - 2), (lo[0] - 2, hi[1] + 2), (hi[0] + 2, hi[1] + 2), (hi[0] + 2, lo[1] - 2), (lo[0] - 2, lo[1] - 2)]]
    i["holes"] = [[(c[0], c[1]), (c[0] + .01 * ext, c[1]), (c[0], c[1] + .01 * ext), (c[0], c[1])]]
    i["lpoly"] = ps.cg.Polygon(i["parts"], i["holes"])
    i["win"] = pointpats.Window(i["parts"])
    i["rows"] = [[float(k % 3), *map(float, p), float(k % 2)] for k, p in enumerate(P)]
    i["names"] = ["kind", "lon", "lat", "z"]
    i["cn"] = ["lon", "lat"]
    i["cn2"] = ["e", "n"]
    i["df"] = pd.DataFrame(i["rows"], columns=list("abcd"), index=range(5, 5 + N))
    i["marks"] = [list(range(N)), [k % 2 for k in range(N)]]
    i["mnames"] = ["m1", "m2"]
    i["pp"] = pointpats.PointPattern(P.copy(), window=pointpats.Window(i["parts"]))
    i["ppm"] = pointpats.PointPattern([list(r) for r in i["rows"]], names=list(i["names"]), coord_names=list(i["cn"]))
    i["delta"], i["tau"] = lib.gap(D, 0.4), lib.gap(np.abs(t - t.T), 0.4)
    i["ids"] = [f"e{k}" for k in range(N)]
    i["path"] = _dir[0] + "/ev%d.shp" % ds
    i["ss"] = np.random.SeedSequence(3)
    i["colors"] = dict(focal="green", neighbor="blue", nonsig="black")
    i["pkw"], i["ekw"] = dict(markersize=3), dict(linewidth=2)
    i["rects"] = dict(count_column=2, count_row=3)
    i["levels"] = [0.0, 0.001, 0.002, 0.01]
    return i


# ------------------------------------------------------------------ calls: name -> (kind, function of the inputs)
def calls():
    import matplotlib.pyplot as plt
    import pointpats as pp
    from pointpats import centrography as C, distance_statistics as S, geometry as G, process, random as R
    out = {}

    def add(name, fn, kind="det"):
        assert name not in out, name
        out[name] = (kind, fn)
    for f in ("hull", "mean_center", "manhattan_median", "std_distance", "euclidean_median", "ellipse", "minimum_bounding_rectangle",
              "minimum_rotated_rectangle", "minimum_bounding_circle"):
        for form in ("P", "L", "gs", "gdf"):
            if form == "L" and f in ("hull", "std_distance"):
                form = "I"
            add("%s(%s)" % (f, form), lambda i, f=f, form=form: getattr(C, f)(i[form]))
    add("minimum_rotated_rectangle(F, angle)", lambda i: C.minimum_rotated_rectangle(i["F"], return_angle=True))
    add("minimum_bounding_circle(gs, quad_segs)", lambda i: C.minimum_bounding_circle(i["gs"], quad_segs=4))
    for form, w in (("P", "w"), ("L", "wi"), ("gs", "w"), ("gdf", "ws"), ("F", "wi")):
        add("weighted_mean_center(%s, %s)" % (form, w), lambda i, form=form, w=w: C.weighted_mean_center(i[form], i[w]))
        add("ellipse(%s, %s)" % (form, w), lambda i, form=form, w=w: C.ellipse(i[form], weights=i[w]))
    add("ellipse(P, yuill)", lambda i: C.ellipse(i["P"], method="Yuill", crimestatCorr=False))
    add("dtot(P)", lambda i: C.dtot(i["center"], i["P"]))
    add("dtot(L)", lambda i: C.dtot(i["L"][0], i["L"]))
    for h in ("box", "poly", "mpoly", "chull"):
        add("geometry(%s)" % h, lambda i, h=h: (G.area(i[h]), G.bbox(i[h]), G.centroid(i[h]), [bool(G.contains(i[h], *p)) for p in i["L"]],
                                               G.area(G.prepare_hull(i["P"], i[h]))))
    add("bbox(points)", lambda i: (G.bbox(i["P"]), G.bbox(i["L"]), G.bbox(i["boxl"]), G.centroid(i["P"])))
    add("prepare_hull(P)", lambda i: (G.prepare_hull(i["P"]), G.area(G.prepare_hull(i["P"], "convex")), G.area(G.prepare_hull(i["P"], "alpha"))))
    add("k_neighbors", lambda i: [G.k_neighbors(G.build_best_tree(i["P"], m), i["P"], 1)[0] for m in ("euclidean", "cityblock", "hamming")])
    for f in ("f", "g", "k", "l", "j"):
        stat = getattr(S, f)
        dist = dict(f=("e1", "de"), g=("d1", "D"), k=("du", "D"), l=("du", "D"), j=(("d1", "e1"), ("D", "de")))[f]
        for d in dist:
            key = d if isinstance(d, str) else ",".join(d)
            for sup in ("sup", "supl", "supt"):
                if f == "j" and sup == "supl":
                    continue
                add("%s(P, %s, %s)" % (f, sup, key), lambda i, stat=stat, d=d, sup=sup: stat(
                    i["P"], support=i[sup], distances=i[d] if isinstance(d, str) else tuple(i[x] for x in d)))
        if f in "gkl":
            for form in ("P", "L", "gdf", "tree", "gs"):
                add("%s(%s)" % (f, form), lambda i, stat=stat, form=form: stat(i[form], support=i["sup"]))
            add("%s(P, 5, cityblock)" % f, lambda i, stat=stat: stat(i["P"], support=5, metric="cityblock"))
        else:
            add("%s(P, hull)" % f, lambda i, stat=stat: stat(i["P"], support=i["sup"], hull=i["poly"], **({"truncate": False} if stat is S.j else {}))[0], "free")
        for form in ("P", "gdf"):
            for h in ("poly", "chull"):
                def test(i, f=f, form=form, h=h):
                    r = getattr(S, f + "_test")(i[form], support=i["sup"], hull=i[h], n_simulations=2, n_jobs=1, keep_simulations=True,
                                                **({"truncate": False} if f == "j" else {}))
                    return (r.support, r.statistic if f in "gkl" else None, np.shape(r.simulations))
                if form == "P" or h == "poly":
                    add("%s_test(%s, %s)" % (f, form, h), test, "free")
    add("l(P, linearized)", lambda i: S.l(i["P"], support=i["sup"], linearized=True))
    for form in ("P", "L", "gdf", "gs", "pp"):
        add("RectangleM(%s)" % form, lambda i, form=form: _quad(pp.RectangleM(i[form], **i["rects"])))
        add("HexagonM(%s)" % form, lambda i, form=form: _quad(pp.HexagonM(i[form], (i["box"][2] - i["box"][0]) / 4)))
    add("RectangleM(P, size, window)", lambda i: _quad(pp.RectangleM(i["P"], rectangle_width=1.5 * i["delta"], rectangle_height=i["delta"], window=i["poly"])))
    for sh in ("rectangle", "hexagon"):
        add("QStatistic(%s)" % sh, lambda i, sh=sh: _qstat(pp.QStatistic(i["P"], shape=sh, lh=(i["box"][2] - i["box"][0]) / 4)))
        add("QStatistic(%s, gdf, window, rng)" % sh, lambda i, sh=sh: _qstat(pp.QStatistic(i["gdf"], shape=sh, lh=(i["box"][2] - i["box"][0]) / 4,
                                                                           realizations=3, window=i["poly"], rng=11)))
    add("QStatistic(rng=SeedSequence)", lambda i: _qstat(pp.QStatistic(i["P"], realizations=2, rng=i["ss"])))
    for h in ("box", "poly", "mpoly", "chull", "P"):
        add("poisson(%s)" % h, lambda i, h=h: R.poisson(i[h], size=(4, 2), rng=5))
        add("normal(%s)" % h, lambda i, h=h: R.normal(i[h], center=i["center"], cov=i["cov"], size=(3, 2), rng=5))
        add("cluster_poisson(%s)" % h, lambda i, h=h: R.cluster_poisson(i[h], size=(6, 2), n_seeds=2, cluster_radius=i["radii"], rng=5))
        add("cluster_normal(%s)" % h, lambda i, h=h: R.cluster_normal(i[h], cov=i["cov"], size=(6, 2), n_seeds=2, rng=5))
        add("strauss(%s)" % h, lambda i, h=h: R.strauss(i[h], size=3, gamma=0.5, r=0.1, n_iter=12, rng=5))
    add("normal(cov3)", lambda i: R.normal(i["box"], center=i["L"][0], cov=i["cov3"], size=(3, 2), rng=8))
    add("cluster_poisson(radii array)", lambda i: R.cluster_poisson(i["box"], size=(5, 1), n_seeds=2, cluster_radius=i["radiia"], rng=8))
    add("normal(default)", lambda i: R.normal(i["poly"], size=4, rng=8))
    add("cluster_normal(default)", lambda i: R.cluster_normal(i["box"], size=(5, 2), n_seeds=2, rng=8))
    add("parse_size_and_intensity", lambda i: (R.parse_size_and_intensity(i["box"], size=(3, 4)), R.parse_size_and_intensity(i["poly"], intensity=1.5)))
    for asPP in (False, True):
        add("PoissonPointProcess(asPP=%r)" % asPP, lambda i, a=asPP: _proc(process.PoissonPointProcess(i["win"], 4, 2, conditioning=True, asPP=a)), "glob")
        add("PoissonClusterPointProcess(asPP=%r)" % asPP, lambda i, a=asPP: _proc(process.PoissonClusterPointProcess(i["win"], 4, 2, .5, 2, asPP=a, keep=a)), "glob")
    # point patterns
    add("PointPattern(P)", lambda i: _pat(pp.PointPattern(i["P"])))
    add("PointPattern(rows, names)", lambda i: _pat(pp.PointPattern(i["rows"], names=i["names"], coord_names=i["cn"], window=i["win"])))
    add("PointPattern(rows, coord_names)", lambda i: _pat(pp.PointPattern(i["rows"], coord_names=i["cn2"])))
    add("PointPattern(frame)", lambda i: _pat(pp.PointPattern(i["df"], names=i["names"], coord_names=i["cn"])))
    add("PointPattern(gdf coords)", lambda i: _pat(pp.PointPattern(i["T"], window=i["win"])))
    def marked(i):
        q = pp.PointPattern(i["P"])
        q.add_marks(i["marks"], i["mnames"])
        q.add_marks([i["w"]])
        return _pat(q), [_pat(x) for x in q.explode("m2")]
    add("add_marks", marked)
    for form in ("pp", "ppm"):
        add("summaries(%s)" % form, lambda i, form=form: [getattr(i[form], a) for a in (
            "n", "mbb", "mbb_area", "rot", "lambda_mbb", "hull", "hull_area", "lambda_hull", "lambda_window", "nnd", "min_nnd", "max_nnd", "mean_nnd")])
        add("knn(%s)" % form, lambda i, form=form: i[form].knn(3)[1])
        add("find_pairs(%s)" % form, lambda i, form=form: sorted(tuple(map(int, t)) for t in i[form].find_pairs(i["delta"])))
        add("knn_other(%s)" % form, lambda i, form=form: (i[form].knn_other(i["L"][:3], 2)[1], i[form].knn_other(i["ppm"], 1)[1]))
        add("unique(%s)" % form, lambda i, form=form: _pat(i[form].unique()))
        add("superimpose(%s)" % form, lambda i, form=form: _pat(i[form].superimpose(i[form])))
        add("membership(%s)" % form, lambda i, form=form: [q in i[form] for q in i["T"] + [(-1, 3)]])
        add("plot(%s)" % form, lambda i, form=form: _draw(i[form].plot(window=True, hull=True, get_ax=True)))
    add("explode(ppm)", lambda i: [_pat(x) for x in i["ppm"].explode("kind")])
    add("summary(ppm)", lambda i: i["ppm"].summary())
    # windows
    add("to_ccf", lambda i: (pp.to_ccf(i["ring"]), pp.to_ccf(i["parts"][0])))
    add("poly_from_bbox", lambda i: _window(pp.as_window(pp.poly_from_bbox(i["boxl"]))) + _window(pp.as_window(pp.poly_from_bbox(i["box"]))))
    add("as_window", lambda i: _window(pp.as_window(i["lpoly"])))
    add("Window", lambda i: _window(pp.Window(i["parts"])) + _window(pp.Window(i["parts"], i["holes"])))
    add("filter_contained", lambda i: i["win"].filter_contained(i["P"]) + i["win"].filter_contained(i["L"]))
    # space time
    for t in ("t", "ti"):
        for perm in (0, 3):
            k = "det" if not perm else "glob"
            add("knox(%s, %d)" % (t, perm), lambda i, t=t, perm=perm: pp.knox(i["P"], i[t], i["delta"], i["tau"], permutations=perm), k)
            add("mantel(%s, %d)" % (t, perm), lambda i, t=t, perm=perm: pp.mantel(i["P"], i[t], permutations=perm, scon=1.5), k)
            add("modified_knox(%s, %d)" % (t, perm), lambda i, t=t, perm=perm: pp.modified_knox(i["P"], i[t], i["delta"], i["tau"], permutations=perm), k)
            add("jacquez(%s, %d)" % (t, perm), lambda i, t=t, perm=perm: pp.jacquez(i["P"], i["tj" if t == "t" else "tj3"], 2, permutations=perm), k)
            add("Knox(%s, %d)" % (t, perm), lambda i, t=t, perm=perm: _knox(pp.Knox(i["P"], i[t], i["delta"], i["tau"], permutations=perm, keep=True)), k)
            add("KnoxLocal(%s, %d)" % (t, perm), lambda i, t=t, perm=perm: _local(pp.KnoxLocal(
                i["P"], i[t], i["delta"], i["tau"], permutations=perm, keep=True, ids=i["ids"] if perm else None)), k)
    add("Knox.from_dataframe", lambda i: _knox(pp.Knox.from_dataframe(i["gdf"], "time", i["delta"], i["tau"], permutations=2)), "glob")
    add("KnoxLocal.from_dataframe", lambda i: _local(pp.KnoxLocal.from_dataframe(i["gdf"], "time", i["delta"], i["tau"], permutations=2)), "glob")
    def klplot(i):
        k = pp.KnoxLocal(i["P"], i["t"], i["delta"], i["tau"], permutations=0)
        a = _local(k)
        r = _draw(k.plot(inference="analytic", crit=0.4, colors=i["colors"], point_kwargs=i["pkw"], edge_kwargs=i["ekw"]))
        k.explore(inference="analytic", crit=0.4, colors=i["colors"])
        assert same(_local(k), a, True)
        return a, r
    add("KnoxLocal.plot", klplot)
    add("SpaceTimeEvents", lambda i: [getattr(e, a) for e in (pp.SpaceTimeEvents(i["path"], "T"), pp.SpaceTimeEvents(i["path"], "DATE", infer_timestamp=True))
                                      for a in ("n", "x", "y", "t", "space", "time")])
    # drawing
    for form in ("P", "gdf"):
        add("plot_density(%s)" % form, lambda i, form=form: _draw(pp.plot_density(i[form], bandwidth=i["delta"], resolution=(6, 5), levels=4)))
    add("plot_density(kernel)", lambda i: _draw(pp.plot_density(i["P"], bandwidth=2 * i["delta"], kernel="epa", resolution=8, fill=True, levels=i["levels"])))
    add("QStatistic.plot", lambda i: _draw(pp.QStatistic(i["P"]).plot(show="chi2")))
    add("HexagonM.plot", lambda i: _draw(pp.HexagonM(i["P"], i["delta"]).plot()[0]))

    def closed(fn):
        def run(i):
            try:
                return fn(i)
            finally:
                plt.close("all")
        return run
    return {k: (kind, closed(fn)) for k, (kind, fn) in out.items()}


def _quad(m):
    return [m.num, m.mbb, sorted(m.point_location_sta().items()), m.window.wkb, [c[2] for c in m._iter_cells()]]


def _qstat(q):
    return [q.chi2, q.chi2_pvalue, q.df, q.chi2_contrib, q.cell_ids, getattr(q, "chi2_realizations", None), getattr(q, "chi2_r_pvalue", None)]


def _window(w):
    return [w.parts, w.holes, w.area, list(w.bbox)]


def _pat(p):
    return [p.df, p.points, list(p.coord_names), p.n, _window(p.window)]


def _proc(p):
    return [p.parameters, [v if isinstance(v, np.ndarray) else _pat(v) for _, v in sorted(p.realizations.items())]]


def _knox(k):
    return [getattr(k, a, None) for a in ("nst", "p_sim", "sim", "p_poisson", "observed", "expected", "statistic_", "delta", "tau")]


def _local(k):
    r = _knox(k) + [getattr(k, a, None) for a in ("nsti", "p_sims", "sims", "p_hypergeom", "adjlist")]
    for kw in (dict(crit=0.7), dict(crit=0.7, inference="analytic"), dict(crit=1.1, inference="analytic", keep_neighbors=False)):
        h = k.hotspots(**kw)
        r.append([list(h.columns), h.drop(columns="geometry").astype(str).values.tolist(), [g.wkb for g in h.geometry]])
    return snap(r)


def _draw(ax):
    r = [ax.get_title(), [[*map(float, l.get_xdata()), *map(float, l.get_ydata())] for l in ax.lines], [(t.get_text(), *t.get_position()) for t in ax.texts]]
    for c in ax.collections:
        r.append([np.asarray(c.get_offsets(), float), [np.asarray(p.vertices) for p in c.get_paths()], np.asarray(c.get_facecolor()), np.asarray(c.get_edgecolor())])
    return r


# ------------------------------------------------------------------ snapshots
def snap(o):
    """nested plain structure of a value (types kept)"""
    import geopandas as gpd
    import pandas as pd
    import shapely
    from scipy.spatial import ConvexHull
    import libpysal as ps
    import pointpats
    if o is None or isinstance(o, (bool, int, float, str, bytes)):
        return o
    if isinstance(o, np.ndarray):
        return ("array", str(o.dtype), o.shape, o.tolist() if o.dtype.kind == "O" else np.array(o, copy=True), o.flags.writeable, o.flags.c_contiguous)
    if isinstance(o, np.generic):
        return (str(o.dtype), o.item())
    if isinstance(o, shapely.Geometry):
        return ("geom", o.wkb)
    if isinstance(o, pointpats.PointPattern):
        return ("pattern", snap(o.df), snap(o.points), list(o.coord_names), snap(o.window), o.n)
    if isinstance(o, ps.cg.Polygon):
        return (type(o).__name__, snap(o.parts), snap(o.holes))
    if isinstance(o, ConvexHull):
        return ("hull", snap(o.points), snap(o.vertices), o.volume)
    if isinstance(o, gpd.GeoSeries):
        return ("gs", [g.wkb for g in o], list(o.index), str(o.crs), o.name)
    if isinstance(o, gpd.GeoDataFrame):
        return ("gdf", o._geometry_column_name, str(o.crs), snap(pd.DataFrame(o.drop(columns=o.geometry.name))), snap(o.geometry), list(o.columns))
    if isinstance(o, pd.DataFrame):
        return ("df", list(o.columns), list(o.index), [str(t) for t in o.dtypes], [[snap(x) for x in r] for r in o.values.tolist()])
    if isinstance(o, pd.Series):
        return ("series", o.name, list(o.index), str(o.dtype), o.values.tolist())
    if isinstance(o, dict):
        return ("dict", [(k, snap(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(x) for x in o])
    if isinstance(o, (set, frozenset)):
        return ("set", sorted(map(repr, o)))
    if type(o).__name__ in ("KDTree", "BallTree"):
        return ("tree", np.asarray(o.data).copy())
    if isinstance(o, np.random.SeedSequence):
        return ("ss", o.entropy, o.spawn_key, o.pool.tolist())      # spawning children counts them, as numpy documents
    raise TypeError(type(o))


def same(a, b, exact):
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if exact:
            return a.tobytes() == b.tobytes()
        return bool(np.allclose(a, b, rtol=1e-9, atol=1e-12, equal_nan=True)) if a.dtype.kind in "fc" else bool((a == b).all())
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, exact) for x, y in zip(a, b))
    if isinstance(a, float):
        return a == b or (a != a and b != b) or (not exact and abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-12)
    if isinstance(a, bytes) and not exact:
        return a == b or near_wkb(a, b)
    return a == b


def near_wkb(a, b):
    import shapely
    try:
        x, y = shapely.from_wkb(a), shapely.from_wkb(b)
        return shapely.equals_exact(x, y, 1e-7 * max(1.0, float(np.abs(shapely.get_coordinates(x)).max())))
    except Exception:
        return False


def diff(a, b, path=""):
    """where two snapshots differ, for messages"""
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if not same(x, y, True):
                return diff(x, y, path + "[%s]" % k)
    return "%s %.150r -> %.150r" % (path, a, b)


# ------------------------------------------------------------------ exploration
BASE = {}
CALLS = {}
NAMES = []


def in_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                import traceback
                out = ("error", "%s: %s" % (type(e).__name__, e), traceback.format_exc())
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return ("error", "the process died", "")
    return pickle.loads(data)


def value(name, i):
    """-> (snapshot of the result, was numpy's global random state left alone)"""
    import contextlib
    import io
    kind, fn = CALLS[name]
    np.random.seed(1234)
    np.random.normal()          # leaves a cached gaussian
    before = lib.rng_state()
    with contextlib.redirect_stdout(io.StringIO()):
        v = snap(fn(i))
    return v, lib.rng_state() == before


def warmup():
    import atexit
    import datetime
    import libpysal as lps
    from pointpats import centrography as C
    if _dir:
        return
    d = tempfile.mkdtemp(prefix="c22-")
    _dir.append(d)
    me = os.getpid()
    atexit.register(lambda: os.getpid() == me and shutil.rmtree(d, ignore_errors=True))
    for ds in range(3):
        f = lps.io.open(d + "/ev%d.shp" % ds, "w")
        for p in points(ds).tolist():
            f.write(lps.cg.Point(tuple(p)))
        f.close()
        db = lps.io.open(d + "/ev%d.dbf" % ds, "w")
        db.header, db.field_spec = ["T", "DATE"], [("N", 6, 0), ("D", 8, 0)]
        for k in range(N):
            db.write([(k * 5 + ds) % 7, datetime.date(2020, 3, 1 + (k * 7 + ds) % 20)])
        db.close()
    from pointpats import geometry as G
    C.minimum_bounding_circle(points(0))            # compile
    G.prepare_hull(points(0), "alpha")
    import pointpats, statsmodels.api, KDEpy, matplotlib.pyplot  # noqa: F401

    CALLS.update(calls())
    NAMES[:] = list(CALLS)


def base(task):
    """the call on the dataset in a pristine process"""
    name, ds = task
    return task, in_child(lambda: value(name, build(ds)))


def prepare(tier, seed):
    tasks = set()
    for c in cases(tier, seed):
        if not c.get("refill"):
            tasks.update([(c["f"], c["a"])] + [(g, c["b"]) for g in c["g"]])
    for t, res in pool_map(base, sorted(tasks)):
        BASE[(*t, N)] = res


def pool_map(fn, tasks, k=8):
    """results of fn over tasks computed in k forked processes"""
    parts = [in_child_async(lambda s=s: [fn(t) for t in tasks[s::k]]) for s in range(k)]
    for wait in parts:
        st, *r = wait()
        if st != "ok":
            raise RuntimeError(r)
        yield from r[0]


def in_child_async(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                out = ("ok", fn())
            except BaseException as e:
                out = ("error", repr(e))
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)

    def wait():
        with os.fdopen(r, "rb") as f:
            data = f.read()
        os.waitpid(pid, 0)
        return pickle.loads(data) if data else ("error", "died")
    return wait


class Inputs(dict):
    """the inputs, which of them a call takes, and what they were"""

    def __init__(self, d):
        super().__init__(d)
        self.used = set()
        self.before = {k: snap(v) for k, v in d.items()}

    def __getitem__(self, k):
        self.used.add(k)
        return super().__getitem__(k)


def reps():
    """one call per public function: the first form registered"""
    out = {}
    for n in NAMES:
        out.setdefault(n.split("(")[0], n)
    return list(out.values())


SLOW = ("KnoxLocal.plot", "KnoxLocal(t, 0)", "KnoxLocal.from_dataframe", "QStatistic.plot")


def cases(tier, seed):
    q = tier == "quick"
    R = reps()
    out = []

    def block(n, a, b, others):
        # f g f visits both orders of the pair
        for c in range(0, len(others), 40):
            out.append(dict(f=n, a=a, b=b, g=others[c:c + 40], rep=not q))
    for k, n in enumerate(NAMES):
        if q and n in R:
            forms = [m for m in NAMES if m != n and m.split("(")[0] == n.split("(")[0]]
            block(n, (k + seed) % 3, (k + seed) % 3, forms)
        for a in range(3):
            for b in range(3):
                if not q:
                    block(n, a, b, NAMES[k:])
                elif n in R and (k + a + b + seed) % 3 == 0:
                    # the slow ones on one pair of datasets only
                    block(n, a, b, [m for m in R[R.index(n):] if a == b or not {m, n} & set(SLOW)])
    yield from out
    # the same arrays with other contents
    for k, n in enumerate(NAMES):
        for d in (1,) if q else (1, 2):
            yield dict(f=n, a=(k + seed) % 3, b=(k + seed + d) % 3, g=[n], refill=97 if n in R or not q else 9)


def refill(i, j):
    """give the inputs i the contents of j, inside the same arrays and lists where they have any"""
    for k, v in j.items():
        u = i[k]
        if isinstance(u, np.ndarray) and u.shape == v.shape and u.dtype == v.dtype:
            u[...] = v
        elif isinstance(u, list) and isinstance(v, list):
            u[:] = v
        else:
            dict.__setitem__(i, k, v)
        if k != "ss":
            assert same(snap(i[k]), snap(v), True) or k == "F", k


def judge(case, ctx):
    global N
    before, N = N, case.get("refill", N)
    try:
        judge_history(case, ctx)
    finally:
        N = before


def judge_history(case, ctx):
    name, a, b = case["f"], case["a"], case["b"]
    for n, ds in (*(() if case.get("refill") else [(name, a)]), *((g, b) for g in case["g"])):
        if (n, ds, N) not in BASE:
            BASE[(n, ds, N)] = base((n, ds))[1]
        st = BASE[(n, ds, N)]
        if st[0] != "ok":
            ctx.fail("%s on dataset %d fails in a process of its own: %s\n%s" % (n, ds, st[1], st[2][-1500:]))

    def unchanged(i, keys, what):
        for k in sorted(keys):
            after = snap(i[k])
            ctx.check(same(i.before[k], after, True), lambda: "%s changes its input %r: %s" % (what, k, diff(i.before[k], after)))

    def call(n, ds, i, when):
        i.used.clear()
        v, untouched = value(n, i)
        ctx.step()
        unchanged(i, set(i.used), n + when)
        want, _ = BASE[(n, ds, N)][1]
        ctx.check(same(v, want, False), lambda: "%s%s gives another result than in a process of its own: %s" % (n, when, diff(want, v)))
        if CALLS[n][0] in ("det", "free"):
            ctx.check(untouched, lambda: "%s%s touches numpy's global random state" % (n, when))

    def run():
        if case.get("refill"):
            i = Inputs(build(a))
            value(name, i)
            ctx.step()
            refill(i, build(b))
            i = Inputs(i)
            call(name, b, i, " (on dataset %d, in the arrays and lists that held dataset %d in the call before)" % (b, a))
            ctx.state(name, a, b)
            ctx.trace()
            return dict(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, evals=ctx.evals)
        i, j = Inputs(build(a)), Inputs(build(b))
        call(name, a, i, "")
        call(name, a, i, " (called again)")
        for g in case["g"]:
            ctx.state(name, a, g, b)
            call(g, b, j, " (on dataset %d, after %s on dataset %d)" % (b, name, a))
            if case.get("rep"):
                call(g, b, Inputs(build(b)), " (again)")
            call(name, a, i, " (on dataset %d, after %s on dataset %d)" % (a, g, b))
            ctx.trace()
        unchanged(i, i, "the history f g f, f = %s, g in %s," % (name, case["g"]))
        unchanged(j, j, "the history f g f, f = %s, g in %s," % (name, case["g"]))
        return dict(states=ctx.states, transitions=ctx.transitions, traces=ctx.traces, evals=ctx.evals)
    st, *r = in_child(run)
    if st != "ok":
        msg = r[0]
        ctx.fail(msg[len("Violation: "):] if msg.startswith("Violation: ") else "%s\n%s" % (msg, r[1][-1500:]))
    for k, v in r[0].items():
        setattr(ctx, k, v)
    ctx.outcome(name, a)
