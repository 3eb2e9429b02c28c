"""C27: requests that cannot be served are refused, alone and in combination, and leave everything as it was."""
import itertools
import warnings
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of valid calls with one or two arguments replaced by ill-formed ones (all values, all pairs), in histories "
              "valid / refused / valid, on the real functions; arguments, objects and random state compared around each refusal",
    level_note="A refusal is an exception of the kind documented (or a subclass; any exception where the kind is not documented).",
    rule="a case is (call, pattern, frame); its executions are all single faults and all pairs of faults in different arguments",
    bounds=dict(quick="47 calls x 5 patterns of 3 to 30 points in rotating frames", thorough="14 patterns of 3 to 40 points, three frames each"),
    assumptions=["only faults that the library documents or checks are enumerated"],
)
# kinds of refusal
V = (ValueError,)
T = (TypeError,)
N = (NotImplementedError,)
ANY = (Exception,)


class Same:
    """bitwise snapshot of everything reachable in the arguments"""

    def __init__(self, *objs):
        self.v = [snap(o) for o in objs]

    def __eq__(self, o):
        return self.v == o.v


def snap(o):
    import geopandas as gpd
    import pandas as pd
    import shapely
    if isinstance(o, np.ndarray):
        return ("a", o.dtype.str, o.shape, o.tobytes() if o.dtype.kind != "O" else repr(o.tolist()))
    if isinstance(o, shapely.Geometry):
        return ("g", o.wkb)
    if isinstance(o, gpd.GeoDataFrame):
        return ("G", [snap(o[c]) for c in o.columns], list(o.columns), str(o.crs), o._geometry_column_name)
    if isinstance(o, gpd.GeoSeries):
        return ("S", o.to_wkb().tolist(), list(o.index), str(o.crs))
    if isinstance(o, pd.DataFrame):
        return ("D", [snap(o[c]) for c in o.columns], list(o.columns))
    if isinstance(o, pd.Series):
        return ("s", repr(o.tolist()), list(o.index), o.name)
    if isinstance(o, dict):
        return ("d", [(k, snap(v)) for k, v in o.items()])
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, [snap(v) for v in o])
    if hasattr(o, "coord_names"):               # a PointPattern
        return ("P", snap(o.df), list(o.coord_names), o.n, snap(np.asarray(o.points)), [snap(np.asarray(p, float)) for p in o.window.parts])
    if isinstance(o, np.random.Generator):
        return ("r", repr(o.bit_generator.state))
    return ("o", repr(o) if isinstance(o, (int, float, str, bool, type(None))) else id(o))


def result(o):
    """comparable value of a result (floats rounded)"""
    import shapely
    if isinstance(o, np.ndarray):
        return ("a", o.shape, np.round(o.astype(float), 9).tobytes() if o.dtype.kind in "fiub" else repr(o.tolist()))
    if isinstance(o, (tuple, list)):
        return [result(x) for x in o]
    if isinstance(o, dict):
        return [(k, result(v)) for k, v in o.items()]
    if isinstance(o, (float, np.floating)):
        return round(float(o), 9)
    if isinstance(o, (int, np.integer, str, bool, np.bool_, type(None))):
        return o
    if isinstance(o, shapely.Geometry):
        return o.wkb
    if hasattr(o, "coord_names"):
        return snap(o)
    return type(o).__name__


def patterns(tier):
    L = lambda *p: np.array(p, float)  # noqa: E731
    ps = [L((0, 0), (2, 0), (0, 1), (2, 2)), lib.structured(12, "dups", 3), L((0, 0), (1, 2), (2, 1), (1, 2), (0, 2))]
    ps += [L((0, 0), (1, 0), (0, 3)), lib.structured(30, "cluster", 4)]
    if tier != "quick":
        ps += [L((0, 0), (0, 1), (3, 3)), L((0, 0), (0, 0), (1, 1), (2, 0))] + [lib.structured(n, k, 2) for n in (7, 40) for k in ("uniform", "skew", "cluster")]
        ps.append(lib.structured(25, "grid"))
    return ps


def cases(tier, seed):
    fr = ["id", "neg", "small", "lonlat"]
    i = seed
    for name in NAMES:
        for p in range(len(patterns(tier))):
            for _ in range(1 if tier == "quick" else 3):
                i += 1
                yield dict(call=name, p=p, f=fr[i % 4], tier=tier, r=i)


def stat_calls(P):
    """name -> (function of keyword arguments, valid arguments, {argument: [(bad value, kinds)]})"""
    import pointpats as pp
    import shapely
    n = len(P)
    D = lib.dist_matrix(P)
    sup = np.linspace(0, D.max() * .7, 5)
    box = np.array([*P.min(0), *P.max(0)])
    metric = [(5, T), (None, T), (["euclidean"], T), (("euclidean",), T), (2.5, T), ("precomputed", V), ("nosuchmetric", ANY), ("", ANY)]
    edge = [(e, N) for e in ("ripley", "border", True, 1, "", 0.5)]
    hull = [(h, ANY) for h in ("nosuchhull", "circle", "", 5, 2.5, box[:3].copy(), np.append(box, 1.0), P[:2].copy() if n > 4 else np.array([box, box]), list(box), {"a": 1})]
    out = {}
    for nm in "fgjkl":
        fn = getattr(pp, nm)
        ok = dict(support=sup, metric="euclidean")
        bad = dict(edge_correction=edge, metric=metric)
        if nm in "fj":
            ok["hull"] = box
            bad["hull"] = hull
        if nm == "j":
            ok["truncate"] = False
        out["ripley." + nm] = (lambda fn=fn, **k: fn(P, **k), ok, bad)
        # distances handed over
        if nm == "f":
            d = D[:, :n - 1]
            bd = [(D[:-1], V), (D[1:, :2], V), (np.vstack([D, D[:1]]), V), (D[:1], V)]
        elif nm == "g":
            d = D.copy()
            bd = [(D[:-1], V), (D[:, 1:], V), (np.vstack([D, D[:1]]), V), (D[0, :-1], V), (np.append(D[0], 1), V), (D[None], V), (D[:2, :2], V), (D[:1], V)]
        elif nm in "kl":
            d = D.copy()
            u = D[np.triu_indices(n, 1)]
            bd = [(D[:-1], V), (D[:, 1:], V), (u[:-1], V), (np.append(u, 1.0), V), (D[:2, :2], V), (u[:1], V) if len(u) > 1 else (u[:0], V)]
        else:
            continue
        out["ripley.%s distances" % nm] = (lambda fn=fn, **k: fn(P, **k), dict(support=sup, distances=d), dict(distances=bd, edge_correction=edge[:2]))
    for nm in "fgjkl":
        fn = getattr(pp, nm + "_test")

        def call(fn=fn, **k):
            return fn(P, n_jobs=1, **k)[:2]
        ok = dict(support=sup, n_simulations=1, metric="euclidean", hull=box, **(dict(truncate=False) if nm == "j" else {}))
        out["ripley.%s_test" % nm] = (call, ok, dict(edge_correction=edge, metric=[(m, ANY) for m, _ in metric if m != "precomputed"], hull=hull))
    return out


def sim_calls(P):
    import pointpats as pp
    from pointpats import random as ppr
    box = np.array([*(P.min(0) - 1), *(P.max(0) + 1)])
    sizes = [((4, 2, 1), V), ((4,), V), ((), V), ("4", V), (4.0, V), (2.5, V), ([4, 2], V), ({4: 2}, V)]
    out = {}
    for nm, kw in (("poisson", {}), ("normal", {}), ("cluster_poisson", dict(n_seeds=2)), ("cluster_normal", dict(n_seeds=2, cov=.01)), ("strauss", dict(r=.1, gamma=.5, n_iter=5))):
        fn = getattr(ppr, nm)

        def call(fn=fn, **k):
            return fn(box, rng=3, **k)
        bad = dict(size=list(sizes))
        ok = dict(size=(6, 2), **kw)
        if nm.startswith("cluster"):
            out["random.%s seeds" % nm] = (call, dict(kw, size=(3, 1), n_seeds=2), dict(n_seeds=[(4, ANY), (7, ANY)]))
        if nm in ("normal", "cluster_normal"):
            bad["cov"] = [("1", V), ([1.0, 2.0], V), ({"a": 1}, V), (np.eye(3), ANY), (np.ones((2, 3)), ANY), (np.ones((2, 3, 2)), ANY)]
            if nm == "normal":
                bad["cov"].append((np.ones((7, 2, 2)), ANY))
            ok["cov"] = .01
        out["random." + nm] = (call, ok, bad)
        if "normal" in nm:
            continue
        # a size that fixes the number of points contradicts an intensity
        out["random.%s intensity" % nm] = (call, dict(size=2, intensity=6 / float((box[2] - box[0]) * (box[3] - box[1])), **kw),
                                           dict(size=[((6, 2), V), ((6, 1), V)] + sizes[:5]))
    return out


def st_calls(P):
    import geopandas as gpd
    import pandas as pd
    import pointpats as pp
    from pointpats import spacetime as st
    n = len(P)
    t = np.array([(3 * i) % 4 for i in range(n)], float)[:, None]
    D = lib.dist_matrix(P)
    de = lib.gap(D, .4)
    ids = ["e%d" % i for i in range(n)]
    out = {}

    def kl(s_coords, t_coords, ids):
        np.random.seed(3)
        k = st.KnoxLocal(s_coords, t_coords, de, 1.5, permutations=3, ids=ids)
        return k.nsti, k.p_sims, k.p_hypergeom
    out["KnoxLocal"] = (kl, dict(s_coords=P, t_coords=t, ids=ids),
                        dict(s_coords=[(P.tolist(), V), (pd.DataFrame(P), V), (P[:, :1].copy(), V), (P[:-1].copy(), V), (np.vstack([P, P[:1]]), V), (None, V)],
                             t_coords=[(t.tolist(), V), (pd.Series(t[:, 0]), V), (t[:-1].copy(), V), (np.vstack([t, t[:1]]), V), (t[:1].copy(), V), (None, V)],
                             ids=[(ids[:-1], V), (ids + ["x"], V), ([], V), (ids[:1], V)]))
    np.random.seed(3)
    k0 = st.KnoxLocal(P, t, de, 1.5, permutations=3)

    def hot(inference, crit):
        return sorted(map(str, k0.hotspots(crit=crit, inference=inference).index))
    bad_inf = [(x, V) for x in ("perm", "", "Permutation", None, 5, "analytical", "hypergeom")]
    out["KnoxLocal.hotspots"] = (hot, dict(inference="permutation", crit=.999), dict(inference=bad_inf))

    def plot(inference, plot_edges):
        import matplotlib.pyplot as plt
        try:
            return len(k0.plot(inference=inference, crit=.9, plot_edges=plot_edges).collections) > 0
        finally:
            plt.close("all")
    out["KnoxLocal.plot"] = (plot, dict(inference="analytic", plot_edges=False), dict(inference=bad_inf))
    def fr(ty=None, crs=3857, geom=None):
        g = gpd.points_from_xy(*P.T) if geom is None else geom
        return gpd.GeoDataFrame({"t": t[:, 0] if ty is None else ty}, geometry=g, crs=crs)
    import shapely
    pts = [shapely.Point(*p) for p in P]
    dates = pd.Timestamp("2020-01-01") + pd.to_timedelta(t[:, 0], unit="D")
    frames = [(fr(crs=4326), V), (fr(crs=4269), V), (fr(geom=[p.buffer(.1) for p in pts]), V), (fr(geom=pts[:-1] + [pts[-1].buffer(.1)]), V),
              (fr(geom=[shapely.LineString([p.coords[0], (0, 9)]) for p in pts]), V), (fr(geom=pts[:1] + [shapely.MultiPoint([p]) for p in pts[1:]]), V),
              (fr(ty=dates), V), (fr(ty=[str(int(x)) for x in t[:, 0]]), V), (fr(ty=pd.Categorical(t[:, 0])), V), (fr(crs=4326, ty=dates), V)]
    for nm, cls in (("Knox", st.Knox), ("KnoxLocal", st.KnoxLocal)):
        def call(dataframe, time_col, cls=cls):
            np.random.seed(3)
            k = cls.from_dataframe(dataframe, time_col=time_col, delta=de, tau=1.5, permutations=2)
            return k.observed if nm == "Knox" and hasattr(k, "observed") else k.nst if hasattr(k, "nst") else k.nsti
        out[nm + ".from_dataframe"] = (call, dict(dataframe=fr(), time_col="t"), dict(dataframe=frames, time_col=[("nosuchcolumn", ANY), (None, ANY)]))
    return out


def other_calls(P):
    import geopandas as gpd
    import pandas as pd
    import pointpats as pp
    import shapely
    from pointpats import centrography as ce, geometry as ge, quadrat_statistics as qs
    n = len(P)
    out = {}
    box = np.array([*P.min(0), *P.max(0)])
    marked = pp.PointPattern(np.column_stack([P, np.arange(n) % 2]), names=["x", "y", "m"])
    plain = pp.PointPattern(P.copy())
    q = [(3.0, 1.0), (0.5, 0.25)]
    _ = plain.hull_area, plain.nnd
    out["PointPattern.knn"] = (lambda k: plain.knn(k), dict(k=1), dict(k=[(0, V), (-1, V), (-5, V), (0.5, V)]))
    out["PointPattern.knn_other"] = (lambda other, k: plain.knn_other(other, k), dict(other=q, k=1), dict(k=[(0, V), (-1, V), (0.25, V)]))
    other_names = pp.PointPattern(np.column_stack([P, np.arange(n)]), names=["x", "y", "z"])
    swapped = pp.PointPattern(np.column_stack([P, np.arange(n)]), names=["x", "y", "m"], coord_names=["y", "x"])
    third = pp.PointPattern(np.column_stack([np.arange(n), P]), names=["m", "x", "y"], coord_names=["x", "y"])
    more = pp.PointPattern(np.column_stack([P, np.arange(n), np.arange(n)]), names=["x", "y", "m", "k"])
    out["PointPattern.superimpose"] = (lambda point_pattern: marked.superimpose(point_pattern), dict(point_pattern=pp.PointPattern(np.column_stack([P[:2], [5, 6]]), names=["x", "y", "m"])),
                                       dict(point_pattern=[(plain, T), (other_names, T), (swapped, T), (third, T), (more, T)]))
    out["PointPattern.explode"] = (lambda mark: marked.explode(mark), dict(mark="m"), dict(mark=[("nosuchmark", ANY), (None, ANY), (7, ANY)]))
    out["PointPattern"] = (lambda points, names, coord_names: pp.PointPattern(points, names=names, coord_names=coord_names).mbb,
                           dict(points=P, names=["lon", "lat"], coord_names=["lat", "lon"]),
                           dict(points=[(P[:, 0].copy(), V), (P[:, :1].copy(), V), (P[None], V), (5, V), ("points", V), ([], V)],
                                names=[(["lon"], ANY), (["lon", "lat", "m"], V), (5, ANY)], coord_names=[(["lon"], V), (["lon", "depth"], (KeyError,)), (["lon", "lat", "m"], V), (5, ANY)]))
    adding = pp.PointPattern(P.copy())
    _ = adding.mbb, adding.nnd, adding.window

    def add_marks(marks, mark_names):
        adding.add_marks(marks, mark_names)
        try:
            return list(adding.df.columns), adding.df.values.tolist(), adding.points.values.tolist()
        finally:
            adding.df.drop(columns=list(mark_names), inplace=True)
    m1, m2 = list(range(n)), [k % 2 for k in range(n)]
    out["PointPattern.add_marks"] = (add_marks, dict(marks=[m1, m2], mark_names=["m1", "m2"]),
                                     dict(marks=[([m1, m2[:-1]], V), ([m1, m2 + [0]], V), (5, ANY), (None, ANY), ([m1[:-1], m2], V)],
                                          mark_names=[(["m1"], V), (["m1", "m2", "m3"], V), (5, T)]))
    w = np.arange(1, n + 1) / 2
    bw = [(w[:-1].copy(), V), (np.append(w, 1), V), (w[:0].copy(), ANY), (w[:2].tolist() if n > 2 else [1.0], V)]
    for form in ("array", "list", "series"):
        g = dict(array=P, list=P.tolist(), series=gpd.GeoSeries(gpd.points_from_xy(*P.T)))[form]
        out["ellipse of a%s %s" % ("n" * (form[0] in "aeiou"), form)] = (
            lambda g=g, **k: ce.ellipse(g, **k), dict(method="crimestat", weights=w),
            dict(method=[("Crime", V), ("", V), ("yuil", V), ("crimestat2", V)], weights=bw))
        out["weighted_mean_center of a%s %s" % ("n" * (form[0] in "aeiou"), form)] = (lambda g=g, **k: ce.weighted_mean_center(g, **k), dict(weights=w), dict(weights=bw))
    out["geometry.prepare_hull"] = (lambda hull: ge.prepare_hull(P, hull), dict(hull=box),
                                    dict(hull=[("nosuchhull", V), ("", V), (5, V), (2.5, V), (box[:3].copy(), ANY), (np.array([box, box, box, box]), ANY), (P[:0].copy(), ANY), (list(box), V)]))
    out["geometry.build_best_tree"] = (lambda metric: ge.build_best_tree(P, metric), dict(metric="euclidean"), dict(metric=[("nosuchmetric", (KeyError,)), ("", (KeyError,)), (5, (KeyError,)), (None, (KeyError,))]))
    out["geometry.contains"] = (lambda shape: ge.contains(shape, float(P[0, 0]), float(P[0, 1])), dict(shape=box), dict(shape=[(5, ANY), ("box", ANY), (None, ANY), (object(), ANY)]))
    out["geometry.centroid"] = (lambda shape: ge.centroid(shape), dict(shape=P), dict(shape=[(P[None], T), (P[None, None], T), (box[:3].copy(), ANY), (np.append(box, 1), ANY)]))
    poly = gpd.GeoSeries([shapely.Point(*p).buffer(.1) for p in P])
    part = gpd.GeoSeries([shapely.Point(*p) for p in P[:-1]] + [shapely.LineString(P[:2])])
    void = gpd.GeoSeries([shapely.Point()] * 3)
    bad_pts = [(np.column_stack([P, P[:, :1]]), V), (P[:, :1].copy(), V), (P[:, 0].copy(), V), (P[:0].copy(), V), (P[None], V), ([], V), (poly, T), (part, T), (void, V), (gpd.GeoDataFrame(geometry=poly), T),
               (gpd.GeoDataFrame(geometry=void), V), (5, V)]
    ext = float(np.ptp(P, axis=0).max())
    out["RectangleM"] = (lambda points: qs.RectangleM(points, 2, 2).point_location_sta(), dict(points=P), dict(points=bad_pts))
    out["HexagonM"] = (lambda points: qs.HexagonM(points, ext / 3).point_location_sta(), dict(points=P), dict(points=bad_pts))
    out["QStatistic"] = (lambda points, shape: qs.QStatistic(points, shape=shape, lh=ext / 3).chi2, dict(points=P, shape="rectangle"),
                         dict(points=bad_pts, shape=[(x, V) for x in ("square", "", "hex", "Rectangle", None, 4)]))
    try:
        from pointpats import plot_density
    except ImportError:
        plot_density = None
    if plot_density is not None:
        import matplotlib.pyplot as plt

        def dens(data, resolution):
            try:
                return len(plot_density(data, bandwidth=ext / 3, resolution=resolution).collections) > 0
            finally:
                plt.close("all")
        pts = gpd.GeoSeries(gpd.points_from_xy(*P.T))
        out["plot_density"] = (dens, dict(data=pts, resolution=10), dict(data=[(poly, V), (part, V), (gpd.GeoDataFrame(geometry=part), V), (gpd.GeoSeries(part.values[::-1]), V)],
                                                                         resolution=[([10, 12], V), ("10", V), ({10: 1}, V), (np.array([10, 12]), V)]))
    return out


def calls(P):
    out = {}
    for f in (stat_calls, sim_calls, st_calls, other_calls):
        out.update(f(P))
    return out


NAMES = ["ripley." + s for a in "fgjkl" for s in (a, a + "_test")] + ["ripley.%s distances" % a for a in "fgkl"]
NAMES += ["random." + a + b for a in ("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss") for b in ("", " intensity") if not (b and "normal" in a)]
NAMES += ["random.cluster_poisson seeds", "random.cluster_normal seeds", "KnoxLocal", "KnoxLocal.hotspots", "KnoxLocal.plot", "Knox.from_dataframe",
          "KnoxLocal.from_dataframe", "PointPattern.knn", "PointPattern.knn_other", "PointPattern.superimpose", "PointPattern.explode",
          "PointPattern", "PointPattern.add_marks"]
NAMES += ["%s of a%s %s" % (f, "n" * (s[0] == "a"), s) for f in ("ellipse", "weighted_mean_center") for s in ("array", "list", "series")]
NAMES += ["geometry.prepare_hull", "geometry.build_best_tree", "geometry.contains", "geometry.centroid", "RectangleM", "HexagonM", "QStatistic", "plot_density"]


def GOOD(P):
    import pandas as pd
    import shapely
    from scipy.spatial import ConvexHull
    n = len(P)
    box = np.array([*P.min(0), *P.max(0)])
    hulls = [None, "bbox", "convex", box, shapely.box(*box), shapely.MultiPolygon([shapely.box(*box)]), ConvexHull(P), np.array([*(box[:2] - 1), *(box[2:] + 1)])]
    metrics = ["l2", "cityblock", "manhattan", "chebyshev"]
    D = lib.dist_matrix(P)
    u = D[np.triu_indices(n, 1)]
    out = {}
    for a in "fgjkl":
        for b in ("", "_test"):
            out["ripley." + a + b] = dict(metric=["l2"] if a in "kl" or b else metrics, edge_correction=[None], **(dict(hull=hulls) if b or a in "fj" else {}))
            if a in "kl":
                out["ripley." + a + b]["metric"] = ["euclidean", "cityblock", "chebyshev"]
    out["ripley.f distances"] = dict(distances=[D[:, :1], D, np.hstack([D, D]), D.min(axis=0)[:1], np.append(D[0], 1.0)])
    out["ripley.g distances"] = dict(distances=[D, D[0]])
    out["ripley.k distances"] = out["ripley.l distances"] = dict(distances=[D, u])
    for a in ("poisson", "cluster_poisson", "strauss", "normal", "cluster_normal"):
        out["random." + a] = dict(size=[(4, 1), (3, 3), 5, 4])
        out["random.%s intensity" % a] = dict(size=[1, 3, None])
    for a in ("normal", "cluster_normal"):
        out["random." + a]["cov"] = [None, .02, np.eye(2) * .01]
    out["random.normal"]["cov"].append(np.stack([np.eye(2) * .01] * 2))
    out["random.cluster_poisson seeds"] = out["random.cluster_normal seeds"] = dict(n_seeds=[2, 3])
    out["KnoxLocal"] = dict(ids=[None, list(range(n)), np.arange(n)[::-1], tuple("abcdefghijklmnopqrstuvwxyz0123456789ABCDEFGHIJ"[:n])])
    out["KnoxLocal.hotspots"] = dict(inference=["permutation", "analytic"], crit=[0.0, 1.0])
    out["KnoxLocal.plot"] = dict(inference=["permutation", "analytic"], plot_edges=[True, False])
    out["PointPattern.knn"] = dict(k=range(1, n))
    out["PointPattern.knn_other"] = dict(k=range(1, n))
    for s in ("an array", "a list", "a series"):
        out["ellipse of " + s] = dict(method=["CrimeStat", "yuill", "YUILL"], weights=[None, [1] * n, tuple(range(1, n + 1)), pd.Series(range(1, n + 1), index=range(5, n + 5))])
        out["weighted_mean_center of " + s] = dict(weights=[[1] * n, tuple(range(1, n + 1))])
    out["geometry.prepare_hull"] = dict(hull=hulls)
    out["geometry.build_best_tree"] = dict(metric=metrics + ["canberra", "braycurtis"])
    out["geometry.contains"] = dict(shape=[ConvexHull(P)])
    out["geometry.centroid"] = dict(shape=[box, shapely.box(*box), P[:1]])
    out["QStatistic"] = dict(shape=["hexagon", "rectangle"])
    out["plot_density"] = dict(resolution=[(10, 12), None, 7]) if n < 20 else {}
    return out


def judge(case, ctx):
    warnings.simplefilter("ignore")
    P = lib.frame(patterns(case["tier"])[case["p"]], case["f"])
    table = calls(P)
    name = case["call"]
    if name not in table:
        return
    fn, ok, bad = table[name]
    ctx.state(name, P)
    good = GOOD(P).get(name, {})
    empty_f = name.startswith("ripley.") and name.split(".")[1][0] in "fj"

    def valid():
        r = fn(**ok)
        return result(r) if not empty_f else (result(r[0]), np.shape(r[1]))
    want = valid()
    before = Same(P, ok)
    for args in [(a,) for a in bad] + list(itertools.combinations(bad, 2)):
        for combo in itertools.product(*(range(len(bad[a])) for a in args)):
            faults = {a: bad[a][i][0] for a, i in zip(args, combo)}
            kinds = tuple({k for a, i in zip(args, combo) for k in bad[a][i][1]})
            if len(args) == 2:
                kinds = ANY
            what = "%s(%s) of %s" % (name, ", ".join("%s=%s" % (a, short(v)) for a, v in faults.items()), P.tolist()[:5])
            held = Same(faults)
            ctx.step()
            try:
                got = fn(**dict(ok, **faults))
            except kinds:
                pass
            except Exception as e:
                ctx.fail("%s: refused with %s (%s), expected %s" % (what, type(e).__name__, str(e)[:80], " or ".join(k.__name__ for k in kinds)))
            else:
                ctx.fail("%s: answered with %s instead of a refusal" % (what, short(got)))
            ctx.evals += 1
            ctx.check(Same(faults) == held and Same(P, ok) == before, lambda: what + ": the refusal changed its arguments")
            if len(args) == 1 or case["tier"] != "quick" and sum(combo) % 4 == 0:
                ctx.check(valid() == want, lambda: what + ": the valid call has another result after the refusal")
                ctx.trace()
    # the same faults beside other allowed arguments
    for a in bad:
        for b, vals in good.items():
            if a == b:
                continue
            for (x, _), v in itertools.product(bad[a], vals):
                ctx.step()
                try:
                    got = fn(**dict(ok, **{a: x, b: v}))
                except ANY:
                    continue
                ctx.fail("%s(%s=%s, %s=%s) of %s: answered with %s instead of a refusal" % (name, a, short(x), b, short(v), P.tolist()[:5], short(got)))
    # neighbouring requests that are allowed are served
    for a, vals in good.items():
        for v in vals:
            ctx.step()
            try:
                fn(**dict(ok, **{a: v}))
            except Exception as e:
                ctx.fail("%s(%s=%s) of %s is refused with %s (%s)" % (name, a, short(v), P.tolist()[:5], type(e).__name__, str(e)[:80]))
            ctx.evals += 1
    ctx.outcome(name, sum(len(v) for v in bad.values()))


def short(v):
    s = " ".join(repr(v).split())
    return s if len(s) < 70 else s[:67] + "..."
