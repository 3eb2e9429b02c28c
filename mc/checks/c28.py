"""C28: copies and pickles of every kind of object are equivalent to, and independent of, the original."""
import copy
import itertools
import os
import pickle
import subprocess
import sys
import tempfile
import warnings
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of histories (operations, a copy of some kind, a change of the original or of the copy) of the real objects, "
              "against the same histories replayed without a copy",
    level_note="Public state is compared; shallow copies are compared but not required to be independent, as Python defines them.",
    rule="a case is (object, operations before the copy, kind of copy); its executions are all operations afterwards on either of the two",
    bounds=dict(quick="patterns: 5 start patterns x all sequences of up to 2 of 9 operations x 7 kinds of copy x 5 changes on either side; 13 other kinds of "
                      "objects with their own operations; every pickle read once more in a fresh process", thorough="sequences of up to 3 operations"),
    assumptions=["pickle, copy and cloudpickle of the standard containers"],
)


# ------------------------------------------------------------------ observable state
def obs(o):
    import geopandas as gpd
    import libpysal as ps
    import pandas as pd
    import pointpats
    import shapely
    if o is None or isinstance(o, (bool, int, str, bytes)):
        return o
    if isinstance(o, float):
        return "nan" if o != o else o
    if isinstance(o, np.generic):
        return obs(o.item())
    if isinstance(o, np.ndarray):
        return ("a", o.shape, o.dtype.str, o.tobytes() if o.dtype.kind != "O" else repr(o.tolist()))
    if isinstance(o, shapely.Geometry):
        return o.wkb
    if isinstance(o, pointpats.PointPattern):
        return probe_pattern(o)
    if isinstance(o, ps.cg.Polygon):
        return (type(o).__name__, obs(o.parts), obs(o.holes), o.area, obs(list(o.bounding_box)), obs(list(o.centroid)))
    if isinstance(o, (gpd.GeoDataFrame, gpd.GeoSeries)):
        return ("geo", list(o.index), o.geometry.to_wkb().tolist(), str(o.crs), list(getattr(o, "columns", [])), obs(pd.DataFrame(o.drop(columns=o.geometry.name)))) if isinstance(o, gpd.GeoDataFrame) else o.to_wkb().tolist()
    if isinstance(o, pd.DataFrame):
        return ("df", list(map(repr, o.columns)), list(map(repr, o.index)), [str(t) for t in o.dtypes], repr(o.values.tolist()))
    if isinstance(o, pd.Series):
        return ("s", repr(o.name), list(map(repr, o.index)), repr(o.tolist()))
    if isinstance(o, dict):
        return ("d", [(obs(k), obs(v)) for k, v in o.items()])
    if isinstance(o, (set, frozenset)):
        return sorted(map(repr, o))
    if isinstance(o, (list, tuple)):
        return [type(o).__name__] + [obs(x) for x in o]
    raise TypeError(type(o))


def probe_pattern(p):
    out = [p.n, p.coord_names, p.df, np.asarray(p.points), p.mbb, p.window, p.lambda_window, p.lambda_mbb, p.mbb_area, p.rot, p.head(2), p.tail(1)]
    if p.n > 1:
        out += [p.nnd, p.mean_nnd, p.min_nnd, p.max_nnd, p.knn(1)[1], sorted(p.find_pairs(2.0)), p.knn_other([(0.5, 0.25)], k=2)[1]]
    if p.n > 3:
        out += [p.hull, p.hull_area, p.lambda_hull]
    out += [tuple(float(v) for v in np.asarray(p.points)[0]) in p, (99.0, 99.0) in p]
    return obs(out)


def pub(o):
    """public data attributes of a result object"""
    return {k: v for k, v in sorted(vars(o).items()) if not k.startswith("_") and not callable(v)}


def generic_probe(o):
    def conv(v):
        import pointpats
        if isinstance(v, (pointpats.RectangleM, pointpats.HexagonM)):
            return obs(list(v.point_location_sta().items())) + [obs(v.num)] + [obs({k: x for k, x in pub(v).items()})]
        if isinstance(v, (np.random.Generator,)):
            return repr(v.bit_generator.state)
        if type(v).__name__ in ("KDTree", "cKDTree"):
            return obs(np.asarray(v.data))
        return obs(v)
    return {k: conv(v) for k, v in pub(o).items()}


# ------------------------------------------------------------------ objects
def build(kind):
    """-> (object, probe, {operation: function returning the object to go on with})"""
    import geopandas as gpd
    import pointpats as pp
    from pointpats import spacetime as st
    P = np.array([(0, 0), (2, 0), (0, 1), (2, 2), (2, 0), (5, 3.5)], float)
    n = len(P)
    if kind.startswith("pattern"):
        w1 = pp.Window([[(-1, -1), (-1, 6), (7, 6), (7, -1), (-1, -1)]])
        o = dict(plain=lambda: pp.PointPattern(P.copy()), list=lambda: pp.PointPattern([(0, 0), (1, 3), (4, 1), (0, 0)]),
                 marked=lambda: pp.PointPattern(np.column_stack([np.arange(n) % 2, P, np.arange(n)]), names=["m", "lon", "lat", "v"], coord_names=["lon", "lat"], window=w1),
                 window=lambda: pp.PointPattern(P.copy(), window=w1),
                 one=lambda: pp.PointPattern(np.array([[1.0, 2.0], [3.0, 5.0]])))[kind.split()[1]]()
        return o, probe_pattern, PATTERN_OPS
    t = np.array([0, 1, 1, 3, 2, 7.0])[:, None]
    np.random.seed(5)
    if kind == "Knox":
        return st.Knox(P, t, 2.1, 1.0, permutations=9, keep=True), lambda o: obs([o.nst, o.observed, o.expected, o.p_poisson, o.p_sim, pub(o)]), {}
    if kind == "KnoxLocal":
        o = st.KnoxLocal(P, t, 2.1, 1.0, permutations=9, keep=True, crs=3857, ids=["a", "b", "c", "d", "e", "f"])

        def probe(o):
            return obs([pub(o), o.adjlist, o.hotspots(crit=.9, inference="analytic"), o.hotspots(crit=.6, keep_neighbors=False)])
        return o, probe, {"adjlist": lambda o: (o.adjlist, o)[1], "hotspots": lambda o: (o.hotspots(crit=.9, inference="analytic"), o)[1]}
    if kind.startswith("window"):
        o = dict(window=lambda: pp.Window([[(0, 0), (0, 4), (4, 4), (4, 0), (0, 0)]], [[(1, 1), (2, 1), (2, 2), (1, 2), (1, 1)]]),
                 multi=lambda: pp.as_window(pp.poly_from_bbox([0, 0, 3, 2])))[kind.split()[1]]()
        return o, lambda o: obs([o, o.filter_contained([(0.5, 0.5), (1.5, 1.5), (9, 9)]), o.contains_point((0.5, 0.5))]), {"area": lambda o: (o.area, o)[1]}
    if kind == "RectangleM" or kind == "HexagonM":
        o = pp.RectangleM(P, 2, 3) if kind == "RectangleM" else pp.HexagonM(P, 1.5)
        return o, lambda o: obs([pub(o), list(o.point_location_sta().items()), o.num]), {"count": lambda o: (o.point_location_sta(), o)[1]}
    if kind.startswith("QStatistic"):
        o = pp.QStatistic(P, shape=kind.split()[1], lh=1.5, nx=2, ny=2, realizations=3, rng=4)
        return o, generic_probe, {}
    if kind.startswith("Ripley"):
        nm = kind.split()[1]
        o = getattr(pp, nm)(P, support=np.linspace(0, 3, 4), n_simulations=2, keep_simulations=True, n_jobs=1)
        return o, lambda o: [type(o).__name__, o._fields, obs(tuple(o))], {}
    if kind.startswith("process"):
        win = pp.Window([[(0, 0), (0, 4), (4, 4), (4, 0), (0, 0)]])
        o = (pp.PoissonPointProcess(win, 4, 2, asPP="pp" in kind, conditioning="cond" in kind) if "plain" in kind else
             pp.PoissonClusterPointProcess(win, 6, 2, .5, 2, asPP="pp" in kind, keep=True))
        return o, lambda o: obs(pub(o)), {"realize": lambda o: (np.random.seed(3), o.realize(3), o)[2]}
    raise KeyError(kind)


def window2():
    import pointpats as pp
    return pp.Window([[(-3, -3), (-3, 8), (9, 8), (9, -3), (-3, -3)]])


def read_all(p):
    probe_pattern(p)
    return p


def op_marks(p):
    p.add_marks([list(range(p.n))], mark_names=["extra"])
    return p


def op_window(p):
    p.set_window(window2())
    return p


PATTERN_OPS = {
    "read": read_all, "marks": op_marks, "window": op_window, "nnd": lambda p: (p.nnd, p)[1], "area": lambda p: (p.lambda_window, p)[1],
    "unique": lambda p: p.unique(), "explode": lambda p: p.explode(p.df.columns[0])[0], "pairs": lambda p: (p.find_pairs(1.0), p.knn(1), p)[2],
}
PATTERN_OPS["automarks"] = lambda p: (p.add_marks([[7] * p.n]), p)[1]
CHANGES = ("none", "marks", "automarks", "window", "read")
PRE_OPS = [a for a in PATTERN_OPS if a not in ("area", "nnd")]


def kinds_of_copy():
    out = {"copy": copy.copy, "deepcopy": copy.deepcopy, "twice": lambda o: pickle.loads(pickle.dumps(copy.deepcopy(o)))}
    for pr in (2, 4, pickle.HIGHEST_PROTOCOL):
        out["pickle%d" % pr] = lambda o, pr=pr: pickle.loads(pickle.dumps(o, protocol=pr))
    import cloudpickle
    out["cloudpickle"] = lambda o: cloudpickle.loads(cloudpickle.dumps(o))
    return out


OTHERS = ["Knox", "KnoxLocal", "window window", "window multi", "RectangleM", "HexagonM", "QStatistic rectangle", "QStatistic hexagon",
          "Ripley f_test", "Ripley g_test", "Ripley j_test", "Ripley k_test", "Ripley l_test", "process plain", "process plain cond pp", "process cluster", "process cluster pp"]
PATTERNS = ["pattern " + s for s in ("plain", "list", "marked", "window", "one")]
KINDS = ("copy", "deepcopy", "twice", "pickle2", "pickle4", "pickle5", "cloudpickle")


def cases(tier, seed):
    L = 2 if tier == "quick" else 3
    for kind in PATTERNS:
        for k in range(L + 1):
            for pre in itertools.product(PATTERN_OPS if k < 2 else PRE_OPS, repeat=k):
                if pre.count("marks") > 1:
                    continue
                yield dict(kind=kind, pre=list(pre))
    for kind in OTHERS:
        yield dict(kind=kind, pre=[])
    yield dict(kind="processes", pre=[])


def replay(kind, pre):
    o, probe, ops = build(kind)
    for a in pre:
        o = ops[a](o)
    return o, probe, ops


def judge(case, ctx):
    warnings.simplefilter("ignore")
    if case["kind"] == "processes":
        return judge_processes(ctx)
    kind, pre = case["kind"], case["pre"]
    cop = kinds_of_copy()
    pres = [pre]
    if not kind.startswith("pattern"):
        ops = list(build(kind)[2])
        pres = [list(x) for k in (0, 1, 2) for x in itertools.product(ops, repeat=k)]
    for pre in pres:
        o, probe, ops = replay(kind, pre)
        base = probe(o) if not kind.startswith("Ripley") else None
        changes = [c for c in CHANGES if not (c == "marks" and "marks" in pre)] if kind.startswith("pattern") else ["none"] + list(ops)
        want = {}
        for c in changes:
            x, _, _ = replay(kind, pre)
            want[c] = probe(ops[c](x) if c != "none" else x) if not kind.startswith("Ripley") else None
        ctx.state(kind, repr(base)[:2000])
        for ck in KINDS:
            for c in changes:
                for side in ("copy", "original"):
                    if c == "none" and side == "original" or ck == "copy" and c not in ("none", "read"):
                        continue
                    o, _, _ = replay(kind, pre)
                    wc = dict(want)
                    if kind.startswith("Ripley"):
                        wc["none"] = probe(o)
                    what = "%s after %s: %s" % (kind, pre or "nothing", ck)
                    try:
                        d = cop[ck](o)
                    except Exception as e:
                        ctx.fail("%s raises %s (%s)" % (what, type(e).__name__, str(e)[:120]))
                    ctx.step()
                    ctx.check(type(d) is type(o), lambda: "%s is a %s" % (what, type(d).__name__))
                    a, b = (d, o) if side == "copy" else (o, d)
                    if c != "none":
                        ops[c](a)
                    ga, gb = probe(a), probe(b)
                    ctx.check(same(ga, wc[c]), lambda: "%s, then %s on the %s: the %s differs%s" % (what, c, side, side, diff(ga, wc[c])))
                    other = "original" if side == "copy" else "copy"
                    ctx.check(same(gb, wc["none"]), lambda: "%s, then %s on the %s: the %s differs%s" % (what, c, side, other, diff(gb, wc["none"])))
                    ctx.trace()
    ctx.outcome(kind, repr(want.get("none"))[:500])


def same(a, b):
    return a == b


def diff(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y) if isinstance(x, (list, tuple)) else ": %s instead of %s" % (str(x)[:100], str(y)[:100])
    return ": %s instead of %s" % (str(a)[:150], str(b)[:150])


CHILD = """
import sys, pickle
sys.path.insert(0, sys.argv[1]); sys.path.insert(0, sys.argv[2])
import core; core.prepare_env()
import tape; tape.install(); core.import_repo()
import importlib
m = importlib.import_module("checks.c28")
items = pickle.load(open(sys.argv[3], "rb"))
out = []
for kind, blob in items:
    try:
        probe = m.build(kind)[1]
        o = pickle.loads(blob)
        out.append((type(o).__module__ + "." + type(o).__name__, probe(o)))
    except Exception as e:
        out.append(("raised %s: %s" % (type(e).__name__, str(e)[:150]), None))
pickle.dump(out, open(sys.argv[4], "wb"))
"""


def judge_processes(ctx):
    """pickles written here are read in a fresh process"""
    import core
    items, want = [], []
    for kind in PATTERNS + OTHERS:
        ops = build(kind)[2]
        for pre in [()] + [(a,) for a in ops]:
            o, probe, _ = replay(kind, pre)
            items.append((kind, pickle.dumps(o)))
            want.append((type(o).__module__ + "." + type(o).__name__, probe(o), pre))
    with tempfile.TemporaryDirectory(prefix="c28-") as d:
        pickle.dump(items, open(d + "/in", "wb"))
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        r = subprocess.run([sys.executable, "-c", CHILD, core.REPO, here, d + "/in", d + "/out"], capture_output=True, text=True, timeout=300)
        ctx.check(os.path.exists(d + "/out"), lambda: "reading the pickles in a fresh process: " + r.stderr[-300:])
        got = pickle.load(open(d + "/out", "rb"))
    for (kind, _), (tw, w, pre), (tg, g) in zip(items, want, got):
        ctx.step()
        ctx.check(tg == tw and g == w, lambda: "%s after %s, pickled and read in another process: %s%s" % (kind, pre, tg, "" if tg != tw else diff(g, w)))
        ctx.trace()
