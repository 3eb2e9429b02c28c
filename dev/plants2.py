PLANTS = [
dict(id="c02-knn-other-first-columns", property="C02",
 edits=[("pointpattern.py", "            nn = self.tree.query(np.asarray(other.points), k=k)\n", "            other.points  # patterns only\n            nn = self.tree.query(other.df.iloc[:, :2].to_numpy(), k=k)\n")],
 demo='''
import numpy as np
from pointpats import PointPattern
pp = PointPattern([[0., 0.], [5., 0.], [0., 5.], [9., 9.]])
other = PointPattern([[100., 4., 0.], [7., 8., 9.]], names=["m", "x", "y"], coord_names=["x", "y"])
nn, d = pp.knn_other(other, k=1)
assert list(np.ravel(nn)) == [1, 3], nn
assert np.allclose(np.ravel(d), 1.0), d
''', needs="a query pattern whose coordinates are not its first two columns",
 breaks="knn_other takes the first two columns of the other pattern as its coordinates"),
dict(id="c03-superimpose-by-location", property="C03",
 edits=[("pointpattern.py", "        pp = pp.drop_duplicates()\n", "        pp = pp.drop_duplicates(subset=list(cnames_pp1))\n")],
 demo='''
from pointpats import PointPattern
a = PointPattern([[0., 0., 1], [1., 5., 2]], names=["x", "y", "m"])
b = PointPattern([[0., 0., 2], [4., 1., 1]], names=["x", "y", "m"])
s = a.superimpose(b)
assert s.df.values.tolist() == [[0, 0, 1], [1, 5, 2], [0, 0, 2], [4, 1, 1]], s.df
''', needs="two patterns that share a location with different marks",
 breaks="superimpose drops events that differ only in their marks"),
dict(id="c04-unordered-simulations", property="C04",
 edits=[("distance_statistics.py", "        simulations_list = Parallel(n_jobs=n_jobs)(\n", "        simulations_list = Parallel(n_jobs=n_jobs, return_as=\"generator_unordered\")(\n"),
        ("distance_statistics.py", "        simulations_array = numpy.array(simulations_list)\n", "        simulations_array = numpy.array(list(simulations_list))\n")],
 demo='''
import time
import numpy as np
import joblib
from pointpats import distance_statistics as ds
calls = []
real = ds._run_one_ripley_simulation
def sim(*a, **k):
    i = len(calls)
    calls.append(i)
    time.sleep(0.6 if i == 0 else 0.05)
    return np.full(len(a[-1]), float(i))
ds._run_one_ripley_simulation = sim
pts = np.random.default_rng(0).random((12, 2))
with joblib.parallel_config(backend="threading"):
    r = ds.g_test(pts, support=5, n_simulations=6, n_jobs=2, keep_simulations=True)
assert r.simulations[:, 0].tolist() == [0, 1, 2, 3, 4, 5], r.simulations[:, 0]
''', needs="a parallel run in which a later simulation finishes before an earlier one",
 breaks="the simulations kept are in order of completion, which depends on the number of workers and on the schedule"),
dict(id="c05-delaunay-cache-by-vertices", property="C05",
 edits=[("geometry.py", "    exterior = shape.points[shape.vertices]\n    delaunay = spatial.Delaunay(exterior)\n    return contains(delaunay, x, y)\n",
         "    key = (len(shape.points), shape.vertices.tobytes())\n    if key not in _HULL_TRIANGULATIONS:\n        _HULL_TRIANGULATIONS[key] = spatial.Delaunay(shape.points[shape.vertices])\n    return contains(_HULL_TRIANGULATIONS[key], x, y)\n\n\n_HULL_TRIANGULATIONS = {}\n")],
 demo='''
import numpy as np
from scipy.spatial import ConvexHull
from pointpats.geometry import contains
sq = np.array([[0., 0.], [4., 0.], [4., 4.], [0., 4.]])
a, b = ConvexHull(sq), ConvexHull(sq + 100)
assert contains(a, 1., 1.) and not contains(a, 101., 101.)
assert contains(b, 101., 101.) and not contains(b, 1., 1.)
''', needs="two convex hulls of equally many points with the same vertex numbers in one process",
 breaks="the triangulation of an earlier hull answers containment for a different one"),
dict(id="c06-nearly-straight-corner", property="C06",
 edits=[("centrography.py", "    if np.abs(angle - np.pi) < 1e-5:  # angle is pi\n", "    if np.abs(angle - np.pi) < 1e-2:  # angle is pi\n")],
 demo='''
import numpy as np
from pointpats.centrography import minimum_bounding_circle
# two long sides meeting at an angle close to pi, capped far away on both sides
rng = np.random.default_rng(0)
bad = 0
for h in (0.001, 0.002, 0.003, 0.004):
    pts = np.array([[-1.0, 0.0], [1.0, 0.0], [0.0, h], [0.0, -0.2]])
    (x, y), r = minimum_bounding_circle(pts)
    d = np.hypot(pts[:, 0] - x, pts[:, 1] - y).max()
    bad += d > r * (1 + 1e-6) or r > 1.0 + 1e-6
    ang = np.linspace(0.3, 0.3 + 0.004, 3)
    pts = np.vstack([np.c_[np.cos(ang), np.sin(ang)], [[0.96, 0.2]], [[0.9, 0.3]]])
    (x, y), r = minimum_bounding_circle(pts)
    d = np.hypot(pts[:, 0] - x, pts[:, 1] - y).max()
    bad += d > r * (1 + 1e-6)
    n = 2000
    ang = np.linspace(0, np.pi, n)
    pts = np.c_[np.cos(ang), np.sin(ang)] * 10
    (x, y), r = minimum_bounding_circle(pts)
    d = np.hypot(pts[:, 0] - x, pts[:, 1] - y).max()
    bad += d > r * (1 + 1e-6) or abs(r - 10) > 1e-4
assert not bad, bad
''', needs="hull corners whose angle is within half a degree of straight, as on a finely sampled arc",
 breaks="corners that are nearly straight are treated as straight, so the circle is not the smallest or does not contain every point"),
dict(id="c07-mean-center-single-precision", property="C07",
 edits=[("centrography.py", "    return points.mean(axis=0)\n\n\n@mean_center.register\n", "    return points.mean(axis=0, dtype=np.float32).astype(float)\n\n\n@mean_center.register\n")],
 demo='''
import numpy as np
from pointpats.centrography import mean_center
p = np.array([[500000.25, 4649776.5], [500000.75, 4649776.5], [500001.25, 4649777.25]])
assert np.allclose(mean_center(p), [500000.75, 4649776.75], rtol=0, atol=1e-3), mean_center(p)
''', needs="coordinates that are large against the extent of the pattern, as in projected coordinates",
 breaks="the mean centre is accumulated in single precision and is off by metres, so it does not move with the pattern"),
dict(id="c08-effective-number-of-points", property="C08",
 edits=[("centrography.py", "    n = len(points)\n    if method == \"crimestat\":\n", "    n = sumw\n\n    if method == \"crimestat\":\n")],
 demo='''
import numpy as np
from pointpats.centrography import ellipse
p = np.array([[0., 0.], [4., 1.], [1., 3.], [6., 5.], [2., 7.]])
w = np.array([1., 2., 1., 3., 1.])
a, b = ellipse(p, weights=w), ellipse(p, weights=10 * w)
assert np.allclose(a[:2], b[:2]), (a, b)
''', needs="weights whose sum is not the number of points",
 breaks="the degrees-of-freedom correction uses the sum of the weights, so scaling the weights changes the ellipse"),
dict(id="c09-f-matrix-by-pattern-point", property="C09",
 edits=[("distance_statistics.py", "            elif k == n:\n                distances = distances.min(axis=0)\n", "            elif k == n:\n                distances = distances.min(axis=1)\n")],
 demo='''
import numpy as np
from scipy.spatial.distance import cdist
from pointpats import f
pts = np.array([[0., 0.], [4., 0.], [0., 4.]])
empty = np.array([[1., 0.], [2., 2.], [4., 4.], [0., 1.], [9., 9.]])
s, v = f(pts, support=np.array([0., 1.5, 3.5, 20.]), distances=cdist(pts, empty))
assert np.allclose(v, [0, .4, .6, 1]), v
''', needs="a rectangular matrix of distances from the pattern to the empty-space points",
 breaks="F counts pattern points by their nearest empty-space point instead of the reverse"),
dict(id="c10-metric-lost-in-simulations", property="C10",
 edits=[("distance_statistics.py", "                metric,\n                empty_space_points,\n                core_kwargs,\n                observed_support,\n", "                \"euclidean\",\n                empty_space_points,\n                core_kwargs,\n                observed_support,\n")],
 demo='''
import numpy as np
import pointpats.distance_statistics as ds
from scipy.spatial.distance import cdist
pts = np.random.default_rng(5).random((10, 2))
sims = []
real = ds.poisson
def rec(hull, **kw):
    r = real(hull, rng=len(sims), **kw)
    sims.append(r)
    return r
ds.poisson = rec
r = ds.f_test(pts, support=(0., 1., 6), metric="manhattan", n_simulations=3, n_jobs=1, keep_simulations=True)
empty = sims[0]
for row, sim in zip(r.simulations, sims[1:]):
    d = cdist(sim, empty, "cityblock").min(axis=0)
    want = [(d < s).mean() for s in r.support]
    assert np.allclose(row, want, atol=1e-9), (row, want)
''', needs="a test of F or J with a metric other than the Euclidean",
 breaks="the observed statistic uses the requested metric while the simulated ones use Euclidean distances"),
dict(id="c11-hexagon-last-row", property="C11",
 edits=[("quadrat_statistics.py", "        if self.semi_height < range_y:\n", "        if 1.5 * self.semi_height < range_y:\n")],
 demo='''
import numpy as np
from pointpats.quadrat_statistics import HexagonM
lh = 1.0
sh = lh * np.sqrt(3) / 2
y = 1.3 * sh
p = np.array([[0., 0.], [3., y], [0., y], [1.5, 0.4]])
m = HexagonM(p, lh)
cells = m.point_location_sta()
fig_ax, ids = m.plot()
polys = {i: q for i, q, _ in m._iter_cells()}
from shapely import Point
assert sum(cells.values()) == 4
for pt in p:
    assert any(polys[i].buffer(1e-9).covers(Point(pt)) for i in cells), (pt, cells)
''', needs="a bounding box whose height is between 1 and 1.5 times the half height of a cell",
 breaks="the upper row of hexagons is missing, so points near the top are counted in a cell that does not contain them"),
dict(id="c15-radius-of-first-replication", property="C15",
 edits=[("random.py", "            cluster_radii = [spatial.distance.pdist(seeds).min() * 0.5] * n_seeds\n", "            cluster_radius = spatial.distance.pdist(seeds).min() * 0.5\n            cluster_radii = [cluster_radius] * n_seeds\n")],
 demo='''
import numpy as np
from scipy.spatial.distance import pdist
from pointpats.random import cluster_poisson
h = np.array([0., 0., 10., 10.])
for s in range(20):
    r = cluster_poisson(h, size=(30, 4), n_seeds=3, rng=s)
    for rep in r:
        blocks = np.array_split(rep, 3)
        seeds = np.array([b[0] for b in blocks])
        rad = pdist(seeds).min() / 2
        for b in blocks:
            assert np.hypot(*(b - b[0]).T).max() <= rad + 1e-9
''', needs="several replications with the default cluster radius",
 breaks="every replication uses the radius derived from the seeds of the first one"),
dict(id="c16-num-parents-counts-events", property="C16",
 edits=[("process.py", "                self.num_parents[i] = _l\n", "                self.num_parents[i] = num\n")],
 demo='''
import warnings
import numpy as np
warnings.simplefilter("ignore")
from pointpats import Window, PoissonClusterPointProcess
w = Window([[(0, 0), (0, 4), (4, 4), (4, 0), (0, 0)]])
np.random.seed(3)
c = PoissonClusterPointProcess(w, 12, 4, 0.3, 5, conditioning=True)
for i in range(5):
    assert c.num_parents[i] * c.children == c.parameters[i]["n"] == len(c.realizations[i])
''', needs="a conditioned cluster process with more than one child per parent",
 breaks="num_parents holds the number of events instead of the number of parents"),
dict(id="c17-integer-times-in-knox", property="C17",
 edits=[("spacetime.py", "    d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]) ** 2\n    n_st", "    d_t = (t_coords[ids[:, 0]] - t_coords[ids[:, 1]]).astype(int) ** 2\n    n_st")],
 demo='''
import warnings
import numpy as np
warnings.simplefilter("ignore")
from pointpats import knox
s = np.array([[0., 0.], [0., 1.], [1., 0.], [9., 9.]])
t = np.array([[0.], [1.5], [3.9], [0.]])
assert knox(s, t, delta=2, tau=1, permutations=0)["stat"] == 0
''', needs="times that are not whole numbers",
 breaks="time differences are truncated, so pairs further apart in time than tau are counted"),
dict(id="c19-neighbours-of-focal-only", property="C19",
 edits=[("spacetime.py", "            (self.adjlist.focal.isin(pdf_sig.index.values))\n            | self.adjlist.neighbor.isin(pdf_sig.index.values)\n", "            self.adjlist.focal.isin(pdf_sig.index.values)\n")],
 demo='''
import numpy as np
from pointpats import KnoxLocal
s = np.array([[0., 0.], [0., 1.], [1., 0.], [9., 9.], [9., 8.], [30., 30.], [40., 40.], [50., 50.]])
t = np.array([[0.], [0.], [0.], [7.], [7.], [20.], [30.], [40.]])
k = KnoxLocal(s, t, 1.2, 1.0, permutations=0)
p = np.asarray(k.p_hypergeom)
for crit in np.unique(p):
    h = k.hotspots(crit=crit, inference="analytic")
    sig = {i for i in range(8) if p[i] <= crit}
    adj = set(map(tuple, k.adjlist[["focal", "neighbor"]].values.tolist()))
    nb = {j for i, j in adj if i in sig}
    assert sorted(h.focal) == sorted(sig | nb), (crit, h)
    for _, row in h.iterrows():
        assert row.focal_time == t[int(row.focal), 0]
    col = dict(zip(h.focal, h.neighbor.isna()))
    for i, j in adj:
        if i in sig:
            assert not col[i] and not col[j], (crit, h)
''', needs="a neighbour of a significant event that is not itself significant",
 breaks="the rows of the neighbours lose their link to the significant event"),
dict(id="c20-jacquez-coincident-events", property="C20",
 edits=[("spacetime.py", "    knns = lps.weights.KNN.from_array(space, k)\n\n    nnt = knnt.neighbors\n", "    knns = lps.weights.KNN.from_array(np.round(space, 2), k)\n    nnt = knnt.neighbors\n")],
 demo='''
import numpy as np
from pointpats import jacquez
s = np.array([[0., 0.], [.001, 0.], [.003, 0.], [.0062, 0.], [.0104, 0.], [.0167, 0.]])
t = np.array([[0.], [1.], [3.], [6.2], [10.4], [16.7]])
a = jacquez(s, t, k=2, permutations=0)
b = jacquez(s * 1000, t, k=2, permutations=0)
assert a == b == 12, (a, b)
''', needs="coordinates in small units",
 breaks="locations are rounded before the neighbours are searched"),
dict(id="c21-first-date-of-file", property="C21",
 edits=[("spacetime.py", "                col = [(d - day1).days for d in col]\n", "                col = [(d - day1).days % 365 for d in col]\n")],
 demo='''
import datetime, os, tempfile
import numpy as np
import geopandas as gpd
from libpysal.io import open as popen
from libpysal.cg import Point
from pointpats import SpaceTimeEvents
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "e.shp")
    shp = popen(p, "w")
    for q in ((0., 0.), (1., 2.), (3., 1.)):
        shp.write(Point(q))
    shp.close()
    dbf = popen(os.path.join(d, "e.dbf"), "w")
    dbf.header = ["T"]
    dbf.field_spec = [("D", 8, 0)]
    for q in (datetime.date(2000, 1, 1), datetime.date(2002, 1, 1), datetime.date(2000, 3, 1)):
        dbf.write([q])
    dbf.close()
    e = SpaceTimeEvents(p, "T", infer_timestamp=True)
    assert e.t.ravel().tolist() == [0, 731, 60], e.t
''', needs="dates more than a year apart",
 breaks="days are counted within the year"),
dict(id="c22-jacquez-shuffles-times", property="C22",
 edits=[("spacetime.py", "        trand = np.random.permutation(time)\n", "        trand = time\n        np.random.shuffle(trand)\n")],
 demo='''
import numpy as np
from pointpats import jacquez
s = np.random.default_rng(0).random((8, 2))
t = np.arange(8.0).reshape(-1, 1)
np.random.seed(1)
jacquez(s, t, k=2, permutations=3)
assert (t.ravel() == np.arange(8.0)).all(), t.ravel()
''', needs="the times used again after a jacquez call with permutations",
 breaks="jacquez shuffles the caller's array of times in place"),
dict(id="c24-resolution-pair-swapped", property="C24",
 edits=[("kde.py", "            x_res, y_res = resolution\n", "            y_res, x_res = resolution\n")],
 demo='''
import numpy as np
import matplotlib
matplotlib.use("Agg")
from pointpats import plot_density
class Ax:
    def set_aspect(self, *a, **k): pass
    def contour(self, x, y, z, **k): self.g = (x, y, z)
ax = Ax()
plot_density(np.array([[0., 0.], [4., 1.], [2., 3.]]), 1.0, resolution=(7, 4), ax=ax)
x, y, z = ax.g
assert z.shape == (4, 7) and len(np.unique(np.round(x, 9))) == 7, z.shape
''', needs="a resolution pair with different numbers",
 breaks="the first number is used for y and the second for x"),
dict(id="c25-neighbour-colour-last", property="C25",
 edits=[("spacetime.py", "        g.loc[neighbors, \"color\"] = colors[\"neighbor\"]\n        g.loc[g.pvalue <= crit, \"color\"] = colors[\"focal\"]\n        m = g[", "        g.loc[g.pvalue <= crit, \"color\"] = colors[\"focal\"]\n        g.loc[neighbors, \"color\"] = colors[\"neighbor\"]\n        m = g[")],
 demo='''
import numpy as np
import matplotlib
matplotlib.use("Agg")
from matplotlib.colors import to_rgba
from pointpats import KnoxLocal
s = np.array([[0., 0.], [0., 1.], [1., 0.], [9., 9.], [9., 8.], [30., 30.], [40., 40.], [50., 50.]])
t = np.array([[0.], [0.], [0.], [7.], [7.], [20.], [30.], [40.]])
k = KnoxLocal(s, t, 1.6, 1.0, permutations=0)
crit = float(np.sort(k.p_hypergeom)[2])
ax = k.plot(crit=crit, inference="analytic", plot_edges=False)
got = {}
for c in ax.collections:
    for xy, fc in zip(np.asarray(c.get_offsets()), np.resize(c.get_facecolor(), (len(c.get_offsets()), 4))):
        got[tuple(xy.tolist())] = tuple(fc)
for i in range(8):
    if k.p_hypergeom[i] <= crit:
        assert got[tuple(s[i])] == to_rgba("red"), (i, got)
''', needs="significant events that are neighbours of each other",
 breaks="significant events next to another significant one are drawn as mere neighbours"),
]
