WIN = 'w = Window([[(0, 0), (0, 4), (4, 4), (4, 0), (0, 0)]])\n'
PLANTS = [
dict(id="c01-rot-from-window", property="C01",
 edits=[("pointpattern.py", "        w, s, e, n = self.mbb\n        return 0.25", "        w, s, e, n = self.window.bbox\n        return 0.25")],
 demo='''
from pointpats import PointPattern, Window
pp = PointPattern([[0, 0], [2, 0], [0, 2], [1, 1]], window=Window([[(-5, -5), (-5, 5), (5, 5), (5, -5), (-5, -5)]]))
assert pp.rot == 0.5, pp.rot
''', needs="a window that is not the bounding box of the points",
 breaks="the rule-of-thumb range comes from the window instead of the bounding box of the points"),
dict(id="c02-min-nnd-ignores-coincident", property="C02",
 edits=[("pointpattern.py", "        return self.nnd.min()\n", "        return self.nnd[self.nnd > 0].min(initial=np.inf)\n")],
 demo='''
from pointpats import PointPattern
pp = PointPattern([[0, 0], [0, 0], [3, 4], [9, 9]])
assert pp.min_nnd == 0, pp.min_nnd
''', needs="coincident points", breaks="the minimum nearest-neighbour distance leaves out distances of zero"),
dict(id="c03-explode-first-seen-order", property="C03",
 edits=[("pointpattern.py", "        uv = np.unique(self.df[mark])\n", "        uv = self.df[mark].unique()\n")],
 demo='''
from pointpats import PointPattern
a = PointPattern([[0., 0., 2], [1., 5., 1], [4., 4., 2]], names=["x", "y", "m"])
assert [p.df["m"].iloc[0] for p in a.explode("m")] == [1, 2]
''', needs="marks that do not appear in ascending order", breaks="the patterns come in the order in which the marks appear"),
dict(id="c04-cache-reread", property="C04",
 edits=[("util.py", "        ret = self._cache[fun] = fun(self)\n        return ret\n", "        self._cache[fun] = fun(self)\n        return self._cache[fun]\n")],
 demo='''
import sys, threading, time
from pointpats import PointPattern, util
pp = PointPattern([[0, 0], [2, 0], [0, 2], [1, 1]])
if hasattr(pp, "_cache"):
    del pp._cache
stored, reset = threading.Event(), threading.Event()
src = open(util.__file__).read().split("\\n")
def tracer(who):
    seen = [False]
    def t(frame, event, arg):
        if frame.f_code.co_filename != util.__file__:
            return t if event == "call" else None
        if event == "line":
            line = src[frame.f_lineno - 1].strip()
            if who == "b" and line == "self._cache = {}":
                stored.wait(3)
            if who == "a" and line == "self._cache = {}":
                seen[0] = True
            if who == "a" and seen[0] and line == "return self._cache[fun]":
                stored.set()
                reset.wait(3)
        if who == "b" and event == "return":
            reset.set()
        return t
    return t
out = {}
def read(who, name):
    time.sleep(0.2 if who == "a" else 0)
    sys.settrace(tracer(who))
    try:
        out[who] = getattr(pp, name) if who == "b" else pp.mbb.tolist()
    except Exception as e:
        out[who] = e
    sys.settrace(None)
th = [threading.Thread(target=read, args=x) for x in (("b", "n"), ("a", "rot0"))]
[x.start() for x in th]
[x.join() for x in th]
assert out == {"a": [0, 0, 2, 2], "b": 4}, out
''', needs="two threads reading attributes of a fresh pattern, one replacing the cache between the other's store and read",
 breaks="the value just computed is read back from the cache, which another thread may have replaced, so a read fails with KeyError"),
dict(id="c05-quadrilateral-is-its-box", property="C05",
 edits=[("window.py", "        return [np.asarray(pnt) for pnt in points if self.contains_point(pnt)]\n",
 "        if len(self.parts) == 1 and len(self.parts[0]) == 5 and not any(self.holes):\n            # a rectangle\n            w, s, e, n = self.bounding_box\n            return [\n                np.asarray(pnt)\n                for pnt in points\n                if w <= pnt[0] <= e and s <= pnt[1] <= n\n            ]\n        return [np.asarray(pnt) for pnt in points if self.contains_point(pnt)]\n")],
 demo='''
from pointpats import Window
w = Window([[(0, 2), (2, 4), (4, 2), (2, 0), (0, 2)]])
got = [tuple(map(float, p)) for p in w.filter_contained([(0.1, 0.1), (2, 2), (3.9, 3.9), (1, 2)])]
assert got == [(2, 2), (1, 2)], got
''', needs="a window with four corners that is not an axis-aligned rectangle",
 breaks="filter_contained keeps every point of the bounding box of such a window"),
dict(id="c09-truncate-infinite-only", property="C09",
 edits=[("distance_statistics.py", "    is_invalid = numpy.isinf(realizations) | numpy.isnan(realizations)\n", "    is_invalid = numpy.isinf(realizations)\n")],
 demo='''
import warnings
import numpy as np
warnings.simplefilter("ignore")
from pointpats import j
p = np.array([[0., 0.], [1., 0.], [0., 1.], [1., 1.]])
s, v = j(p, support=np.array([0., .5, 1.5, 2., 3.]), distances=(np.ones(4), np.array([.2, .3, 1.2, 1.4])))
assert np.isfinite(v).all() and len(s) == len(v) == 2, (s, v)
''', needs="a support that reaches distances at which both fractions are one",
 breaks="undefined values stay in a truncated J function"),
dict(id="c10-sizes-drawn-at-random", property="C10",
 edits=[("distance_statistics.py", "    random_i = poisson(hull, size=n_observations)\n", "    random_i = poisson(hull, intensity=n_observations / _area(hull), size=1)\n    if len(random_i) == 2:\n        random_i = numpy.atleast_2d(random_i)[:1]\n")],
 demo='''
import numpy as np
import pointpats.distance_statistics as ds
sizes = []
real = ds.g
def g(c, **k):
    sizes.append(len(c))
    return real(c, **k)
ds._ripley_dispatch["G"] = (g, ds.GtestResult)
ds.g_test(np.array([[0., 0.], [1., 2.]]), support=np.array([0., 1., 3.]), n_simulations=2, n_jobs=1)
''', needs="a pattern of two points", breaks="simulations of a two-point pattern have one point"),
dict(id="c11-odd-rows-short", property="C11",
 edits=[("quadrat_statistics.py", "        self.count_row_odd = int(math.ceil(range_y / (2.0 * self.semi_height)))\n", "        self.count_row_odd = max(\n            1, int(math.ceil(range_y / (2.0 * self.semi_height) - 0.25))\n        )\n")],
 demo='''
import numpy as np
from shapely import Point
from pointpats.quadrat_statistics import HexagonM
lh = 1.0
sh = lh * np.sqrt(3) / 2
p = np.array([[0., 0.], [1.5, 2.3 * sh], [3., 0.], [1.5, 2.25 * sh]])
m = HexagonM(p, lh)
counts = m.point_location_sta()
polys = {i: q for i, q, _ in m._iter_cells()}
for pt in p:
    assert any(polys[i].buffer(1e-9).covers(Point(pt)) and counts[i] for i in counts), (pt, counts)
''', needs="a bounding box that reaches a little into the last row of the odd columns",
 breaks="the odd columns lack their last row and its points are counted in the cell below"),
dict(id="c12-intensity-of-convex-window", property="C12",
 edits=[("quadrat_statistics.py", "            intensity = n / float(self.window.area)\n", "            intensity = n / float(self.window.convex_hull.area)\n")],
 demo='''
import numpy as np
import shapely
import pointpats.quadrat_statistics as q
p = np.array([[.5, .5], [.6, 3.], [3., .4], [.2, 2.], [2., .3], [.7, .7], [3.5, .5], [.5, 3.6]])
win = shapely.Polygon([(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)])
sims = []
real = q.poisson
def rec(*a, **k):
    r = real(*a, **k)
    sims.append(r)
    return r
q.poisson = rec
q.QStatistic(p, realizations=3, window=win, rng=1)
assert np.shape(sims[0]) == (3, 8, 2), np.shape(sims[0])
''', needs="a window that is not convex", breaks="simulated patterns have fewer points than the observed one"),
dict(id="c13-circle-inside-bbox", property="C13",
 edits=[("random.py", "        if hull is None:\n            in_hull = True\n", "        if hull is None or numpy.all(\n            [\n                _bbox(hull)[0] <= center_x - r,\n                _bbox(hull)[1] <= center_y - r,\n                _bbox(hull)[2] >= center_x + r,\n                _bbox(hull)[3] >= center_y + r,\n            ]\n        ):\n            in_hull = True\n")],
 demo='''
import numpy as np
import shapely
from pointpats.random import cluster_poisson
hull = shapely.Polygon([(0, 0), (10, 0), (10, 10), (0, 10)], [[(1, 1), (9, 1), (9, 9), (1, 9)]])
for s in range(5):
    p = cluster_poisson(hull, size=60, n_seeds=6, cluster_radius=.6, rng=s)
    assert all(hull.contains(shapely.Point(*q)) for q in p)
''', needs="a cluster whose circle lies inside the bounding box but not inside the hull",
 breaks="the containment test is skipped when the circle lies inside the bounding box of the hull"),
dict(id="c14-private-shuffle", property="C14",
 edits=[("process.py", "        np.random.shuffle(res)  # so we don't truncate in a biased fashion\n", "        # so we don't truncate in a biased fashion\n        res = np.random.default_rng().permutation(res)\n")],
 demo='''
import warnings
import numpy as np
warnings.simplefilter("ignore")
from pointpats import Window, PoissonClusterPointProcess
''' + WIN + '''
out = []
for _ in range(2):
    np.random.seed(5)
    c = PoissonClusterPointProcess(w, 12, 3, 0.4, 2)
    out.append(np.vstack([c.realizations[i] for i in range(2)]))
assert np.array_equal(*out)
''', needs="two runs of a cluster process from the same numpy.random.seed",
 breaks="the order (and the truncation) of cluster realizations no longer follows numpy.random.seed"),
dict(id="c16-aspp-default-window", property="C16",
 edits=[("process.py", "                self.realizations[sample] = PointPattern(points, window=self.window)\n", "                self.realizations[sample] = PointPattern(\n                    points, window=self.window if self.conditioning else None\n                )\n")],
 demo='''
import warnings
import numpy as np
warnings.simplefilter("ignore")
from pointpats import Window, PoissonPointProcess
''' + WIN + '''
np.random.seed(1)
c = PoissonPointProcess(w, 6, 2, asPP=True)
assert all(c.realizations[i].window.area == 16 for i in range(2)), [c.realizations[i].window.area for i in range(2)]
''', needs="asPP=True without conditioning", breaks="the patterns carry their own bounding box as window"),
dict(id="c18-jacquez-bootstrap", property="C18",
 edits=[("spacetime.py", "        trand = np.random.permutation(time)\n", "        trand = time[np.random.randint(0, n, size=n)]\n")],
 demo='''
import numpy as np
import libpysal as lps
from pointpats import jacquez
s = np.random.default_rng(0).random((9, 2))
t = np.arange(9.0).reshape(-1, 1) ** 1.5
real = lps.weights.KNN.from_array
seen = []
def rec(a, k):
    seen.append(np.array(a))
    return real(a, k)
lps.weights.KNN.from_array = rec
np.random.seed(0)
jacquez(s, t, k=2, permutations=5)
for a in seen:
    if a.shape[1] == 1:
        assert sorted(a.ravel()) == sorted(t.ravel()), a.ravel()
''', needs="a look at the relabelled times", breaks="times are drawn with replacement instead of permuted"),
dict(id="c21-whole-number-times", property="C21",
 edits=[("spacetime.py", "        else:\n            t = np.array(dbf.by_col(time_col))\n", "        else:\n            t = np.array(dbf.by_col(time_col)).astype(int)\n")],
 demo='''
import os, tempfile
import numpy as np
from libpysal.io import open as popen
from libpysal.cg import Point
from pointpats import SpaceTimeEvents
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "e.shp")
    shp = popen(p, "w")
    for q in ((0., 0.), (1., 2.), (3., 1.)):
        shp.write(Point(q))
    shp.close()
    dbf = popen(os.path.join(d, "e.dbf"), "w")
    dbf.header = ["T"]
    dbf.field_spec = [("N", 12, 3)]
    for q in (0.25, 1.5, 7.875):
        dbf.write([q])
    dbf.close()
    e = SpaceTimeEvents(p, "T")
    assert e.t.ravel().tolist() == [0.25, 1.5, 7.875], e.t
''', needs="times that are not whole numbers", breaks="times are truncated to integers"),
dict(id="c22-edge-kwargs-updated", property="C22",
 edits=[("spacetime.py", "            lines.plot(ax=m, color=edge_color, **edge_kwargs)\n", "            edge_kwargs.setdefault(\"color\", edge_color)\n            lines.plot(ax=m, **edge_kwargs)\n")],
 demo='''
import numpy as np
import matplotlib
matplotlib.use("Agg")
from pointpats import KnoxLocal
s = np.array([[0., 0.], [0., 1.], [1., 0.], [9., 9.], [9., 8.], [30., 30.], [40., 40.], [50., 50.]])
t = np.array([[0.], [0.], [0.], [7.], [7.], [20.], [30.], [40.]])
k = KnoxLocal(s, t, 1.6, 1.0, permutations=0)
kw = {"linewidth": 2}
k.plot(crit=.5, inference="analytic", edge_kwargs=kw)
assert kw == {"linewidth": 2}, kw
''', needs="edge keywords reused for a second plot with another edge colour",
 breaks="plot adds the edge colour to the caller's edge_kwargs, so later plots keep it"),
dict(id="c23-quadrat-first-columns", property="C23",
 edits=[("quadrat_statistics.py", "        return points.points.values\n", "        return points.df.to_numpy()[:, :2]\n")],
 demo='''
import numpy as np
from pointpats import PointPattern, RectangleM
xy = np.array([[0., 0.], [4., 1.], [2., 3.], [1., 1.]])
pp = PointPattern([[9., *r] for r in xy + 0.0], names=["m", "x", "y"], coord_names=["x", "y"])
assert RectangleM(pp, 2, 2).mbb.tolist() == RectangleM(xy, 2, 2).mbb.tolist()
''', needs="a pattern whose first columns are not its coordinates",
 breaks="quadrat counts of a PointPattern take its first two columns as coordinates"),
dict(id="c24-multipoint-centroids", property="C24",
 edits=[("kde.py", "        data = data.get_coordinates().values\n", "        data = data.centroid.get_coordinates().values\n")],
 demo='''
import numpy as np
import geopandas as gpd
import shapely
from pointpats import plot_density
class Ax:
    def set_aspect(self, *a, **k): pass
    def contour(self, x, y, z, **k): self.g = (x, y, z)
P = np.array([[0., 0.], [4., 1.], [2., 3.], [1., 1.]])
a, b = Ax(), Ax()
plot_density(P, 1.0, resolution=5, ax=a)
plot_density(gpd.GeoSeries([shapely.MultiPoint(P[:2]), shapely.MultiPoint(P[2:])]), 1.0, resolution=5, ax=b)
assert np.allclose(a.g[2], b.g[2]) and np.allclose(a.g[0], b.g[0])
''', needs="multipoint geometries", breaks="a multipoint contributes its centroid instead of its points"),
dict(id="c25-window-of-one-part", property="C25",
 edits=[("pointpattern.py", "            for part in self.window.parts:\n", "            for part in [self.window.vertices]:\n")],
 demo='''
import matplotlib
matplotlib.use("Agg")
from pointpats import PointPattern, Window
w = Window([[(0, 0), (0, 1), (1, 1), (1, 0), (0, 0)], [(3, 3), (3, 4), (4, 4), (4, 3), (3, 3)]])
ax = PointPattern([[.5, .5], [3.5, 3.5], [.2, .4]], window=w).plot(window=True, get_ax=True)
assert sum(len(c.get_paths()) for c in ax.collections) == 2
''', needs="a window of several parts", breaks="the parts of the window are drawn as one joined polygon"),
]
