"""dev: planted bugs, ninth batch"""
PLANTS = [
dict(id="c22-tree-by-identity", property="C22",
 edits=[("geometry.py", "    return tree(coordinates)", "    key = id(coordinates), coordinates.shape, metric if isinstance(metric, str) else id(metric)\n    if key not in _trees:\n        _trees[key] = tree(coordinates), coordinates\n    return _trees[key][0]"),
        ("geometry.py", "def build_best_tree(coordinates, metric):", "_trees = {}\n\n\ndef build_best_tree(coordinates, metric):")],
 demo='''
import numpy as np
from pointpats import g
P = np.random.default_rng(0).random((200, 2)); s = np.array([.005, .01, .02, .04, .06])
Q = np.random.default_rng(1).random((200, 2))
want = g(Q.copy(), support=s)[1]
g(P, support=s)
P[:] = Q
assert np.allclose(g(P, support=s)[1], want)
''', needs="an array whose contents change between two calls", breaks="the search tree of the old contents is used"),
dict(id="c24-some-points", property="C24",
 edits=[("kde.py", "        if not data.geom_type.str.contains(\"Point\").all():", "        if not data.geom_type.str.contains(\"Point\").any():")],
 demo='''
import geopandas as gpd, shapely, matplotlib; matplotlib.use("agg")
from pointpats import plot_density
g = gpd.GeoSeries([shapely.Point(0, 0), shapely.Point(1, 2), shapely.LineString([(0, 1), (2, 2)]), shapely.Point(3, 1)])
try: plot_density(g, .5, resolution=10)
except ValueError: pass
else: raise SystemExit(1)
''', needs="points and other geometries mixed", breaks="vertices of lines are taken for points"),
dict(id="c05-repeated-points-once", property="C05",
 edits=[("window.py", "        return [np.asarray(pnt) for pnt in points if self.contains_point(pnt)]", "        known = {}\n        for pnt in points:\n            known.setdefault(tuple(np.ravel(pnt).tolist()), np.asarray(pnt))\n        return [pnt for pnt in known.values() if self.contains_point(pnt)]")],
 demo='''
from pointpats import Window
w = Window([[(0, 0), (0, 2), (2, 2), (2, 0), (0, 0)]])
assert len(w.filter_contained([(1, 1), (.5, 1), (1, 1), (3, 1)])) == 3
''', needs="a point given twice", breaks="it is returned once"),
dict(id="c18-knox-narrow-counts", property="C18",
 edits=[("spacetime.py", "        joint = np.zeros((permutations, 1), int)", "        joint = np.zeros((permutations, 1), np.uint8)")],
 demo='''
import numpy as np, warnings
warnings.simplefilter("ignore")
from pointpats import knox
r = np.random.default_rng(0)
S, T = r.random((60, 2)), r.random((60, 1))
a, b = np.triu_indices(60, 1)
near = np.hypot(*(S[a] - S[b]).T) <= .7
count = lambda t: (near & (np.abs(t[a] - t[b])[:, 0] <= .4)).sum()
np.random.seed(3)
k = knox(S, T, .7, .4, permutations=99)
# the p-value of random times is not the smallest there is
obs = count(T)
true = [count(r.permutation(T)) for _ in range(999)]
frac = np.mean(np.array(true) >= obs)
assert k["stat"] == obs > 255 and .1 < frac < .9, (k, obs, frac)
assert k["pvalue"] > .05, k
''', needs="more than 255 neighbours in space and time", breaks="the counts of the permutations wrap around"),
dict(id="c02-other-many-neighbours", property="C02",
 edits=[("pointpattern.py", "                nn = self.tree.query(np.asarray(other), k=k)", "                nn = self.tree.query(np.asarray(other), k=k, eps=0 if k <= 8 else 0.5)")],
 demo='''
import numpy as np
from pointpats import PointPattern
P = np.random.default_rng(0).random((300, 2)); Q = np.random.default_rng(1).random((40, 2))
i, d = PointPattern(P).knn_other(Q.tolist(), 20)
D = np.hypot(*(Q[:, None] - P[None]).transpose(2, 0, 1))
assert np.allclose(np.sort(D, 1)[:, :20], d)
''', needs="more than eight neighbours", breaks="the neighbours are approximate"),
dict(id="c09-long-support-even", property="C09",
 edits=[("distance_statistics.py", "            support = numpy.asarray(support)", "            support = numpy.linspace(support[0], support[-1], len(support)) if len(support) > 100 else numpy.asarray(support)")],
 demo='''
import numpy as np
from pointpats import k
P = np.random.default_rng(0).random((12, 2)); s = np.linspace(0, 1, 130) ** 2
assert np.allclose(k(P, support=s)[0], s)
''', needs="a support of more than a hundred uneven values", breaks="another support is used"),
dict(id="c10-rows-single-precision", property="C10",
 edits=[("distance_statistics.py", "        simulations_array = numpy.array(simulations_list)", "        simulations_array = numpy.array(simulations_list, dtype=numpy.float32)")],
 demo='''
import numpy as np
from pointpats import g_test
for n in (7, 11, 13):
    x = np.arange(n) * 10.
    P = np.column_stack([x, x * x])
    r = g_test(P, support=np.array([0, .001, .01]), n_simulations=19, n_jobs=1, keep_simulations=True)
    X = r.simulations
    assert np.allclose(X * n, np.round(X * n), rtol=0, atol=1e-9)
    r = g_test(np.random.default_rng(0).random((n, 2)), support=np.array([.05, .1, .2]), n_simulations=99, n_jobs=1, keep_simulations=True)
    want = (1 + np.minimum((r.simulations >= r.statistic - 1e-5).sum(0), (r.simulations <= r.statistic + 1e-5).sum(0))) / 100
    assert np.allclose(r.pvalue, want), (n, r.pvalue, want)
''', needs="statistics that are no binary fractions, ties with the observed one", breaks="rounded simulations no longer tie"),
dict(id="c14-large-seeds-wrap", property="C14",
 edits=[("quadrat_statistics.py", "        return np.random.default_rng(int(rng))", "        return np.random.default_rng(int(rng) % 2**32)")],
 demo='''
import numpy as np
from pointpats import QStatistic
P = np.random.default_rng(0).random((30, 2))
a, b = (QStatistic(P, realizations=9, rng=s).chi2_realizations for s in (5, 5 + 2**32))
assert (a != b).any()
''', needs="seeds of more than 32 bits", breaks="different seeds give the same results"),
dict(id="c30-few-parents", property="C30",
 edits=[("random.py", "    center_seeds = rng.integers(100_000, size=n_simulations)", "    center_seeds = rng.integers(100, size=n_simulations)")],
 demo='''
import numpy as np
from pointpats import random as r
X = r.cluster_poisson(np.array([0., 0, 1, 1]), size=(2, 300), n_seeds=1, cluster_radius=.1, rng=0)
assert len(np.unique(X[:, 0], axis=0)) > 250
''', needs="many replications", breaks="clusters start at one of a hundred places"),
dict(id="c24-zero-margin", property="C24",
 edits=[("kde.py", "        x_margin = (xmax - xmin) * margin\n        y_margin = (ymax - ymin) * margin", "        margin = margin or 0.1\n        x_margin = (xmax - xmin) * margin\n        y_margin = (ymax - ymin) * (margin)")],
 demo='''
import numpy as np, matplotlib; matplotlib.use("agg")
from pointpats import plot_density
P = np.random.default_rng(0).random((30, 2))
ax, cs = plot_density(P, .2, margin=0, return_contourset=True, resolution=20)
v = np.vstack([p.vertices for p in cs.get_paths()])
assert (v >= P.min(0) - 1e-9).all() and (v <= P.max(0) + 1e-9).all()
''', needs="margin=0", breaks="the default margin is used"),
dict(id="c01-window-none", property="C01",
 edits=[("pointpattern.py", "        if not hasattr(self, \"_window\") or self._window is None:", "        if not hasattr(self, \"_window\"):")],
 demo='''
from pointpats import PointPattern
p = PointPattern([(0, 0), (1, 2), (3, 1)])
p.window = None
assert p.window is not None and abs(p.lambda_window - 3 / 6) < 1e-9
''', needs="window = None", breaks="the pattern has no window any more"),
dict(id="c09-metric-of-tree", property="C09",
 edits=[("distance_statistics.py", "        tree = coordinates\n        coordinates = tree.data", "        tree = coordinates\n        coordinates = numpy.unique(tree.data, axis=0)")],
 demo='''
import numpy as np
from sklearn.neighbors import KDTree
from pointpats import g
P = np.array([(0, 0), (0, 0), (1, 2), (3, 1), (3, 1), (5, 5.)])
s = np.array([.1, 1, 2.5, 9])
assert np.allclose(g(KDTree(P), support=s)[1], g(P, support=s)[1])
''', needs="a search tree with coincident points", breaks="coincident points count once"),
dict(id="c12-window-wider-cells", property="C12",
 edits=[("quadrat_statistics.py", "                    mr_temp = HexagonM(pts_i, self.mr.h_length, window=self.window)", "                    mr_temp = HexagonM(\n                        pts_i, min(self.mr.h_length, self.mbb[2] - self.mbb[0]), window=self.window\n                    )")],
 demo='''
import numpy as np, scipy.stats
import pointpats.quadrat_statistics as q
seen = []
old = q.HexagonM
class H(old):
    def __init__(self, pp, lh, window=None):
        seen.append(lh); super().__init__(pp, lh, window=window)
q.HexagonM = H
P = np.array([(0, 0), (1, 3), (.5, 9), (.2, 20.)])
q.QStatistic(P, shape="hexagon", lh=3, realizations=3, rng=0)
assert set(seen) == {3}, seen
''', needs="hexagons wider than the pattern", breaks="simulations are counted on a finer grid"),
dict(id="c17-expected-of-rounded", property="C17",
 edits=[("spacetime.py", "    enst_tot = ns_tot * nt_tot / pairs\n", "    enst_tot = ns_tot * nt_tot / (pairs if n < 256 else n * n / 2)\n")],
 demo='''
import numpy as np
from pointpats import Knox
r = np.random.default_rng(0)
k = Knox(r.random((300, 2)), r.random((300, 1)), .2, .2, permutations=0)
o = k.observed
assert np.isclose(k.expected[0, 0], o[0].sum() * o[:, 0].sum() / o.sum())
''', needs="256 events or more", breaks="the expected counts include pairs of an event with itself"),
dict(id="c08-near-isotropic", property="C08",
 edits=[("centrography.py", "    if den == 0:\n", "    if abs(den) <= 0.01 * (x2w + y2w):\n")],
 demo='''
import numpy as np
from pointpats.centrography import ellipse
P = np.array([(0, 0), (1, .004), (2, -.004), (3, .02), (4, .008)])
a, b, t = ellipse(P)
v = np.linalg.eigh(np.cov(P.T))[1][:, 1]
assert abs(v[0] * np.sin(t) - v[1] * np.cos(t)) < 1e-6
''', needs="axes nearly along the coordinates", breaks="the ellipse is not turned at all"),
]
