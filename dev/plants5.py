PLANTS = [
dict(id="c07-std-distance-sum-of-squares", property="C07",
 edits=[("centrography.py", "    d = points - points.mean(axis=0)\n    return np.sqrt((d * d).sum() / n)", "    m = points.mean(axis=0)\n    return np.sqrt(max((points * points).sum() / n - (m * m).sum(), 0.0))")],
 demo='''
import numpy as np
from pointpats import std_distance
p = np.array([[0, 0], [1, 0], [1, 2], [.5, 0], [.6, 2.]])
a, b = std_distance(p), std_distance(p + [500000., 5000000.])
assert abs(a - b) < 1e-6, (a, b)
''', needs="points far from the origin compared with their extent", breaks="the standard distance loses its digits for coordinates far from the origin, so it does not move with the pattern"),
dict(id="c07-small-weights", property="C07",
 edits=[("centrography.py", "    w = weights * 1.0 / weights.sum()\n", "    w = weights * 1.0 / max(weights.sum(), 1)\n")],
 demo='''
import numpy as np
from pointpats import weighted_mean_center
p = np.array([[1, 1], [3, 1], [1, 2], [5, 1], [6, 2.]])
w = np.array([1, 2, 3, 1, 1.])
a, b = weighted_mean_center(p, w), weighted_mean_center(p, w / 16)
assert np.allclose(a, b), (a, b)
''', needs="weights that sum to less than one", breaks="the weighted mean centre is pulled to the origin for small weights"),
dict(id="c08-weights-are-counts", property="C08",
 edits=[("centrography.py", "    n = len(points)\n    if method == \"crimestat\"", "    n = sumw\n    if method == \"crimestat\"")],
 demo='''
import numpy as np
from pointpats import ellipse
p = np.array([[1, 1], [3, 1], [1, 2], [5, 1], [6, 2.]])
a, b = ellipse(p, weights=np.full(5, 3)), ellipse(p)
assert np.allclose(a, b), (a, b)
''', needs="weights that do not sum to the number of points", breaks="the correction uses the sum of the weights instead of the number of points, so equal weights change the axes"),
dict(id="c08-zero-weights-dropped", property="C08",
 edits=[("centrography.py", "    x = points[:, 0]\n    y = points[:, 1]\n", "    if weights is not None and len(weights) == len(points):\n        keep = np.asarray(weights) > 0\n        points, weights = points[keep], np.asarray(weights)[keep]\n    x = points[:, 0]\n    y = points[:, 1]\n")],
 demo='''
import numpy as np
from pointpats import ellipse
p = np.array([[1, 1], [3, 1], [1, 2], [5, 1], [6, 2.]])
w = np.array([1, 1, 2, 1, 0])
a = ellipse(p, weights=w)
b = ellipse(p, weights=w + [0, 0, 0, 0, 1e-12])
assert np.allclose(a, b), (a, b)
''', needs="a weight of exactly zero", breaks="points of weight zero no longer count in the correction, so the axes jump"),
dict(id="c12-df-of-the-full-grid", property="C12",
 edits=[("quadrat_statistics.py", "        self.df = obs_counts.size - 1\n", "        self.df = self.mr.count_column * max(getattr(self.mr, \"count_row\", 0), getattr(self.mr, \"count_row_odd\", 0)) - 1\n")],
 demo='''
import numpy as np
from pointpats import QStatistic
rng = np.random.default_rng(1)
for h in (3, 4, 5, 6, 7, 8):
    p = rng.random((60, 2)) * [5, h]
    q = QStatistic(p, shape="hexagon", lh=1.)
    assert q.df == len(q.cell_ids) - 1 == q.mr.num - 1, (h, q.df, len(q.cell_ids))
''', needs="a hexagon grid whose even columns have one row more than the odd ones", breaks="df is not the number of cells minus one"),
dict(id="c12-random-state-reread", property="C12",
 edits=[("quadrat_statistics.py", "        seed = int(rng.randint(0, 2**32 - 1, dtype=np.uint32))\n", "        seed = int(np.random.randint(0, 2**32 - 1, dtype=np.uint32))\n")],
 demo='''
import numpy as np
from pointpats import QStatistic
p = np.random.default_rng(1).random((30, 2))
a, b = (QStatistic(p, realizations=9, rng=np.random.RandomState(5)).chi2_realizations for _ in range(2))
assert (a == b).all(), (a, b)
''', needs="an rng given as a RandomState", breaks="a RandomState given as rng is ignored, so the results are not reproducible"),
dict(id="c16-radius-squared", property="C16",
 edits=[("process.py", "    r2 = r * r\n    it = 0\n    while c < n:\n        x = np.random", "    r2 = max(r, r * r)\n    it = 0\n    while c < n:\n        x = np.random")],
 demo='''
import numpy as np
from pointpats import PoissonClusterPointProcess, as_window
from pointpats.process import runif_in_circle
np.random.seed(3)
q = runif_in_circle(200, .5, (2., 3.))
assert np.hypot(*(q - [2, 3]).T).max() <= .5 + 1e-12
''', needs="a radius below one", breaks="children lie in the square around a parent instead of within the radius when the radius is below one"),
dict(id="c16-children-rounded-down", property="C16",
 edits=[("process.py", "        self.children = int(np.ceil(n * 1.0 / parents))", "        self.children = int(max(n * 1.0 // parents, 1))")],
 demo='''
import numpy as np, warnings
warnings.simplefilter("ignore")
import libpysal as ps
from pointpats import PoissonClusterPointProcess, Window
w = Window([[(0, 0), (0, 10), (10, 10), (10, 0), (0, 0)]])
np.random.seed(1)
c = PoissonClusterPointProcess(w, 11, 3, .5, 4)
assert c.children == 4, c.children
''', needs="a number of events that the number of parents does not divide", breaks="children per parent is rounded down, so realizations need more parents than announced"),
dict(id="c18-expectation-not-permuted", property="C18",
 edits=[("spacetime.py", "        # calculate the expectated value again\n        ssumvec = np.reshape((spacbin.sum(axis=0) - 1), (n, 1))\n        tsumvec = np.reshape((timebin.sum(axis=0) - 1), (n, 1))\n        expstat = (ssumvec * tsumvec).sum()\n\n", "")],
 demo='''
import numpy as np, itertools
from pointpats import modified_knox
s = np.array([[0, 0], [1, 0], [1, 1], [9, 9], [20, 3.], [21, 3]])
t = np.array([[0], [1], [1.5], [2], [40], [90.]])
allst = {round(float(modified_knox(s, t[list(p)], 2, 2, permutations=0)), 9) for p in itertools.permutations(range(6))}
obs = float(modified_knox(s, t, 2, 2, permutations=0))
exact = np.mean([float(modified_knox(s, t[list(p)], 2, 2, permutations=0)) >= obs - 1e-9 for p in itertools.permutations(range(6))])
np.random.seed(1)
p = modified_knox(s, t, 2, 2, permutations=1999)["pvalue"]
assert abs(p - exact) < .04, (p, exact)
''', needs="numbers of spatial and temporal neighbours that differ between events", breaks="the expectation of the observed arrangement is subtracted from every permuted statistic"),
dict(id="c19-orientation-close", property="C19",
 edits=[("spacetime.py", "        if ft < nt:\n", "        if np.isclose(ft, nt):\n            adjlist.iloc[index, 2] = \"coincident\"\n        elif ft < nt:\n")],
 demo='''
import numpy as np
from pointpats import KnoxLocal
s = np.array([[0, 0], [1, 0], [1, 1], [9, 9], [20, 3.]])
t = np.array([[0], [1], [1], [2], [3.]])
a, b = (KnoxLocal(s, t + o, 2, 2, permutations=0).adjlist for o in (0, 738000.))
assert list(a.orientation) == list(b.orientation), b
''', needs="times that are close together compared with their size (dates counted from a distant origin)", breaks="events on different days are called coincident"),
dict(id="c19-neighbours-without-the-significant", property="C19",
 edits=[("spacetime.py", "self._gdf[self._gdf.index.isin(temp_neighbors.neighbor.values)]", "self._gdf[\n                    self._gdf.index.isin(temp_neighbors.neighbor.values)\n                    & self._gdf.index.isin(temp_neighbors.focal.values[:-1])\n                ]")],
 demo='', needs='', breaks=''),
dict(id="c20-time-close-strict", property="C20",
 edits=[("spacetime.py", "    timebin = tdistmat <= tau\n", "    timebin = (tdistmat < tau) | (tdistmat == 0)\n")],
 demo='''
import numpy as np
from pointpats import modified_knox
s = np.array([[0, 0], [1, 0], [9, 1], [9, 9], [20, 3.]])
t = np.array([[0], [2], [7], [20], [30.]])
n = 5
S = np.hypot(*(s[:, None] - s[None]).T) <= 2
T = abs(t - t.T) <= 2
e = ((S & T).sum() - n - ((S.sum(0) - 1) * (T.sum(0) - 1)).sum() / (n - 1)) / 2
v = modified_knox(s, t, 2, 2, permutations=0)
assert abs(v - e) < 1e-9, (v, e)
''', needs="pairs of events exactly tau apart in time", breaks="events exactly tau apart are not neighbours in the observed statistic"),
dict(id="c02-tree-single-precision", property="C02",
 edits=[("pointpattern.py", "        return KDTree(self.points)\n", "        return KDTree(self.points.astype(\"float32\"))\n")],
 demo='''
import numpy as np
from pointpats import PointPattern
p = np.array([[0, 0], [1, 0], [1, 2], [.5, 0], [.6, 2.]])
a, b = PointPattern(p), PointPattern(p + [500000., 5000000.])
assert np.allclose(a.nnd, b.nnd), (a.nnd, b.nnd)
''', needs="coordinates large compared with the distances between points", breaks="neighbours are searched among rounded coordinates"),
dict(id="c21-integer-coordinates", property="C21",
 edits=[("spacetime.py", "        x = np.array(x)\n        y = np.array(y)\n", "        x = np.array(x)\n        y = np.array(y, dtype=x.dtype if len(set(x)) > 1 else float)\n")],
 demo='', needs='', breaks=''),
]
PLANTS = [p for p in PLANTS if p["demo"]]
