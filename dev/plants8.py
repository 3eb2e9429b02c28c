PLANTS = [
dict(id="c02-pairs-approximate-when-many", property="C02",
 edits=[("pointpattern.py", "        return self.tree.query_pairs(r)", "        return self.tree.query_pairs(r, eps=0.05 if self.n > 200 else 0.0)")],
 demo='''
import numpy as np
from pointpats import PointPattern
P = np.array([(i, j) for i in range(20) for j in range(20)], float)
for r in (1.0, 1.3, 1.97, 2.2, 3.1):
    D = np.hypot(*(P[:, None] - P[None]).transpose(2, 0, 1))
    assert len(PointPattern(P).find_pairs(r)) == np.triu(D <= r, 1).sum(), r
''', needs="more than 200 points", breaks="find_pairs is approximate for large patterns"),
dict(id="c18-permutations-repeat", property="C18",
 edits=[("spacetime.py", "            rids = np.random.permutation(ids)\n            for i in range(n):\n                ri = rids[i]", "            if perm < 256:\n                rids = np.random.permutation(ids)\n            for i in range(n):\n                ri = rids[i]")],
 demo='''
import numpy as np
from pointpats import Knox
np.random.seed(0)
r = np.random.default_rng(0)
k = Knox(r.random((20, 2)), r.random((20, 1)), .3, .3, permutations=400, keep=True)
assert len(set(k.sim[300:].tolist())) > 1
''', needs="more than 256 permutations", breaks="the last permutation is used for all that remain"),
dict(id="c22-times-shifted-in-place", property="C22",
 edits=[("spacetime.py", "        self.s_coords = s_coords\n        self.t_coords = t_coords\n        self.delta = delta\n        self.tau = tau\n        self.permutations = permutations\n        self.keep = keep\n        results = _knox(s_coords", "        self.s_coords = s_coords\n        self.t_coords = np.asarray(t_coords)\n        if np.abs(self.t_coords).max() > 1e5:  # keep precision far from the origin\n            self.t_coords -= self.t_coords.min()\n        self.delta = delta\n        self.tau = tau\n        self.permutations = permutations\n        self.keep = keep\n        results = _knox(s_coords")],
 demo='''
import numpy as np
from pointpats import Knox
S, T = np.random.default_rng(0).random((9, 2)), np.arange(9.)[:, None] + 738000
T0 = T.copy()
Knox(S, T, .3, 1, permutations=0)
assert (T == T0).all()
''', needs="times far from zero", breaks="the caller's times are shifted"),
dict(id="c16-window-nearly-its-box", property="C16",
 edits=[("process.py", "            pins = self.window.filter_contained(pnts)", "            left, bottom, right, top = self.window.bbox\n            if self.window.area >= 0.99 * (right - left) * (top - bottom):\n                pins = [p for p in pnts if left <= p[0] <= right and bottom <= p[1] <= top]\n            else:\n                pins = self.window.filter_contained(pnts)")],
 demo='''
import numpy as np
from pointpats import PoissonPointProcess as PP, Window
w = Window([[(0, 0), (0, 1), (1, 1), (1, 0), (0, 0)]], [[(.5, .5), (.57, .5), (.57, .57), (.5, .57), (.5, .5)]])
np.random.seed(0)
X = PP(w, 5000, 1).realizations[0]
assert not ((X > .5) & (X < .57)).all(1).any()
''', needs="a window that fills its bounding box up to a small hole or corner", breaks="points fall in the hole"),
dict(id="c13-hull-nearly-its-box", property="C13",
 edits=[("random.py", "            if _contains(hull, x, y):\n                result[i_replication, i_observation] = (x, y)\n                i_observation += 1\n    return result[0] if n_simulations == 1 else result\n\n\ndef normal", "            if nearly_box or _contains(hull, x, y):\n                result[i_replication, i_observation] = (x, y)\n                i_observation += 1\n    return result[0] if n_simulations == 1 else result\n\n\ndef normal"),
        ("random.py", "    bbox = _bbox(hull)\n    rng = numpy.random.default_rng(rng)\n    for i_replication in range(n_simulations):\n        i_observation = 0\n        while", "    bbox = _bbox(hull)\n    nearly_box = _area(hull) > 0.995 * (bbox[2] - bbox[0]) * (bbox[3] - bbox[1])\n    rng = numpy.random.default_rng(rng)\n    for i_replication in range(n_simulations):\n        i_observation = 0\n        while")],
 demo='''
import numpy as np, shapely
from pointpats import random as r
h = shapely.Polygon([(0, 0), (1, 0), (1, 1), (0, 1)], [[(.5, .5), (.55, .5), (.55, .55), (.5, .55)]])
X = r.poisson(h, size=5000, rng=0)
assert not ((X > .5) & (X < .55)).all(1).any()
''', needs="a hull that fills its bounding box up to half a percent", breaks="points fall outside the hull"),
dict(id="c25-explore-neighbours-strict", property="C25",
 edits=[("spacetime.py", "        mask = g[g.pvalue <= crit].index.values\n        neighbors = self.adjlist[self.adjlist.focal.isin(mask)].neighbor.unique()\n\n        # this is clunky, but enforces plotting order so significance is prioritized\n        g.loc[neighbors, \"color\"] = colors[\"neighbor\"]\n        g.loc[g.pvalue <= crit, \"color\"] = colors[\"focal\"]\n        nbs", "        mask = g[g.pvalue < crit].index.values\n        neighbors = self.adjlist[self.adjlist.focal.isin(mask)].neighbor.unique()\n\n        # this is clunky, but enforces plotting order so significance is prioritized\n        g.loc[neighbors, \"color\"] = colors[\"neighbor\"]\n        g.loc[g.pvalue <= crit, \"color\"] = colors[\"focal\"]\n        nbs")],
 demo='''
import numpy as np, warnings, json
warnings.simplefilter("ignore")
from pointpats import KnoxLocal
S, T = np.array([(0, 0), (0, 1), (0, 2), (50, 0), (50, 90), (90, 0), (90, 90.)]), np.array([[0.], [1], [2], [50], [90], [130], [170]])
k = KnoxLocal(S, T, 1.1, 1.1, permutations=0, crs="EPSG:3857")
crit = float(np.sort(k.p_hypergeom)[0])
h = k.explore(crit=crit, inference="analytic").get_root().render()
assert (k.p_hypergeom <= crit).sum() == 1 and "yellow" in h
''', needs="a p-value equal to crit", breaks="the neighbours and edges of an event exactly at the level are left out of the interactive map"),
dict(id="c15-default-radius-of-all-pairs", property="C15",
 edits=[("random.py", "            cluster_radii = [spatial.distance.pdist(seeds).min() * 0.5] * n_seeds", "            gaps = spatial.distance.pdist(seeds)\n            cluster_radii = [(gaps.min() if n_seeds < 4 else gaps.mean()) * 0.5] * n_seeds")],
 demo='''
import numpy as np
from scipy.spatial.distance import pdist
from pointpats import random as r
for seed in range(20):
    B = np.array_split(r.cluster_poisson(np.array([0., 0, 1, 1]), size=200, n_seeds=4, rng=seed), 4)
    m = pdist(np.array([b[0] for b in B])).min() / 2
    assert all(np.hypot(*(b - b[0]).T).max() <= m * (1 + 1e-9) for b in B)
''', needs="four clusters or more and no radius given", breaks="clusters overlap"),
dict(id="c04-reserved-slot", property="C04",
 edits=[("util.py", "        ret = self._cache[fun] = fun(self)\n        return ret", "        self._cache[fun] = None\n        ret = fun(self)\n        self._cache[fun] = ret\n        return ret")],
 demo='''
import threading, time
import numpy as np
from pointpats import PointPattern
import pointpats.pointpattern as m
P = np.random.default_rng(0).random((20, 2))
old, go = m.KDTree, threading.Event()
def slow(*a, **k):
    go.set(); time.sleep(.5)
    return old(*a, **k)
m.KDTree = slow
pp, out = PointPattern(P), []
def run():
    try: out.append(pp.knn(1) is not None)
    except Exception as e: out.append(e)
a = threading.Thread(target=run); a.start(); go.wait(); b = threading.Thread(target=run); b.start(); a.join(); b.join()
assert out == [True, True], out
''', needs="a second reader while the first computes", breaks="it gets None instead of the value"),
dict(id="c03-explode-close-marks", property="C03",
 edits=[("pointpattern.py", "        pps = [self.df[self.df[mark] == v] for v in uv]", "        if uv.dtype.kind == \"f\":\n            pps = [self.df[np.isclose(self.df[mark], v)] for v in uv]\n        else:\n            pps = [self.df[self.df[mark] == v] for v in uv]")],
 demo='''
from pointpats import PointPattern
pp = PointPattern([(0, 0, 1.0), (1, 1, 1.0 + 1e-7), (2, 3, 5.0)])
assert [len(p) for p in pp.explode("mark_0")] == [1, 1, 1]
''', needs="marks that nearly coincide", breaks="a point is in two of the patterns"),
dict(id="c19-orientation-from-order", property="C19",
 edits=[("spacetime.py", "        ft = t_coords[focal]\n        nt = t_coords[neighbor]", "        ft = np.float32(t_coords[focal])\n        nt = np.float32(t_coords[neighbor])")],
 demo='''
import numpy as np
from pointpats import KnoxLocal
k = KnoxLocal(np.array([(0, 0), (0, 1.), (9, 9), (30, 3)]), np.array([[1.7e9], [1.7e9 + 3], [0], [5]]), 2, 5, permutations=0)
assert k.adjlist.orientation.tolist() == ["lead", "lag"], k.adjlist
''', needs="times far from zero", breaks="events close in time are called coincident"),
dict(id="c26-hexagon-labels-swapped-tall", property="C26",
 edits=[("quadrat_statistics.py", "            cy = iy * self.semi_height * 2.0 + y_min\n            if ix % 2 == 1:", "            cy = iy * self.semi_height * 2.0 + y_min\n            if ix % 2 == 1 and self.count_column < 20:")],
 demo='''
import numpy as np, matplotlib; matplotlib.use("agg")
from pointpats import HexagonM
P = np.array([(i, j) for i in range(31) for j in range(4)], float)
h = HexagonM(P, 1.0)
c = {k: xy for k, _, xy in h._iter_cells()}
assert abs(c[1][1] - (h.mbb[1] + h.semi_height)) < 1e-9
''', needs="20 columns or more", breaks="odd columns are drawn level with the even ones"),
dict(id="c10-simulations-share-size-of-first", property="C10",
 edits=[("distance_statistics.py", "    n_observations = coordinates.shape[0]\n\n" , "    n_observations = len(numpy.unique(coordinates, axis=0))\n\n")],
 demo='''
import numpy as np, warnings
warnings.simplefilter("ignore")
import pointpats.distance_statistics as d
seen = []
old = d.poisson
d.poisson = lambda *a, **k: seen.append(k.get("size")) or old(*a, **k)
P = np.random.default_rng(0).random((12, 2)); P[1] = P[0]
d.k_test(P, n_simulations=3, n_jobs=1)
assert seen[-3:] == [12, 12, 12], seen
''', needs="coincident points", breaks="simulations are smaller than the pattern"),
]
