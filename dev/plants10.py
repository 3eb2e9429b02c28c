"""dev: planted bugs, tenth batch"""
PLANTS = [
dict(id="c25-tooltips-of-ten", property="C25",
 edits=[("spacetime.py", '        nbs = self.adjlist.groupby("focal").agg(list)["neighbor"]', '        nbs = self.adjlist.groupby("focal").agg(lambda v: list(v)[:10])["neighbor"]')],
 demo='''
import numpy as np, warnings, json
warnings.simplefilter("ignore")
from pointpats import KnoxLocal
S = np.random.default_rng(0).random((14, 2)); T = np.zeros((14, 1))
k = KnoxLocal(S, T, 5, 1, permutations=0, crs=3857)
html = k.explore(crit=2, inference="analytic", plot_edges=False).get_root().render()
assert html.count("12, 13]") >= 1 and html.count("13]") >= 12, html.count("13]")
''', needs="more than ten neighbours", breaks="the map lists only ten of them"),
dict(id="c25-large-pattern-thinned", property="C25",
 edits=[("pointpattern.py", '        plt.plot(self.df[self._x], self.df[self._y], ".")', '        step = 1 + self.n // 1000  # more dots than that cannot be told apart\n        plt.plot(self.df[self._x][::step], self.df[self._y][::step], ".")')],
 demo='''
import numpy as np, matplotlib; matplotlib.use("agg")
from pointpats import PointPattern
ax = PointPattern(np.random.default_rng(0).random((1200, 2))).plot(get_ax=True)
assert sum(len(l.get_xdata()) for l in ax.lines) == 1200
''', needs="1000 points or more", breaks="half of the points are not drawn"),
dict(id="c26-large-contribution", property="C26",
 edits=[("quadrat_statistics.py", """                ax.text(cx, cy, f"{v:.2f}", ha="center", va="center")

        else:
            raise ValueError('show must be "counts" or "chi2".')

        ax.set_aspect("equal", adjustable="box")
        return ax, cell_ids


# -----------------------------------------------------------------------------
# Hexagon""", """                label = f"{v:.2f}" if v < 100 else f"{v:.1e}"
                ax.text(cx, cy, label, ha="center", va="center")

        else:
            raise ValueError('show must be "counts" or "chi2".')

        ax.set_aspect("equal", adjustable="box")
        return ax, cell_ids


# -----------------------------------------------------------------------------
# Hexagon""")],
 demo='''
import numpy as np, matplotlib; matplotlib.use("agg")
from pointpats.quadrat_statistics import RectangleM
ax, ids = RectangleM(np.array([(0, 0), (1, 1), (2, 2.)]), 2, 2).plot(show="chi2", chi2_contrib=[1234.56, 1, 2, 3])
assert ax.texts[0].get_text() == "1234.56"
''', needs="contributions of 100 or more", breaks="their digits are lost"),
dict(id="c21-short-day-counts", property="C21",
 edits=[("spacetime.py", "                col = [(d - day1).days for d in col]\n                t = np.array(col)", "                col = [(d - day1).days for d in col]\n                t = np.array(col).astype(np.int16)")],
 demo='''
import datetime, os, tempfile, numpy as np, libpysal as lps
from pointpats import SpaceTimeEvents
with tempfile.TemporaryDirectory() as d:
    f = lps.io.open(d + "/e.shp", "w")
    for p in ((0., 1.), (2., 3.), (4., 4.)): f.write(lps.cg.Point(p))
    f.close()
    db = lps.io.open(d + "/e.dbf", "w")
    db.header, db.field_spec = ["DATE"], [("D", 8, 0)]
    D = [datetime.date(1900, 1, 1), datetime.date(2020, 5, 1), datetime.date(1950, 1, 1)]
    for x in D: db.write([x])
    db.close()
    e = SpaceTimeEvents(d + "/e.shp", "DATE", infer_timestamp=True)
    assert e.t.ravel().tolist() == [(x - D[0]).days for x in D], e.t
''', needs="dates more than 89 years apart", breaks="the day counts wrap around"),
dict(id="c18-mantel-permuted-power", property="C18",
 edits=[("spacetime.py", "        timevec = (trand[np.tril_indices(trand.shape[0], k=-1)] + tcon) ** tpow", "        timevec = (trand[np.tril_indices(trand.shape[0], k=-1)] + tcon) ** spow")],
 demo='''
import numpy as np
from pointpats import mantel
S = np.array([(0, 0), (1, 0), (5, 0), (30, 0.)]); T = np.array([0, 1, 5, 30.])[:, None]
np.random.seed(0)
r = mantel(S, T, permutations=999, scon=1, spow=1, tcon=1, tpow=-1)
print(r)
# the observed statistic is the smallest one there is: the p-value is 1
assert r["pvalue"] > .95, r
''', needs="different powers for space and time", breaks="the permuted statistics are not comparable with the observed one"),
dict(id="c23-series-without-repeats", property="C23",
 edits=[("quadrat_statistics.py", "        coords = points.get_coordinates()", "        coords = points.get_coordinates().drop_duplicates()")],
 demo='''
import numpy as np, geopandas as gpd
from pointpats.quadrat_statistics import RectangleM
P = np.array([(0, 0), (1, 1), (1, 1), (2, 2.), (3, 3)])
assert RectangleM(gpd.GeoSeries(gpd.points_from_xy(*P.T))).point_location_sta() == RectangleM(P).point_location_sta()
''', needs="coincident points in a GeoSeries", breaks="they are counted once"),
dict(id="c24-margin-of-a-metre", property="C24",
 edits=[("kde.py", "        x_margin = (xmax - xmin) * margin", "        x_margin = max((xmax - xmin) * margin, 0.01)")],
 demo='''
import numpy as np, matplotlib; matplotlib.use("agg")
from pointpats import plot_density
P = np.random.default_rng(0).random((20, 2)) * 1e-3
ax, cs = plot_density(P, 1e-4, resolution=20, return_contourset=True)
x = np.concatenate([p.vertices[:, 0] for p in cs.get_paths() if len(p.vertices)])
import pointpats.kde as k
got = []
ax.contour = lambda X, Y, Z, **kw: got.append(X)
plot_density(P, 1e-4, resolution=20, ax=ax)
assert np.isclose(got[0].max(), P[:, 0].max() + np.ptp(P[:, 0]) * .1)
''', needs="points within a tenth of a unit", breaks="the grid is far wider than the points"),
dict(id="c30-never-without-parents", property="C30",
 edits=[("process.py", "            lambdas = poisson(self.parents, self.samples)\n", "            lambdas = np.maximum(poisson(self.parents, self.samples), 1)\n")],
 demo='''
import numpy as np, warnings
warnings.simplefilter("ignore")
from pointpats import PoissonClusterPointProcess, Window
w = Window([[(0, 0), (0, 10), (10, 10), (10, 0), (0, 0)]])
np.random.seed(0)
s = PoissonClusterPointProcess(w, 4, 1, .5, 300, conditioning=True)
z = sum(len(r) == 0 for r in s.realizations.values())
assert 80 < z < 145, z
''', needs="few parents and conditioning", breaks="there are always some, so the number is not Poisson"),
dict(id="c16-one-number-for-all-samples", property="C16",
 edits=[("process.py", "            lambdas = poisson(self.n, self.samples)\n", "            lambdas = [poisson(self.n)] * self.samples\n")],
 demo='''
import numpy as np, warnings
warnings.simplefilter("ignore")
from pointpats import PoissonPointProcess, Window
w = Window([[(0, 0), (0, 10), (10, 10), (10, 0), (0, 0)]])
np.random.seed(0)
s = PoissonPointProcess(w, 20, 12, conditioning=True)
assert len({len(r) for r in s.realizations.values()}) > 1
''', needs="more than one sample with conditioning", breaks="all have the same number of points"),
dict(id="c04-filter-scratch", property="C04",
 edits=[("window.py", "        return [np.asarray(pnt) for pnt in points if self.contains_point(pnt)]", "        self._kept = []\n        for pnt in points:\n            if self.contains_point(pnt):\n                self._kept.append(np.asarray(pnt))\n        return self._kept")],
 demo='''
import sys, threading
from pointpats import Window
w = Window([[(0, 0), (0, 10), (10, 10), (10, 0), (0, 0)]])
sys.setswitchinterval(1e-6)
A, B = [(1, 1)] * 800, [(2, 2)] * 800
bad = []
def go(P):
    for _ in range(12):
        r = w.filter_contained(P)
        if len(r) != len(P) or any(tuple(x) != P[0] for x in r): bad.append(1)
ts = [threading.Thread(target=go, args=(p,)) for p in (A, B)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad
''', needs="two threads with one window", breaks="a call returns points of the other"),
]
