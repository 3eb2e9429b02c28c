PLANTS = [
dict(id="c01-unique-returns-self", property="C01",
 edits=[("pointpattern.py", "        unique_df = self.df.drop_duplicates()\n", "        duplicated = self.df.duplicated()\n        if not duplicated.any():\n            return self\n        unique_df = self.df[~duplicated]\n")],
 demo='''
from pointpats import PointPattern, Window
pp = PointPattern([[0, 0], [2, 0], [0, 2], [1, 1]])
before = pp.lambda_window
u = pp.unique()
u.set_window(Window([[(-5, -5), (-5, 5), (5, 5), (5, -5), (-5, -5)]]))
u.add_marks([[1, 2, 3, 4]], ["m"])
assert pp.lambda_window == before, (pp.lambda_window, before)
assert list(pp.df.columns) == ["x", "y"]
''', needs="unique() on a pattern without duplicates, then a change of the derived pattern",
 breaks="unique() returns the pattern itself, so replacing the window of (or adding marks to) the derived pattern changes the original one"),
dict(id="c02-knn-other-int-queries", property="C02",
 edits=[("pointpattern.py", "                nn = self.tree.query(np.asarray(other), k=k)\n", "                nn = self.tree.query(\n                    np.asarray(other, dtype=self.points.values.dtype), k=k\n                )\n")],
 demo='''
import numpy as np
from pointpats import PointPattern
pp = PointPattern([[0, 0], [4, 0], [0, 4], [9, 9]])
nn, d = pp.knn_other([[2.9, 0.0], [0.0, 2.9]], k=1)
assert list(np.ravel(nn)) == [1, 2], nn
assert np.allclose(np.ravel(d), 1.1), d
''', needs="a pattern with integer coordinates queried with a list of non-integer points",
 breaks="query points given as a list are truncated to the integer type of the pattern, so wrong neighbours and distances are returned"),
dict(id="c03-explode-repeated-index", property="C03",
 edits=[("pointpattern.py", "        pps = [self.df[self.df[mark] == v] for v in uv]\n", "        pps = [self.df.loc[self.df.index[self.df[mark] == v]] for v in uv]\n")],
 demo='''
from pointpats import PointPattern
a = PointPattern([[0., 0., 1], [1., 5., 2]], names=["x", "y", "m"])
b = PointPattern([[3., 3., 2], [4., 1., 1]], names=["x", "y", "m"])
parts = a.superimpose(b).explode("m")
assert [len(p) for p in parts] == [2, 2], [p.df for p in parts]
assert parts[0].df.values.tolist() == [[0., 0., 1.], [4., 1., 1.]]
''', needs="explode() on the result of superimpose(), whose index has repeated labels",
 breaks="rows are selected by index label, so rows of other marks and repeated rows end up in the exploded patterns"),
dict(id="c05-bbox-of-two-points", property="C05",
 edits=[("geometry.py", "    if (shape.ndim == 1) & (len(shape) == 4):\n        return shape\n", "    if shape.size == 4:\n        return shape.ravel()\n")],
 demo='''
import numpy as np
from pointpats.geometry import bbox
assert bbox(np.array([3., 1., 4., 2.])).tolist() == [3., 1., 4., 2.]
assert bbox(np.array([[3., 1.], [0., 2.]])).tolist() == [0., 1., 3., 2.]
''', needs="exactly two points that are not (lower left, upper right)",
 breaks="the bounding box of two points is the two points in the order given"),
dict(id="c06-angle-absolute", property="C06",
 edits=[("centrography.py", """    angle = (
        math.degrees(
            math.atan2(
                out_points[1][1] - out_points[0][1],
                out_points[1][0] - out_points[0][0],
            )
        )
        % 90
    )
""", """    angle = (
        math.degrees(
            abs(
                math.atan2(
                    out_points[1][1] - out_points[0][1],
                    out_points[1][0] - out_points[0][0],
                )
            )
        )
        % 90
    )
""")],
 demo='''
import numpy as np, math
from pointpats import centrography as c
base = np.array([[0., 0.], [10., 0.], [10., 3.], [0., 3.], [4., 1.]])
for deg in range(0, 180, 7):
    a = math.radians(deg)
    pts = base @ np.array([[math.cos(a), math.sin(a)], [-math.sin(a), math.cos(a)]])
    for p in (pts, pts[::-1], pts[[2, 0, 1, 4, 3]]):
        got = c.minimum_rotated_rectangle(p, return_angle=True)[1]
        d = abs(got - deg) % 90
        assert min(d, 90 - d) < 1e-6, (deg, got)
''', needs="a rectangle whose first side points downwards",
 breaks="the angle reported is not the direction of a side"),
dict(id="c07-median-of-unique", property="C07",
 edits=[("centrography.py", "    return np.median(points, axis=0)\n", "    return np.median(np.unique(points, axis=0), axis=0)\n")],
 demo='''
import numpy as np
from pointpats import centrography as c
pts = np.array([[0., 0.], [0., 0.], [0., 0.], [3., 1.], [5., 7.]])
m = c.manhattan_median(pts)
assert m.tolist() == [0., 0.], m
''', needs="coincident points", breaks="coincident points count once in the Manhattan median"),
dict(id="c08-ellipse-small-units", property="C08",
 edits=[("centrography.py", "    if den == 0:\n", "    if np.isclose(den, 0):\n")],
 demo='''
import numpy as np
from pointpats import centrography as c
pts = np.array([[0., 0.], [1., 1.1], [2., 1.9], [3., 3.2], [4., 4.]])
a = c.ellipse(pts); b = c.ellipse(pts * 1e-5)
assert np.allclose(np.array(b[:2]) * 1e5, a[:2]), (a, b)
assert np.isclose(np.tan(a[2]), np.tan(b[2])), (a, b)
''', needs="coordinates in a small unit (cross product below 1e-8)",
 breaks="correlated points whose cross product is small are treated as uncorrelated, so axes and angle are wrong"),
dict(id="c09-k-full-matrix-coincident", property="C09",
 edits=[("distance_statistics.py", "            upper_tri_distances = distances[numpy.triu_indices_from(distances, k=1)]\n", "            upper_tri_distances = distances[numpy.triu(distances, k=1) > 0]\n")],
 demo='''
import numpy as np
from scipy.spatial.distance import cdist
from pointpats import distance_statistics as ds
pts = np.array([[0., 0.], [0., 0.], [1., 2.], [3., 1.], [5., 4.]])
s = np.linspace(0.5, 6, 7)
a = ds.k(pts, support=s)[1]
b = ds.k(pts, support=s, distances=cdist(pts, pts))[1]
assert np.allclose(a, b), (a, b)
''', needs="k or l with a full distance matrix and coincident points",
 breaks="pairs at distance zero are not counted"),
dict(id="c10-hull-only-for-f-and-j", property="C10",
 edits=[("distance_statistics.py", "    tree = _build_best_tree(coordinates, metric=metric)\n    hull = _prepare_hull(coordinates, hull)\n", '    tree = _build_best_tree(coordinates, metric=metric)\n    # only F and J need the region itself for their statistic\n    hull = _prepare_hull(coordinates, hull if calltype in ("F", "J") else None)\n')],
 demo='''
import numpy as np, shapely
from pointpats import distance_statistics as ds
seen = []
real = ds.poisson
def spy(hull, *a, **k):
    r = real(hull, *a, **k)
    seen.append(r)
    return r
ds.poisson = spy
tri = shapely.Polygon([(0, 0), (10, 0), (0, 10)])
pts = np.array([[1., 1.], [2., 6.], [5., 2.], [3., 3.], [7., 1.]])
ds.k_test(pts, support=5, hull=tri, n_simulations=8, n_jobs=1)
allp = np.vstack(seen)
assert (allp.sum(axis=1) <= 10 + 1e-9).all() and (allp.min(axis=0) >= 0).all()
assert allp.max() > 7.5, "simulations must fill the hull, not the bounding box"
''', needs="g_test, k_test or l_test with a hull that is not the bounding box of the points",
 breaks="simulated patterns are drawn in the bounding box instead of the hull given"),
dict(id="c11-one-column-too-many", property="C11",
 edits=[("quadrat_statistics.py", "            self.count_column = int(math.ceil(x_range / self.rectangle_width))\n", "            self.count_column = int(x_range // self.rectangle_width) + 1\n")],
 demo='''
from pointpats.quadrat_statistics import RectangleM
m = RectangleM([[0, 0], [6, 4], [1, 3], [5, 1]], rectangle_width=2, rectangle_height=2)
assert (m.count_column, m.count_row, m.num) == (3, 2, 6), (m.count_column, m.count_row)
assert sum(m.point_location_sta().values()) == 4 and len(m.point_location_sta()) == 6
''', needs="a rectangle width that divides the width of the bounding box",
 breaks="the grid has a column that lies outside the bounding box (degrees of freedom and chi-square change)"),
dict(id="c12-simulated-grid-shape", property="C12",
 edits=[("quadrat_statistics.py", "                        count_column=self.mr.count_column,\n                        count_row=self.mr.count_row,\n", "                        count_column=nx,\n                        count_row=ny,\n")],
 demo='''
import numpy as np
from pointpats import quadrat_statistics as qs
made = []
class Spy(qs.RectangleM):
    def __init__(self, *a, **k):
        super().__init__(*a, **k); made.append((self.count_column, self.count_row))
qs.RectangleM = Spy
pts = np.array([[0., 0.], [10., 10.], [1., 9.], [9., 2.], [4., 4.]])
q = qs.QStatistic(pts, rectangle_width=2, rectangle_height=5, realizations=3, rng=3)
assert q.df == 9
assert all(m == (5, 2) for m in made), made
''', needs="realizations with a grid given by the width and height of its rectangles",
 breaks="simulated patterns are counted on a 3 x 3 grid, not the grid of the observed pattern"),
dict(id="c13-uniform-circle-fast-path", property="C13",
 edits=[("random.py", "        if hull is None:\n            in_hull = True\n", "        if hull is None or (\n            _contains(hull, center_x - r, center_y - r)\n            and _contains(hull, center_x + r, center_y + r)\n        ):\n            # the circle is inside, no need to check each candidate\n            in_hull = True\n")],
 demo='''
import numpy as np, shapely
from pointpats.random import cluster_poisson
ring = shapely.box(0, 0, 10, 10).difference(shapely.box(4, 4, 6, 6))
bad = 0
for seed in range(25):
    p = cluster_poisson(ring, size=60, n_seeds=3, cluster_radius=2.5, rng=seed)
    bad += (~shapely.contains_xy(ring.buffer(1e-9), p)).sum()
assert bad == 0, bad
''', needs="a hull with a hole (or concave) and a cluster whose bounding corners are inside the hull",
 breaks="points of a cluster fall in the hole"),
dict(id="c14-seed-zero", property="C14",
 edits=[("random.py", "    bbox = _bbox(hull)\n    rng = numpy.random.default_rng(rng)\n    for i_replication in range(n_simulations):\n        i_observation = 0\n        while i", "    bbox = _bbox(hull)\n    rng = numpy.random.default_rng(rng or None)\n    for i_replication in range(n_simulations):\n        i_observation = 0\n        while i")],
 demo='''
import numpy as np
from pointpats.random import poisson
hull = np.array([0., 0., 1., 1.])
for s in (0, 1, 7):
    assert np.array_equal(poisson(hull, size=5, rng=s), poisson(hull, size=5, rng=s)), s
''', needs="the integer seed 0", breaks="seed 0 is taken for no seed, so the simulation is not reproducible"),
dict(id="c15-cov-normalised-in-place", property="C15",
 edits=[("random.py", "        replication_cor = (1 / replication_sd) * replication_cov * (1 / replication_sd)\n", "        replication_cor = replication_cov\n        replication_cor *= 1 / replication_sd\n        replication_cor *= 1 / replication_sd\n")],
 demo='''
import numpy as np
from pointpats.random import normal
hull = np.array([-1e4, -1e4, 1e4, 1e4])
p = normal(hull, center=np.zeros(2), cov=np.diag([4., 4.]) * 100, size=(400, 3), rng=5)
sd = p.std(axis=1)
assert (abs(sd / 20 - 1) < .25).all(), sd
''', needs="several replications with one floating point covariance matrix",
 breaks="the covariance is normalised in place, so every replication after the first has unit variance (and the caller's matrix is changed)"),
dict(id="c16-draw-only-missing", property="C16",
 edits=[("process.py", "            pnts = self.realize(n)\n", "            pnts = self.realize(n - c)\n")],
 demo='''
import numpy as np
from pointpats import Window
from pointpats.process import PoissonClusterPointProcess as P, PoissonPointProcess
tri = Window([[(0, 0), (0, 10), (10, 0), (0, 0)]])
for s in range(20):
    np.random.seed(s)
    r = P(tri, 12, 3, 1.0, 2).realizations
    assert all(r[i].shape == (12, 2) for i in range(2))
    assert all((r[i].sum(axis=1) <= 10 + 1e-9).all() for i in range(2))
''', needs="a cluster process in a window smaller than its bounding box, so that a further draw of fewer points than one cluster is needed",
 breaks="drawing fewer points than a cluster has asks for zero parents and fails"),
dict(id="c17-from-dataframe-integer-times", property="C17",
 edits=[("spacetime.py", "    t_coords = np.vstack(dataframe[time_col].values)\n", '    t_coords = dataframe[[time_col]].to_numpy(dtype="int64")\n')],
 demo='''
import numpy as np, geopandas as gpd
from pointpats import KnoxLocal
xy = np.array([[0., 0.], [1., 0.], [0., 1.], [5., 5.], [5., 6.]])
t = np.array([0.9, 1.1, 2.95, 0.1, 0.95])
df = gpd.GeoDataFrame({"t": t}, geometry=gpd.points_from_xy(*xy.T), crs=3857)
a = KnoxLocal.from_dataframe(df, "t", 1.5, .5, permutations=0)
b = KnoxLocal(xy, t[:, None], 1.5, .5, permutations=0)
assert a.nst == b.nst == 1 and (a.nsti == b.nsti).all(), (a.nst, b.nst)
''', needs="KnoxLocal.from_dataframe with times that are not whole numbers",
 breaks="times are truncated, so other pairs are temporal neighbours than with arrays"),
dict(id="c18-mantel-strict", property="C18",
 edits=[("spacetime.py", '''        m = stats.pearsonr(timevec, distvec)[0].sum()
        dist.append(m)

    # establish the pseudo significance of the observed statistic
    distribution = np.array(dist)
    greater = np.ma.masked_greater_equal(distribution, stat)
''', '''        m = stats.pearsonr(timevec, distvec)[0].sum()
        dist.append(m)

    # establish the pseudo significance of the observed statistic
    distribution = np.array(dist)
    greater = np.ma.masked_greater(distribution, stat)
''')],
 demo='''
import numpy as np
from pointpats import mantel
s = np.array([[0., 0.], [4., 0.], [9., 3.]]); t = np.array([[1.], [1.], [1.5]])
np.random.seed(1)
r = mantel(s, t, permutations=99)
# a third of the relabelings give the observed statistic itself, which is the largest one
assert r["pvalue"] > .15, r
''', needs="permutations that reproduce the observed statistic (few events or tied times)",
 breaks="simulated statistics equal to the observed one are not counted in the pseudo p-value"),
dict(id="c19-hotspots-strict", property="C19",
 edits=[("spacetime.py", '        pdf_sig = self._gdf[self._gdf[col] <= crit][[col, "time"]].rename(\n', '        pdf_sig = self._gdf[self._gdf[col] < crit][[col, "time"]].rename(\n')],
 demo='''
import numpy as np
from pointpats import KnoxLocal
xy = np.array([[0., 0.], [1., 0.], [0., 1.], [9., 9.], [20., 6.], [31., 2.], [44., 9.]])
t = np.array([[1.], [2.], [1.], [30.], [50.], [75.], [99.]])
kl = KnoxLocal(xy, t, 2, 2, permutations=0)
crit = float(np.unique(kl.p_hypergeom)[0])
hs = kl.hotspots(crit=crit, inference="analytic", keep_neighbors=False)
assert sorted(hs.focal) == sorted(np.flatnonzero(kl.p_hypergeom <= crit)), hs
''', needs="a p-value exactly equal to the critical value",
 breaks="events whose p-value equals the critical value are left out"),
dict(id="c20-mantel-swapped-constants", property="C20",
 edits=[("spacetime.py", "    timevec = (timemat[np.tril_indices(timemat.shape[0], k=-1)] + tcon) ** tpow\n", "    timevec = (timemat[np.tril_indices(timemat.shape[0], k=-1)] + scon) ** tpow\n")],
 demo='''
import numpy as np
from scipy.spatial.distance import pdist
from pointpats import mantel
s = np.array([[0., 0.], [4., 0.], [9., 3.], [2., 7.]]); t = np.array([[1.], [3.], [1.5], [8.]])
got = mantel(s, t, permutations=0, scon=0.5, tcon=3.0)
want = np.corrcoef((pdist(s) + .5) ** -1., (pdist(t) + 3.) ** -1.)[0, 1]
assert np.isclose(got, want), (got, want)
''', needs="different constants for space and time", breaks="the spatial constant is added to temporal distances"),
dict(id="c21-days-since-first-row", property="C21",
 edits=[("spacetime.py", "                day1 = min(col)\n", "                day1 = col[0]\n")],
 demo='''
import os, tempfile, datetime, numpy as np, libpysal as lps
from pointpats import SpaceTimeEvents
with tempfile.TemporaryDirectory() as d:
    p = os.path.join(d, "ev")
    f = lps.io.open(p + ".shp", "w")
    for xy in [(0., 1.), (2., 3.), (4., 5.)]:
        f.write(lps.cg.Point(xy))
    f.close()
    db = lps.io.open(p + ".dbf", "w")
    db.header = ["T"]; db.field_spec = [("D", 8, 0)]
    for x in (datetime.date(2020, 1, 5), datetime.date(2020, 1, 1), datetime.date(2020, 2, 1)):
        db.write([x])
    db.close()
    ev = SpaceTimeEvents(p + ".shp", "T", infer_timestamp=True)
    assert ev.t.ravel().tolist() == [4, 0, 31], ev.t
''', needs="a date column whose first row is not the earliest date",
 breaks="days are counted from the date in the first row"),
dict(id="c22-weights-normalised-in-place", property="C22",
 edits=[("centrography.py", "    points, weights = np.asarray(points), np.asarray(weights)\n    w = weights * 1.0 / weights.sum()\n", "    points, w = np.asarray(points), np.asarray(weights, dtype=float)\n    w /= w.sum()\n"), ("centrography.py", "    w.shape = (1, len(points))\n    return np.dot(w, points)[0]\n", "    return np.dot(w.reshape(1, len(points)), points)[0]\n")],
 demo='''
import numpy as np
from pointpats import centrography as c
pts = np.array([[0., 0.], [1., 5.], [4., 2.]]); w = np.array([1., 2., 5.])
c.weighted_mean_center(pts, w)
assert w.tolist() == [1., 2., 5.], w
''', needs="weights given as an array of floats", breaks="the caller's weights are normalised in place"),
dict(id="c23-weights-aligned-on-index", property="C23",
 edits=[("centrography.py", "    coords = shapely.get_coordinates(points.geometry)\n    return shapely.Point(weighted_mean_center(coords, weights))\n", "    coords = points.get_coordinates()\n    w = coords.assign(w=weights).w\n    return shapely.Point(weighted_mean_center(coords.values, w.values))\n")],
 demo='''
import numpy as np, pandas as pd, geopandas as gpd
from pointpats import centrography as c
xy = np.array([[0., 0.], [1., 5.], [4., 2.]]); w = pd.Series([1., 2., 5.])
g = gpd.GeoSeries(gpd.points_from_xy(*xy.T), index=[2, 1, 0])
p = c.weighted_mean_center(g, w)
assert np.allclose([p.x, p.y], c.weighted_mean_center(xy, w.values)), p
''', needs="geopandas points and weights in a Series with another index",
 breaks="weights are aligned with the points by index label instead of position"),
dict(id="c24-square-margin", property="C24",
 edits=[("kde.py", "        y_margin = (ymax - ymin) * margin\n", "        y_margin = x_margin\n")],
 demo='''
import numpy as np, matplotlib; matplotlib.use("Agg")
import matplotlib.pyplot as plt
from pointpats import plot_density
seen = {}
fig, ax = plt.subplots()
real = ax.contour
def spy(x, y, z, *a, **k):
    seen.update(x=x, y=y, z=z); return real(x, y, z, *a, **k)
ax.contour = spy
plot_density(np.array([[0., 0.], [10., 1.], [4., 2.], [6., 0.5]]), 1.0, resolution=9, margin=.5, ax=ax)
assert np.isclose(np.min(seen["x"]), -5) and np.isclose(np.max(seen["x"]), 15)
assert np.isclose(np.min(seen["y"]), -1) and np.isclose(np.max(seen["y"]), 3), seen["y"]
''', needs="data whose extent is not square", breaks="the grid's height is widened by the margin times the width"),
]
