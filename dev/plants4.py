PLANTS = [
dict(id="c26-square-grid-ids", property="C26",
 edits=[("quadrat_statistics.py", "                cell_id = ix + iy * self.count_column\n                poly", "                cell_id = ix + iy * self.count_row\n                poly")],
 demo='''
import matplotlib; matplotlib.use("Agg")
import numpy as np
from pointpats.quadrat_statistics import RectangleM
p = np.array([[0, 0], [1, 0], [1, .2], [5, 0], [6, 2], [5.5, 1.9]], dtype=float)
ax, ids = RectangleM(p, 3, 2).plot()
assert sum(int(t.get_text()) for t in ax.texts) == 6, [t.get_text() for t in ax.texts]
''', needs="a grid with different numbers of columns and rows", breaks="labels of the quadrats are taken from other cells"),
dict(id="c26-odd-columns-by-id", property="C26",
 edits=[("quadrat_statistics.py", "            if ix % 2 == 1:\n                cy = (iy * 2.0 + 1.0)", "            if cell_id % 2 == 1:\n                cy = (iy * 2.0 + 1.0)")],
 demo='''
import matplotlib; matplotlib.use("Agg")
import numpy as np
from pointpats.quadrat_statistics import HexagonM
rng = np.random.default_rng(1)
for w in (3, 4, 5, 6, 7, 8):
    p = rng.random((60, 2)) * [w, 5]
    h = HexagonM(p, 1.)
    ax, ids = h.plot()
    xy = np.array([t.get_position() for t in ax.texts])
    d = np.hypot(*(xy[:, None] - xy[None]).T) + np.eye(len(xy)) * 9
    assert d.min() > 1.7, (w, d.min())
    for q in p:
        assert np.hypot(*(xy - q).T).min() <= 1 + 1e-9, w
''', needs="an odd number of hexagon columns and more than one row", breaks="the hexagons of every second row are drawn in the wrong place"),
dict(id="c26-part-holes", property="C26",
 edits=[("quadrat_statistics.py", "        for poly in window_geom.geoms:\n            paths.extend(_window_to_paths(poly))\n", "        for poly in window_geom.geoms:\n            x, y = poly.exterior.xy\n            paths.append((np.asarray(x), np.asarray(y)))\n")],
 demo='''
import matplotlib; matplotlib.use("Agg")
import numpy as np, shapely
from pointpats.quadrat_statistics import RectangleM
p = np.array([[0, 0], [1, 0], [1, .2], [5, 0], [6, 2], [5.5, 1.9]], dtype=float)
w = shapely.MultiPolygon([shapely.Polygon(shapely.box(-1, -1, 8, 8).exterior, [shapely.box(2, 1, 3, 1.5).exterior]), shapely.box(9, 9, 10, 10)])
ax, ids = RectangleM(p, 3, 2, window=w).plot()
assert len(ax.lines) == 3, len(ax.lines)
''', needs="a multipart window with a hole", breaks="the holes of multipart windows are not drawn"),
]
PLANTS += [
dict(id="c27-edge-correction-other-metrics", property="C27",
 edits=[("distance_statistics.py", "    if edge_correction is not None:\n", "    if edge_correction is not None and metric == \"euclidean\":\n")],
 demo='''
import numpy as np
from pointpats import g
p = np.array([[0, 0], [1, 0], [1, 2], [5, 0], [6, 2.]])
try:
    r = g(p, support=np.linspace(0, 3, 4), metric="cityblock", edge_correction="ripley")
except NotImplementedError:
    pass
else:
    raise SystemExit("uncorrected values are returned although edge correction was asked for: %s" % (r,))
''', needs="edge correction asked for together with a metric other than the Euclidean", breaks="uncorrected values are returned although an edge correction was asked for"),
dict(id="c27-distances-of-others", property="C27",
 edits=[("distance_statistics.py", "        elif distances.shape[0] == distances.shape[1] == n:\n            upper", "        elif distances.shape[0] == distances.shape[1]:\n            upper")],
 demo='''
import numpy as np
from pointpats import k
p = np.array([[0, 0], [1, 0], [1, 2], [5, 0], [6, 2.]])
d = np.hypot(*(p[:, None] - p[None]).T)[:4, :4]
try:
    k(p, support=np.linspace(0, 3, 4), distances=d)
except ValueError:
    pass
else:
    raise SystemExit("distances between 4 points are accepted for 5")
''', needs="a square matrix of distances between another number of points", breaks="K is computed from distances that belong to other points"),
dict(id="c27-geographic-other-than-wgs84", property="C27",
 edits=[("spacetime.py", "        if dataframe.crs.is_geographic:", "        if dataframe.crs.to_epsg() == 4326:")],
 demo='''
import numpy as np, geopandas as gpd
from pointpats.spacetime import Knox
g = gpd.GeoDataFrame({"t": [1., 2, 3, 4]}, geometry=gpd.points_from_xy([1, 2, 3, 4.], [1, 1, 2, 2.]), crs=4269)
try:
    Knox.from_dataframe(g, time_col="t", delta=1.5, tau=1, permutations=0)
except ValueError:
    pass
else:
    raise SystemExit("NAD83 longitude and latitude are accepted")
''', needs="a geographic reference system other than EPSG:4326", breaks="angles are taken for distances"),
]
PLANTS += [
dict(id="c28-result-type-name", property="C28",
 edits=[("distance_statistics.py", '    "JtestResult", ("support", "statistic", "pvalue", "simulations")\n', '    "JTestResult", ("support", "statistic", "pvalue", "simulations")\n')],
 demo='''
import pickle
import numpy as np
from pointpats import j_test
p = np.array([[0, 0], [1, 0], [1, 2], [5, 0], [6, 2.]])
r = j_test(p, support=np.linspace(0, 3, 4), n_simulations=1, n_jobs=1)
assert pickle.loads(pickle.dumps(r)).support.tolist() == r.support.tolist()
''', needs="a pickled result of j_test", breaks="results of j_test cannot be pickled"),
dict(id="c28-head-of-the-original", property="C28",
 edits=[("pointpattern.py", "        self.head = self.df.head\n", "        df = self.df\n        self.head = lambda n=5: df.head(n)\n")],
 demo='''
import copy
from pointpats import PointPattern
a = PointPattern([[0, 0], [1, 2]])
b = copy.deepcopy(a)
b.add_marks([[5, 6]], mark_names=["m"])
assert list(b.head().columns) == ["x", "y", "m"], list(b.head().columns)
''', needs="a deep copy whose marks are changed afterwards", breaks="head() of the copy shows the table of the original (and patterns cannot be pickled)"),
]
