DISC = '''
import ctypes, itertools, random, sys
import numpy as np
KEEP = []
class Tape:
    """a bit generator answering doubles from a list, then from a fair generator"""
    def __init__(self, script, seed=0, ints=0):
        self.s, self.r = list(script), random.Random(seed)
        self.bg = np.random.PCG64(ints)
        D = ctypes.CFUNCTYPE(ctypes.c_double, ctypes.c_void_p)
        class BG(ctypes.Structure):
            _fields_ = [("state", ctypes.c_void_p), ("u64", ctypes.c_void_p), ("u32", ctypes.c_void_p), ("dbl", D), ("raw", ctypes.c_void_p)]
        g = ctypes.pythonapi.PyCapsule_GetPointer
        g.restype, g.argtypes = ctypes.c_void_p, [ctypes.py_object, ctypes.c_char_p]
        self.cb = D(lambda _: self.s.pop(0) if self.s else self.r.random())
        BG.from_address(g(self.bg.capsule, b"BitGenerator")).dbl = self.cb
    def gen(self):
        KEEP.append(self)
        return np.random.Generator(self.bg)
'''
PLANTS = [
dict(id="c30-disc-linear-radius", property="C30",
 edits=[("random.py", "    ids, *_ = numpy.where(((x * x + y * y) <= r2) & in_hull)" if False else "        ids, *_ = numpy.where(((x * x + y * y) <= r2) & in_hull)",
         "        if hull is None or not hasattr(hull, \"interiors\") or not hull.interiors:\n            ids, *_ = numpy.where(((x * x + y * y) <= r2) & in_hull)\n        else:\n            ids, *_ = numpy.where(\n                (abs(x) + abs(y) <= r) & in_hull\n            )")],
 demo='''
import numpy as np, shapely
from pointpats import random as r
b = shapely.box(0, 0, 100, 100)
h = shapely.Polygon(b.exterior.coords, [shapely.box(1, 1, 2, 2).exterior.coords])
n = 0
for seed in range(20):
    A = r.cluster_poisson(h, size=200, n_seeds=1, cluster_radius=1.0, rng=seed)
    d = np.abs(A[1:] - A[0])
    n += int((d.sum(1) > 1).sum())
assert n > 500, n
''', needs="a hull with a hole", breaks="children fill a diamond instead of the disc when the hull has holes"),
dict(id="c30-truncate-before-shuffle", property="C30",
 edits=[("process.py", "        np.random.shuffle(res)  # so we don't truncate in a biased fashion",
         "        if not self.keep:\n            np.random.shuffle(res)  # so we don't truncate in a biased fashion")],
 demo='''
import numpy as np
from pointpats import PoissonClusterPointProcess as PC, Window
w = Window([(0, 0), (1, 0), (1, 1), (0, 1), (0, 0)])
# with keep every point of the (single) batch is as likely to be dropped as any other: the parents must be dropped sometimes
firsts = []
for s in range(300):
    np.random.seed(s)
    A = PC(w, 6, 2, 1e-6, 1, keep=True).realizations[0]
    firsts.append(len({tuple(np.round(p, 3)) for p in A[:2]}))
# unshuffled, the two first points are always the two parents
assert 1 in firsts, set(firsts)
''', needs="keep=True and a batch that is cut to size", breaks="the batch is not shuffled when the parents are kept, so the last cluster loses its children"),
dict(id="c30-coarse-uniform", property="C30",
 edits=[("random.py", "            if _contains(hull, x, y):\n                result[i_replication, i_observation] = (x, y)\n                i_observation += 1\n    return result[0] if n_simulations == 1 else result\n\n\ndef normal(",
         "            if i_observation and bbox[2] - bbox[0] > 4 * (bbox[3] - bbox[1]):\n                x = result[i_replication, i_observation - 1, 0] * 0.1 + x * 0.9\n            inside = _contains(hull, x, y)\n            if inside:\n                result[i_replication, i_observation] = (x, y)\n                i_observation += 1\n    return result[0] if n_simulations == 1 else result\n\n\ndef normal(")],
 demo='''
import numpy as np
from pointpats import random as r
c = []
for s in range(30):
    A = r.poisson(np.array([0., 0., 10., 1.]), size=400, rng=s)
    c.append(np.corrcoef(A[:-1, 0], A[1:, 0])[0, 1])
assert abs(np.mean(c)) < 0.05, np.mean(c)
''', needs="a region more than four times as wide as high", breaks="each point depends on the previous one in elongated regions"),
dict(id="c30-strauss-double", property="C30",
 edits=[("random.py", "                    ratio = n_observations * (gamma ** (k_new - k_old))", "                    ratio = n_observations * (gamma ** (2 * (k_new - k_old)))")],
 demo=DISC + '''
from pointpats import random as r
box = np.array([0., 0., 1., 1.])
M = [(i + .5) / 10 for i in range(10)]
I = next(i for i in range(99) if np.random.default_rng(np.random.PCG64(i)).integers(0, 2) == 0)
near = far = n = f = 0
for x, y, u in itertools.product(M, M, M):
    A = r.strauss(box, size=1, gamma=.5, r=.3, n_iter=2, rng=Tape([.5, .5, .25, x, y, u, .75], ints=I).gen())
    t = (x - .5) ** 2 + (y - .5) ** 2 < .09
    moved = abs(A[0] - .5).max() > 1e-6
    if t: near += moved; n += 1
    else: far += moved; f += 1
assert abs((near / n) / (far / f) - .5) < .12, (near / n, far / f)
''', needs="gamma strictly between 0 and 1", breaks="the interaction enters the acceptance ratio squared"),
dict(id="c30-conditioned-mean", property="C30",
 edits=[("process.py", "            lambdas = poisson(self.parents, self.samples)", "            lambdas = poisson(self.n / self.children if self.n % self.parents else self.parents - 0.4, self.samples)")],
 demo='''
import numpy as np
from pointpats import PoissonClusterPointProcess as PC, Window
w = Window([(0, 0), (1, 0), (1, 1), (0, 1), (0, 0)])
np.random.seed(1)
d = PC(w, 4, 2, .1, 3000, conditioning=True)
m = np.mean(list(d.num_parents.values()))
assert abs(m - 2) < .15, m
''', needs="conditioning", breaks="the number of parents has too small a mean"),
dict(id="c30-second-cluster-follows-first", property="C30",
 edits=[("random.py", "                rng=candidate_seeds[i_cluster],", "                rng=candidate_seeds[i_cluster // 2],")],
 demo='''
import numpy as np
from pointpats import random as r
A = r.cluster_normal(np.array([0., 0., 100., 100.]), cov=.01, size=40, n_seeds=4, rng=3)
B = [b[1:] - b[0] for b in np.array_split(A, 4)]
assert not np.allclose(B[0], B[1]) and not np.allclose(B[2], B[3])
''', needs="several clusters", breaks="pairs of clusters have the same displacements"),
dict(id="c04-ripley-shared-kwargs", property="C04",
 edits=[("distance_statistics.py", "PLACEHOLDER", "PLACEHOLDER")],
 demo="", needs="", breaks=""),
]
PLANTS = [p for p in PLANTS if p["demo"]]
