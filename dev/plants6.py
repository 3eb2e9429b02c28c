PLANTS = [
dict(id="c29-pairs-with-slack", property="C29",
 edits=[("pointpattern.py", "        return self.tree.query_pairs(r)", "        return self.tree.query_pairs(r + 1e-7)")],
 demo='''
import numpy as np
from pointpats import PointPattern
p = np.array([[0, 0], [1, 0], [1, 2], [5, 0], [6, 2.]])
s = 2.0**-24
a, b = PointPattern(p).find_pairs(1.5), PointPattern(p * s).find_pairs(1.5 * s)
assert a == b, (a, b)
''', needs="coordinates in a large unit (all distances tiny)", breaks="find_pairs has an absolute slack, so the pairs depend on the unit"),
dict(id="c29-g-support-rounded", property="C29",
 edits=[("distance_statistics.py", "        support = numpy.linspace(0, max_dist, num=support)", "        support = numpy.linspace(0, numpy.ceil(max_dist * 1e6) / 1e6, num=support)")],
 demo='''
import numpy as np
from pointpats import g
p = np.array([[0, 0], [1, 0], [1, 2], [5, 0], [6, 2.]])
s = 2.0**-20
a, b = g(p, support=7), g(p * s, support=7)
assert np.allclose(a[0], b[0] / s) and np.allclose(a[1], b[1]), (a, b)
''', needs="coordinates in a large unit", breaks="the default support is rounded up to a millionth of the unit"),
dict(id="c29-mantel-unit-floor", property="C29",
 edits=[("spacetime.py", "    timevec = (timemat[np.tril_indices(timemat.shape[0], k=-1)] + tcon) ** tpow\n    distvec", "    timevec = (np.maximum(timemat[np.tril_indices(timemat.shape[0], k=-1)], 1e-3) + tcon) ** tpow\n    distvec")],
 demo='''
import numpy as np
from pointpats import mantel
s = np.array([[0, 0], [1, 0], [1, 2], [5, 0], [6, 2.]])
t = np.array([[0], [3], [4], [9], [2.]])
u = 2.0**-16
a, b = mantel(s, t, 0, tcon=1.0), mantel(s, t * u, 0, tcon=1.0 * u)
assert abs(a - b) < 1e-9, (a, b)
''', needs="times in a large unit (differences below a thousandth)", breaks="small time differences are all taken as a thousandth of the unit"),
]
PLANTS = [p for p in PLANTS if p["demo"]]
