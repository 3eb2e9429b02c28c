"""C02: neighbour queries of a PointPattern against brute force distances."""
import itertools
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of point configurations (all sequences/multisets on a "
              "lattice) x queries, real code against brute force",
    level_note="Every configuration of up to 6 points on a 3x3 lattice (coincident points, ties, "
               "collinear) for every k and radius, plus fixed larger patterns that make the "
               "kd-tree split; other configurations are not covered.",
    rule="a case is a point sequence in a frame; an outcome is its sorted distance matrix",
    bounds=dict(quick="all ordered sequences of 2-4 points and all multisets of 5 points on 3x3, all k < n, "
                      "all radii between and on attained distances; 5 frames for n<=3; geometry trees on multisets of 2-4 x up to 13 metrics x all k; 8 families "
                      "n in {12, 40, 150}",
                thorough="plus all multisets of 6 and 7 points on 3x3 and 5 points on 4x4, families "
                         "up to n=600, 5 frames for all families"),
    assumptions=["numpy arithmetic", "equality of a distance and r is only required where exact"],
)


def cases(tier, seed):
    q = tier == "quick"
    for n in (2, 3, 4):
        for s in itertools.product(lib.lattice(3), repeat=n):
            if n == 4 and q and s[0] > s[1]:
                continue
            yield dict(p=s, f="id")
    for n in (2, 3):
        for s in lib.multisets(3, 3, n):
            for f in lib.FRAMES:
                if f != "id":
                    yield dict(p=s, f=f)
    for s in lib.multisets(3, 3, 5):
        yield dict(p=s, f="id")
    for n in (2, 3):
        for s in lib.multisets(3, 3, n):
            yield dict(op="dtype", p=s, f="id")
    for n in (2, 3, 4):
        for i, s in enumerate(lib.multisets(3, 3, n)):
            if not q or n < 4 or i % 3 == seed % 3:
                yield dict(op="tree", p=s, f=("id", *lib.FRAMES)[i % 8])
    for n in ((12, 60) if q else (12, 25, 60, 150, 400)):
        for k in lib.KINDS:
            yield dict(op="tree", kind=k, n=n, f=("id", "proj")[n % 5 == 0], seed=seed)
    for n in ((12, 40, 150) if q else (12, 25, 40, 80, 150, 300, 600)):
        for k in lib.KINDS:
            for f in (("id", "proj") if q else lib.FRAMES):
                yield dict(kind=k, n=n, f=f, seed=seed)
    if q:
        for k in ("grid", lib.KINDS[seed % 8]):
            yield dict(kind=k, n=400, f="id", seed=seed)
    if not q:
        for n in (6, 7):
            for s in lib.multisets(3, 3, n):
                yield dict(p=s, f="id")
        for s in lib.multisets(4, 4, 5):
            yield dict(p=s, f="id")


def points(case):
    p = case["p"] if "p" in case else lib.structured(case["n"], case["kind"], case["seed"])
    return lib.frame(p, case["f"])


def check_rows(ctx, ids, d, D, k, what, self_excluded):
    n, m = D.shape
    ids, d = np.asarray(ids).reshape(n, k), np.asarray(d, float).reshape(n, k)
    scale = D.max() + 1e-300
    want = np.array(D)
    if self_excluded:
        want[np.arange(n), np.arange(n)] = np.inf
    want = np.sort(want, 1)[:, :k]
    ctx.close(d, want, what + " distances", rtol=1e-9, atol=1e-9 * scale)
    ctx.check(((ids >= 0) & (ids < m)).all(), lambda: "%s ids out of range: %r" % (what, ids.tolist()))
    ctx.close(np.take_along_axis(D, ids, 1), d, what + ": distance of the listed neighbour",
              rtol=1e-9, atol=1e-9 * scale)
    srt = np.sort(ids, 1)
    ctx.check((srt[:, 1:] != srt[:, :-1]).all(), lambda: "%s lists a neighbour twice: %r" % (what, ids.tolist()))
    if self_excluded:
        ctx.check((ids != np.arange(n)[:, None]).all(),
                  lambda: "%s lists the point itself: %r" % (what, ids.tolist()))


def judge_dtype(case, ctx):
    """patterns and queries of different number types"""
    from pointpats import PointPattern
    P = np.asarray(case["p"])
    n = len(P)
    Q = np.array([(x + dx, y + dy) for x, y in case["p"] for dx, dy in ((0.6, 0.0), (-0.7, 0.9), (0.4, 1.55), (2.5, -1.3))])
    ctx.state("dtype", P)
    for nm, p, q in (("int pattern, float queries", P.astype(int), Q), ("float pattern, int queries", P + 0.25, np.round(Q).astype(int)),
                     ("int8 pattern, float queries", P.astype(np.int8), Q), ("float32 pattern, float queries", P.astype(np.float32), Q + 1e-9),
                     ("int pattern, large queries", P.astype(np.int8), Q * 1000)):
        D = lib.dist_matrix(np.asarray(q, float), np.asarray(p, float))
        pp = PointPattern(p)
        for k in range(1, n + 1):
            forms = [("list", q.tolist()), ("list of arrays", list(q)), ("tuples in a list", [tuple(t) for t in q.tolist()]),
                     ("pattern", PointPattern(q)), ("pattern of a list", PointPattern(q.tolist()))]
            for fn, v in forms:
                ids, d = pp.knn_other(v, k=k)
                check_rows(ctx, ids, d, D, k, "knn_other(%s, %s, %d)" % (nm, fn, k), False)
                ctx.step()
        D = lib.dist_matrix(np.asarray(p, float))
        for k in range(1, n):
            ids, d = pp.knn(k)
            check_rows(ctx, ids, d, D, k, "knn(%d), %s" % (k, nm), True)
        for r in (0, 1, 1.5, 2.3, 3, 9):
            want = {(i, j) for i, j in zip(*np.where(np.triu(D <= r, 1)))}
            ctx.check({tuple(map(int, t)) for t in pp.find_pairs(r)} == want, lambda: "find_pairs(%r), %s" % (r, nm))
            again = pp.find_pairs(r)
            again.clear()
            ctx.check({tuple(map(int, t)) for t in pp.find_pairs(r)} == want, lambda: "find_pairs(%r) after its result was changed" % r)
            ctx.step(2)
        ctx.outcome(np.sort(D.ravel()))
    ctx.trace()


def _weighted(a, b):
    return abs(a[0] - b[0]) + 2 * abs(a[1] - b[1])


def judge_tree(case, ctx):
    """the trees and neighbour lists behind the distance statistics, for every kind of tree and metric"""
    from pointpats import geometry as G
    from scipy import spatial
    from sklearn.neighbors import BallTree, KDTree
    P = points(case)
    n = len(P)
    ctx.state("tree", P)
    metrics = ["euclidean", "l2", "l1", "manhattan", "cityblock", "p", "minkowski", "chebyshev", "infinity"]
    if n <= 12:
        metrics += ["canberra", "hamming", "haversine", _weighted]
    for m in metrics:
        X = P
        name = m if isinstance(m, str) else "function"
        if m == "haversine":
            X = (P - P.min(0)) / (np.ptp(P) + 1e-300)        # radians
            la, lo = X[:, :1], X[:, 1:]
            D = 2 * np.arcsin(np.sqrt(np.sin((la - la.T) / 2) ** 2 + np.cos(la) * np.cos(la.T) * np.sin((lo - lo.T) / 2) ** 2))
        elif m is _weighted:
            D = np.array([[_weighted(a, b) for b in P] for a in P])
        elif m in ("canberra", "hamming"):
            X = P - P.min(0) + 1
            a, b = X[:, None], X[None]
            D = (np.abs(a - b) / (np.abs(a) + np.abs(b))).sum(-1) if m == "canberra" else (a != b).mean(-1)
        else:
            D = lib.dist_matrix(P, metric={"l2": "euclidean", "p": "euclidean", "minkowski": "euclidean", "l1": "cityblock", "manhattan": "cityblock",
                                           "infinity": "chebyshev"}.get(m, m))
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            trees = [("best tree", G.build_best_tree(X if n % 2 else X.tolist(), m))]
        if m == "euclidean":
            trees += [("scipy KDTree", spatial.KDTree(X)), ("scipy KDTree with leaves of 1", spatial.KDTree(X, leafsize=1))]
        if m in ("cityblock", "chebyshev"):
            trees += [("BallTree", BallTree(X, metric=m)), ("KDTree with leaves of 1", KDTree(X, metric=m, leaf_size=1))]
        for tn, t in trees:
            for k in range(1, n) if n <= 6 else sorted({k for k in (1, 2, 5, 9, 17, n - 1) if k < n}):
                d, ids = G.k_neighbors(t, X, k)
                ctx.check(np.shape(d) == (n, k) and np.shape(ids) == (n, k), lambda: "k_neighbors(%s, %s, %d): shapes %r %r" % (tn, name, k, np.shape(d), np.shape(ids)))
                check_rows(ctx, ids, d, D, k, "k_neighbors(%s, metric %s, k=%d) of %s" % (tn, name, k, X.tolist() if n < 8 else case), True)
                ctx.step()
    ctx.outcome(n)
    ctx.trace()


def judge(case, ctx):
    from pointpats import PointPattern
    if case.get("op") == "tree":
        return judge_tree(case, ctx)
    if case.get("op") == "dtype":
        return judge_dtype(case, ctx)
    p = points(case)
    n = len(p)
    D = lib.dist_matrix(p)
    if not ctx.state(D):
        pass
    ctx.outcome(np.sort(D.ravel()))
    pp = PointPattern(p.tolist() if n < 4 else p)
    ks = range(1, n) if n <= 8 else sorted({k for k in (1, 2, 3, 7, 9, 17, n // 2, n - 1) if k < n})
    for k in ks:
        ids, d = pp.knn(k)
        ctx.step()
        if n <= 8 or k <= 7:
            ctx.check(np.asarray(ids).shape == (n, k), "knn(%d) shape %s" % (k, np.asarray(ids).shape))
        check_rows(ctx, ids, d, D, k, "knn(%d)" % k, True)
    for bad in (0, -1):
        try:
            pp.knn(bad)
            ctx.fail("knn(%d) accepted" % bad)
        except ValueError:
            pass
    off = D + np.diag([np.inf] * n)
    nn = off.min(1)
    sc = 1e-9 * (D.max() + 1e-300)
    # fresh pattern: the summaries before nnd was ever read
    q = PointPattern(p)
    ctx.close(q.mean_nnd, nn.mean(), "mean_nnd", atol=sc)
    ctx.close(q.max_nnd, nn.max(), "max_nnd", atol=sc)
    ctx.close(q.min_nnd, nn.min(), "min_nnd", atol=sc)
    ctx.close(np.ravel(q.nnd), nn, "nnd", atol=sc)
    ctx.step(4)
    # find_pairs
    vals = np.unique(D[np.triu_indices(n, 1)])
    if len(vals) > 12:
        vals = vals[np.linspace(0, len(vals) - 1, 12).astype(int)]
    radii = [v * 1.0000001 + 1e-300 for v in vals] + [v * 0.9999999 for v in vals if v > 0]
    if case["f"] == "id" and "p" in case:
        radii += [v for v in vals if v == int(v)] + [0.0]
    for r in radii:
        want = {(i, j) for i, j in zip(*np.where(np.triu(D <= r, 1)))}
        got = pp.find_pairs(r)
        ctx.step()
        ctx.check({tuple(map(int, t)) for t in got} == want,
                  lambda: "find_pairs(%r): got %r, expected %r" % (r, sorted(got)[:20], sorted(want)[:20]))
    # knn_other with patterns and lists
    others = [p[::-1][: max(1, n - 1)], p.mean(0)[None] + [[0.0, 0.0], [D.max(), 0.25]]]
    for o in others:
        DO = lib.dist_matrix(o, p)
        for k in (range(1, n + 1) if n <= 8 else sorted({k for k in (1, 3, 7, 9, 17, n // 2, n) if k <= n})):
            ids, d = pp.knn_other(o.tolist(), k=k)
            check_rows(ctx, ids, d, DO, k, "knn_other(list, %d)" % k, False)
            ctx.step()
            if n > 8:
                ids, d = pp.knn_other(PointPattern(o), k=k)
                check_rows(ctx, ids, d, DO, k, "knn_other(pattern, %d)" % k, False)
                ctx.step()
        ids, d = pp.knn_other(PointPattern(o))
        check_rows(ctx, ids, d, DO, 1, "knn_other(pattern)", False)
        ids, d = pp.knn_other(PointPattern(np.column_stack([o[:, 1], np.arange(len(o)), o[:, 0]]),
                                           names=["b", "m", "a"], coord_names=["a", "b"]), k=min(2, n))
        check_rows(ctx, ids, d, DO, min(2, n), "knn_other(marked pattern)", False)
        ctx.step(2)
    try:
        pp.knn_other([[0.0, 0.0]], k=0)
        ctx.fail("knn_other(k=0) accepted")
    except ValueError:
        pass
    ctx.trace()
