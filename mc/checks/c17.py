"""C17: space-time neighbour counts, tables and Poisson p-values against brute force."""
import itertools
import math
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of space-time configurations (all multisets of events on a space-time lattice, incl. coincident events) x "
              "thresholds at, between and beyond the lattice distances, on the real code, against brute-force pair counting",
    level_note="Exact thresholds are used only where distances are exactly representable; larger sets of events come from 8 structured families.",
    rule="a case is a multiset of events (or a structured family) with all threshold pairs; an outcome is the table of counts",
    bounds=dict(quick="all multisets of 2 and 3 events on 3x2 positions x 3 times, a third of the 4-event ones on 2x2x2, rotating frames and thresholds; 8 families of 12..150 events, 3 of 700",
                thorough="all multisets of up to 4 events on 3x2x3, all thresholds; families in all frames"),
    assumptions=["shapely/geopandas points"],
)
DELTAS = (0.0, 0.6, 1.0, 1.7, 2.0, 9.0)
TAUS = (0.0, 0.5, 1.0, 1.5, 2.0, 9.0)
EXACT = ("id", "proj", "neg", "big")


def cases(tier, seed):
    q = tier == "quick"
    i = seed
    ev = [(x, y, t) for x in range(3) for y in range(2) for t in range(3)]
    for n in (2, 3, 4):
        S = ev if n < 4 or not q else [e for e in ev if e[0] < 2 and e[2] < 2]
        C = list(itertools.combinations_with_replacement(S, n))
        for lo in range(0, len(C), 6):
            i += 1
            if q and n == 4 and i % 3:
                continue
            yield dict(op="multi", ev=C[lo:lo + 6], f=EXACT[i % 4], r=i, all=not q)
    for kind in lib.KINDS:
        for n in (12, 40, 150):
            for j, f in enumerate(lib.FRAMES):
                i += 1
                if not q or j == (i // 6) % len(lib.FRAMES):
                    yield dict(op="family", kind=kind, n=n, f=f, r=i)
    for j, kind in enumerate(lib.KINDS):
        if not q or j % 3 == seed % 3:
            yield dict(op="family", kind=kind, n=700, f=list(lib.FRAMES)[j % len(lib.FRAMES)], r=j + seed)
    for e in ("empty", "one"):
        yield dict(op="edge", e=e)
    for f in lib.FRAMES:
        yield dict(op="frame", f=f)
        yield dict(op="reject", f=f)
    for k in range(4):
        yield dict(op="dtype", k=k)


def brute(S, T, delta, tau):
    """(near pairs in space, time, both) as boolean matrices without the diagonal"""
    n = len(S)
    off = ~np.eye(n, dtype=bool)
    ds = lib.dist_matrix(S)
    dt = np.abs(T[:, None] - T[None, :])
    return (ds <= delta) & off, (dt <= tau) & off


def poisson_sf(k, mu):
    """P(X > k)"""
    if mu == 0:
        return 0.0
    s = math.fsum(math.exp(j * math.log(mu) - mu - math.lgamma(j + 1)) for j in range(int(k) + 1))
    return max(0.0, 1 - s)


def verify(ctx, S, T, delta, tau, what, cov=(), t_arg=None, s_arg=None):
    from pointpats import Knox, KnoxLocal, knox, modified_knox
    n = len(S)
    A, B = brute(S, T, delta, tau)
    ns, nt = A.sum() / 2, B.sum() / 2
    AB = A & B
    nst = AB.sum() / 2
    pairs = n * (n - 1) / 2
    obs = np.array([[nst, ns - nst], [nt - nst, pairs - ns - nt + nst]])
    e = ns * nt / pairs
    exp = np.array([[e, ns - e], [nt - e, pairs - ns - nt + e]])
    t2 = T.reshape(-1, 1) if t_arg is None else t_arg
    s2 = S if s_arg is None else s_arg
    objs = [("Knox", Knox(s2, t2, delta, tau, permutations=0))]
    if "local" in cov:
        L = KnoxLocal(s2, t2, delta, tau, permutations=0)
        objs.append(("KnoxLocal", L))
        ctx.eq(L.nsti, AB.sum(1), "%s: KnoxLocal.nsti" % what)
        ctx.eq(L.statistic_, AB.sum(1), "%s: KnoxLocal.statistic_" % what)
    for name, k in objs:
        ctx.check(k.nst == nst and isinstance(k.nst, int), lambda: "%s: %s.nst=%r, %r pairs are close in both" % (what, name, k.nst, nst))
        if name == "Knox":
            ctx.check(k.statistic_ == nst, lambda: "%s: statistic_=%r, %r" % (what, k.statistic_, nst))
        ctx.eq(k.observed, obs, "%s: %s.observed" % (what, name))
        ctx.close(k.expected, exp, "%s: %s.expected" % (what, name), rtol=1e-9, atol=1e-9)
        ctx.close(k.p_poisson, poisson_sf(nst, e), "%s: %s.p_poisson" % (what, name), rtol=1e-7, atol=1e-9)
    if "old" in cov:
        ctx.check(knox(s2, t2, delta, tau, permutations=0) == {"stat": nst}, lambda: "%s: knox gives %r, %r pairs are close in both" % (
            what, knox(s2, t2, delta, tau, permutations=0), nst))
        m = modified_knox(s2, t2, delta, tau, permutations=0)
        ctx.close(m, nst - (A.sum(1) * B.sum(1)).sum() / (2 * (n - 1)), "%s: modified_knox" % what, rtol=1e-9, atol=1e-9)
    ctx.outcome(n, obs, AB.sum(1))
    ctx.step()


def judge(case, ctx):
    import warnings
    import geopandas as gpd
    import pandas as pd
    import shapely
    from pointpats import Knox, KnoxLocal, knox
    op = case["op"]
    if op == "multi":
        s, dx, dy = lib.FRAMES[case["f"]]
        for q, ev in enumerate(case["ev"]):
            ev = np.array(ev, float)
            ctx.state(ev, case["f"])
            r = case["r"] + q
            # all orders of the events would give the same counts: use one reversed half of the time
            if r % 2:
                ev = ev[::-1]
            S = ev[:, :2] * s + [dx, dy]
            ts, toff = ((1.0, 0.0), (7.0, -10.0), (0.25, 1000.0), (1.0, 738000.0), (60.0, 1.7e9))[r % 5]
            T = ev[:, 2] * ts + toff
            th = list(itertools.product(DELTAS, TAUS))
            if not case["all"]:
                th = [th[(r * 7 + 5 * j) % 36] for j in range(12)]
            for j, (d, u) in enumerate(th):
                what = "events %r, delta=%r, tau=%r" % (np.column_stack([S, T]).tolist(), d * s, u * ts)
                verify(ctx, S, T, d * s, u * ts, what, cov=("old",) + (("local",) if (r + j) % 12 == 0 or case["all"] else ()))
    elif op == "family":
        S, T = family(case["kind"], case["n"], case["f"], case["r"])
        ctx.state(S, T)
        many = ((.004, .1), (.02, .02), (.3, .002), (-1, .3))
        for j, (a, b) in enumerate(((.02, .1), (.1, .02), (.3, .3), (.7, .1), (.05, .9), (1.1, 1.1), (-1, .5), (.2, -1)) if case["n"] < 500 else many):
            d, u = lib.gap(lib.dist_matrix(S), a), lib.gap(np.abs(T[:, None] - T[None, :]), b)
            verify(ctx, S, T, d, u, "%s of %d in frame %s, delta=%r, tau=%r" % (case["kind"], case["n"], case["f"], d, u), cov=("old", "local"))
    elif op == "edge":
        S = np.array([[0, 0], [10, 0], [20, 0], [0, 30.]])
        T = np.array([0, 50, 100, 151.])
        if case["e"] == "empty":
            verify(ctx, S, T, 1.0, 1.0, "no neighbours at all", cov=("old", "local"))
            verify(ctx, S, T, 10.0, 1.0, "no neighbours in time", cov=("old", "local"))
            verify(ctx, S, T, 1.0, 500.0, "no neighbours in space", cov=("old", "local"))
        else:
            verify(ctx, S, T, 10.0, 50.0, "some", cov=("old", "local"))
            verify(ctx, S[[0, 0, 0, 0]], T[[1, 1, 1, 1]], 0.0, 0.0, "all coincident", cov=("old", "local"))
            verify(ctx, S[:2], T[:2], 10, 50, "two", cov=("old", "local"))
        ctx.state(case["e"])
    elif op == "dtype":
        day = 86400 * 10 ** 9
        k = case["k"]
        S = np.array([(0, 0), (0, 1), (3, 4), (60, 6), (60, 5), (61, 5), (0, 0)])
        days = np.array([0, 1, 10, 30, 16, 40, 3])
        T, tau, s_arg = [(days * day, 2 * day, S), ((days * 86400).astype(np.int32), 86400 * 2, S.astype(np.int32)),
                         (days.astype(np.uint8), 3, S.astype(np.int16)), (days.astype(np.int8), 2.5, S.astype(np.float32))][k]
        for d in (0, 1, 2.5, 5, 100):
            for m in (1, 5, 9):
                verify(ctx, S.astype(float), T.astype(float), d, tau * m, "times %s, delta=%r, tau=%r" % (T.dtype, d, tau * m), cov=("old", "local"),
                       t_arg=T.reshape(-1, 1), s_arg=s_arg)
        ctx.state("dtype", k)
    elif op == "frame":
        f = case["f"]
        for n, kind in ((7, "dups"), (25, "cluster"), (40, "grid")):
            S, T = family(kind, n, f, n % 4)
            for crs, idx in itertools.product((None, "EPSG:3857"), ("range", "perm", "str")):
                index = {"range": range(n), "perm": [(7 * i + 3) % (2 * n + 1) for i in range(n)], "str": ["e%d" % i for i in range(n)]}[idx]
                D = gpd.GeoDataFrame({"when": T, "x": np.arange(n)}, geometry=gpd.points_from_xy(*S.T), crs=crs, index=index)
                for a, b in ((.1, .3), (.5, .2), (1.1, 1.1)):
                    d, u = lib.gap(lib.dist_matrix(S), a), lib.gap(np.abs(T[:, None] - T[None, :]), b)
                    A, B = brute(S, T, d, u)
                    for C in (Knox, KnoxLocal):
                        k, w = C.from_dataframe(D, "when", d, u, permutations=0), C(S, T.reshape(-1, 1), d, u, permutations=0)
                        ctx.check(k.nst == (A & B).sum() / 2, lambda: "%s.from_dataframe: nst %r, not %r" % (C.__name__, k.nst, (A & B).sum() / 2))
                        ctx.eq(k.observed, w.observed, "from_dataframe: observed")
                        ctx.eq(k.expected, w.expected, "from_dataframe: expected")
                        ctx.eq(k.p_poisson, w.p_poisson, "from_dataframe: p_poisson")
                        ctx.eq(np.asarray(k.s_coords), S, "from_dataframe: s_coords")
                        ctx.eq(np.asarray(k.t_coords).ravel(), T, "from_dataframe: t_coords")
                        ctx.check(k.delta == d and k.tau == u and k.permutations == 0, "from_dataframe: parameters")
                        ctx.check(not hasattr(k, "sim") and not hasattr(k, "p_sim"), "simulated results without permutations")
                        if C is KnoxLocal:
                            ctx.eq(k.nsti, (A & B).sum(1), "from_dataframe: nsti")
                            ctx.eq(k.p_hypergeom, w.p_hypergeom, "from_dataframe: p_hypergeom")
                        ctx.step()
                # the same table as data frames of coordinates
                k = Knox(pd.DataFrame({"X": S[:, 0], "Y": S[:, 1]}, index=index), pd.DataFrame({"T": T}, index=index), d, u, permutations=0)
                ctx.eq(k.observed, w.observed, "Knox of data frames: observed")
            ctx.state(f, n, kind)
    else:
        f = case["f"]
        S, T = family("uniform", 6, "id", 2)
        good = gpd.GeoDataFrame({"t": T}, geometry=gpd.points_from_xy(*S.T), crs="EPSG:3857")
        bad = {
            "geographic": good.set_crs("EPSG:4326", allow_override=True),
            "line": good.set_geometry([shapely.LineString([p, p + 1]) if i == 3 else shapely.Point(p) for i, p in enumerate(S)], crs="EPSG:3857"),
            "polygon": good.set_geometry([shapely.Point(p).buffer(1) for p in S], crs="EPSG:3857"),
            "multipoint": good.set_geometry([shapely.MultiPoint([p, p + 1]) if i == 5 else shapely.Point(p) for i, p in enumerate(S)], crs="EPSG:3857"),
            "date": good.assign(t=pd.to_datetime(["2020-01-0%d" % (i + 1) for i in range(6)])),
            "text": good.assign(t=[str(v) for v in T]),
        }
        for name, D in bad.items():
            for C in (Knox, KnoxLocal):
                try:
                    C.from_dataframe(D, "t", 1.0, 1.0, permutations=0)
                except ValueError:
                    ctx.step()
                else:
                    ctx.fail("%s.from_dataframe accepts a frame that is not valid: %s" % (C.__name__, name))
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            Knox.from_dataframe(good.set_crs(None, allow_override=True), "t", 1.0, 1.0, permutations=0)
        ctx.check(any("CRS" in str(x.message) for x in w), "no warning about a missing CRS")
        for args in ((S.tolist(), T.reshape(-1, 1)), (S, T.tolist()), (S[:, :1], T.reshape(-1, 1)), (S[:-1], T.reshape(-1, 1))):
            try:
                KnoxLocal(*args, 1.0, 1.0)
            except ValueError:
                ctx.step()
            else:
                ctx.fail("KnoxLocal accepts coordinates that are not valid")
        ctx.state(f)
    ctx.trace()


def family(kind, n, f, r):
    """(positions, times) of a structured family; times in clumps, with ties"""
    S = lib.frame(lib.structured(n, kind, r), f)
    j = np.arange(n)
    T = [np.floor((j * 37 % n) / 3.0), (j * 0.61803398875 % 1) * 100, np.where(j % 4, j // 4, -5) * 10.0, 1.6e9 + (j * j % 11) * 86400.0][r % 4]
    return S, T
