"""C19: KnoxLocal.adjlist and hotspots against the graph of space-time neighbour pairs."""
import itertools
import numpy as np
import lib
import tape

META = dict(
    technique="exhaustive enumeration of event configurations (all multisets on a space-time lattice: every small neighbour graph), identifiers, p-values "
              "(deterministic, or from enumerated generator answers), and every distinct significance level x inference x keep_neighbors, on the real "
              "tables, against a graph reference",
    level_note="Identifiers are integers, permuted integers, strings, dates or tuples; repeated identifiers are not covered.",
    rule="a case is a set of configurations with all levels; an outcome is (degrees, significant set, clusters)",
    bounds=dict(quick="an eighth of the 1365 multisets of 4 events on 4x3 (position, time), paths and stars of 5..7 events, 8 families of 12 and 30 events; "
                      "all levels; P in 0, 1, 3 with several answers", thorough="all multisets; 6 families sizes; more answers"),
    assumptions=["pandas and shapely value equality"],
)
IDS = ("range", "perm", "str", "shift", "rev", "date", "multi")


def cases(tier, seed):
    q = tier == "quick"
    ev = [(x, t) for x in range(4) for t in (0, 1, 3)]
    C = list(itertools.combinations_with_replacement(ev, 4))
    i = seed
    for lo in range(0, len(C), 3):
        i += 1
        if not q or i % 8 == 0:
            yield dict(op="multi", ev=[[[x, 0, t] for x, t in c] for c in C[lo:lo + 3]], r=i)
    for n in (5, 6, 7):
        for shape in ("path", "star", "two", "cycle", "late"):
            for P in (0, 1, 3):
                i += 1
                yield dict(op="shape", shape=shape, n=n, P=P, r=i)
    for kind in lib.KINDS:
        for n in (12, 30) if q else (8, 12, 20, 30, 60, 90):
            i += 1
            yield dict(op="family", kind=kind, n=n, r=i)
    for j, n in enumerate((150, 320)):
        yield dict(op="family", kind=("uniform", "cluster", "dups", "grid")[(seed + j) % 4], n=n, r=2 * (i + j))
    for f in lib.FRAMES:
        yield dict(op="frame", f=f)


def ids(name, n):
    import pandas as pd
    return {"range": None, "perm": [(3 * i + 1) % n if n % 3 else (5 * i + 2) % n if n % 5 else (7 * i + 3) % n for i in range(n)],
            "str": ["b%03d" % ((n - i) * 7 % 499) for i in range(n)], "shift": [i + 1 for i in range(n)], "rev": list(range(n - 1, -1, -1)),
            "date": list(pd.date_range("2021-02-27", periods=n)), "multi": [(i % 3, "abcd"[i % 4] + str(i)) for i in range(n)]}[name]


def components(members, edges):
    lab = {m: m for m in members}

    def find(a):
        while lab[a] != a:
            a = lab[a]
        return a
    for a, b in edges:
        lab[find(a)] = find(b)
    return {frozenset(m for m in members if find(m) == r) for r in {find(m) for m in members}}


def verify(ctx, S, T, d, u, P, seed, idname, what, crs=None, levels=None, frame=None):
    from pointpats import KnoxLocal
    n = len(S)
    if frame is None:
        T = T + (0, 0, 738000, 0, 1.7e9)[seed % 5]        # days or seconds counted from a distant origin
    I = ids(idname, n) if frame is None else list(frame.index)
    with tape.legacy([], seed=seed):
        if frame is None:
            k = KnoxLocal(S, T.reshape(-1, 1), d, u, permutations=P, ids=I, crs=crs)
        else:
            k = KnoxLocal.from_dataframe(frame, "time of day", d, u, permutations=P)
    I = I or list(range(n))
    off = ~np.eye(n, dtype=bool)
    A = (lib.dist_matrix(S) <= d) & (np.abs(T[:, None] - T[None, :]) <= u) & off
    want = {(I[i], I[j]): "lead" if T[i] < T[j] else "lag" if T[i] > T[j] else "coincident" for i, j in np.argwhere(A)}
    adj = k.adjlist
    ctx.check({"focal", "neighbor", "orientation"} <= set(adj.columns), lambda: "%s: adjlist columns %r" % (what, list(adj.columns)))
    got = list(zip(adj.focal, adj.neighbor, adj.orientation))
    ctx.check(len(got) == len(want) and {(a, b): o for a, b, o in got} == want,
              lambda: "%s: adjlist %r, neighbour pairs are %r" % (what, sorted(map(str, got)), sorted(map(str, want.items()))))
    pos = {v: i for i, v in enumerate(I)}
    for inf in ("permutation", "analytic"):
        p = np.asarray(k.p_sims if inf == "permutation" and P else k.p_hypergeom, float)
        lv = sorted(set(p.tolist()))
        if levels:
            lv = lv[::max(1, len(lv) // levels)]
        for crit in [0.0] + lv + [(a + b) / 2 for a, b in zip(lv, lv[1:])][:3] + [1.0]:
            sig = p <= crit
            edges = [(I[i], I[j]) for i, j in np.argwhere(A) if sig[i] or sig[j]]
            nb = {I[i] for i in range(n) if not sig[i] and (A[i] & sig).any()}
            sigset = {I[i] for i in range(n) if sig[i]}
            comp = components(sigset | nb, edges)
            for keep in (True, False):
                w = "%s: hotspots(%r, %r, keep_neighbors=%r)" % (what, crit, inf, keep)
                members = sigset | nb if keep else sigset
                kw = {} if keep and crit != 1.0 else dict(keep_neighbors=keep)
                h = k.hotspots(crit, inf, **kw) if crit != 0.05 or inf != "permutation" or not keep else k.hotspots()
                rows = list(h.focal)
                ctx.check(len(rows) == len(set(rows)) and set(rows) == members, lambda: "%s: events %r, expected %r" % (w, rows, sorted(members, key=str)))
                for f, pv, ft, g, nbr, ori in zip(h.focal, h.pvalue, h.focal_time, h.geometry, h.neighbor, h.orientation):
                    i = pos[f]
                    ctx.check(abs(pv - p[i]) <= 1e-12, lambda: "%s: event %r has p-value %r, listed %r" % (w, f, p[i], pv))
                    ctx.check(ft == T[i], lambda: "%s: event %r has time %r, listed %r" % (w, f, T[i], ft))
                    ctx.check((g.x, g.y) == (S[i, 0], S[i, 1]), lambda: "%s: event %r is at %r, listed at %r" % (w, f, S[i], g))
                    if nbr is None or nbr != nbr:
                        ctx.check(not A[i].any() or not (A[i] & (sig | sig[i])).any(), lambda: "%s: event %r is listed without a neighbour" % (w, f))
                    else:
                        ctx.check(want.get((f, nbr)) == ori, lambda: "%s: row %r, %r, %r is not in adjlist" % (w, f, nbr, ori))
                part = {}
                for f, c in zip(h.focal, h.cluster):
                    ctx.check(c == c and c is not None, lambda: "%s: event %r has no cluster" % (w, f))
                    part.setdefault(c, set()).add(f)
                expect = {c & members for c in comp} - {frozenset()}
                ctx.check({frozenset(v) for v in part.values()} == expect,
                          lambda: "%s: clusters %r, expected %r" % (w, sorted(map(sorted, part.values())), sorted(map(sorted, expect))))
                ctx.step()
                ctx.outcome(A.sum(1), sig, sorted(len(c) for c in expect))
                if crs is not None:
                    ctx.check(h.crs == crs, w + ": crs")
    return k


def judge(case, ctx):
    import geopandas as gpd
    from pointpats import KnoxLocal
    op = case["op"]
    if op == "multi":
        for q, ev in enumerate(case["ev"]):
            ev = np.array(ev, float)
            r = case["r"] // 8 + q
            P = (0, 1, 0, 3)[r % 4]
            ctx.state(ev)
            ev = ev[[[0, 1, 2, 3], [3, 0, 2, 1], [1, 3, 0, 2]][r % 3]]
            if r % 2:
                ev[:, 2] = ev[:, 2] / 4 - 0.5       # times that are not whole
            verify(ctx, ev[:, :2], ev[:, 2], (1.0, 2.0, 0.0)[r % 3 if r % 5 else 0], (1.0, 2.5, 0.0)[(r // 3) % 3 if r % 5 else 0] / (4 if r % 2 else 1), P, r, IDS[r % 7],
                   "events %r, ids %s, P=%d" % (ev.tolist(), IDS[r % 7], P))
    elif op == "shape":
        n, r, j = case["n"], case["r"], np.arange(case["n"])
        S, T = {"path": (np.column_stack([j, 0 * j]), j % 3), "star": (np.column_stack([np.where(j, np.cos(j * 2.1), 0), np.where(j, np.sin(j * 2.1), 0)]), np.where(j, 2 * (j % 2), 1)),
                "two": (np.column_stack([j % 3, (j >= n // 2) * 10]), j % 2), "cycle": (np.column_stack([np.cos(j * 2 * np.pi / n), np.sin(j * 2 * np.pi / n)]) / (2 * np.sin(np.pi / n)) * .99, 0 * j),
                "late": (np.column_stack([j, j % 2 * .1]), np.where(j < n - 2, j % 2, 40))}[case["shape"]]
        o = [(i * (3 if n % 3 else 5) + 1) % n for i in range(n)]
        S, T = S[o].astype(float), T[o].astype(float)
        for s in range(4 if case["P"] else 1):
            for u in (1.0, 0.0):
                ctx.state(case["shape"], n, case["P"], s, u)
                verify(ctx, S, T, 1.05, u, case["P"], s, IDS[(r + s) % 7], "%s of %d, tau=%r, P=%d" % (case["shape"], n, u, case["P"]), crs="EPSG:3857" if s % 2 else None)
    elif op == "family":
        n, r = case["n"], case["r"]
        S = lib.structured(n, case["kind"], r)
        T = np.floor(np.arange(n) * 7.3 % (n / 3.0))
        D = lib.dist_matrix(S)
        for qn, u in ((.1, 1.0), (.03, 2.0)) if n < 100 else ((.006, 8.0),):
            d = lib.gap(D, qn)
            ctx.state(case["kind"], n, d, u)
            verify(ctx, S, T, d, u, (0, 19)[r % 2], r, IDS[r % 7], "%s of %d, delta=%r tau=%r" % (case["kind"], n, d, u), levels=4 if n < 100 else 2)
    else:
        n = 9
        S = lib.frame(lib.structured(n, "grid"), case["f"])
        T = np.array([0, 1, 0, 5, 1, 1, 9, 0, 1.])
        d = lib.FRAMES[case["f"]][0] * 1.2
        for idname in IDS:
            g = gpd.GeoDataFrame({"time of day": T, "v": 1}, geometry=gpd.points_from_xy(*S.T), crs="EPSG:3857", index=ids(idname, n)).rename_geometry("where")
            for P in (0, 9):
                ctx.state(case["f"], idname, P)
                verify(ctx, S, T, d, 1.0, P, 3, idname, "from_dataframe with index %s, P=%d" % (idname, P), crs="EPSG:3857", frame=g, levels=4)
        for bad in ("both", "", "Analytic"):
            try:
                KnoxLocal(S, T.reshape(-1, 1), d, 1.0, permutations=0).hotspots(inference=bad)
            except ValueError:
                ctx.step()
            else:
                ctx.fail("hotspots accepts inference=%r" % bad)
        try:
            KnoxLocal(S, T.reshape(-1, 1), d, 1.0, permutations=0, ids=[1, 2, 3])
        except ValueError:
            ctx.step()
        else:
            ctx.fail("KnoxLocal accepts ids of another length")
    ctx.trace()
