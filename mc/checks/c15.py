"""C15: cluster radii, covariances, centres and the Strauss interaction are the ones asked for."""
import itertools
import math
import numpy as np
import lib
import simlib
import tape

META = dict(
    technique="exhaustive enumeration of generator answers x sizes x numbers of clusters x radius and covariance forms x hulls on the real "
              "simulators; block structure, displacements and their linear map recomputed",
    level_note="Answers beyond the enumerated prefix come from one fixed continuation; strauss is judged by counts (and by its close pairs summed "
               "over all enumerated scripts), not by its stationary distribution.",
    rule="a case is (simulator, hull, frame, size, clusters, form) with all scripts or seeds; an outcome is the block layout or displacement map",
    bounds=dict(quick="n 2..9 x 1..n clusters x 10 radius forms x 1..3 replications; 5^4 answers for displacements; 7 covariances x 4 hulls; "
                      "24 strauss configurations x 16 scripts",
                thorough="n 2..13; 5^5 answers; 48 strauss configurations x 64 scripts"),
    assumptions=["known finding: a correlated covariance matrix with unequal variances"],
)
DISP = (0.01, 0.25, 0.5, 0.75, 0.99)


def cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    i = 0
    for n in range(2, 10 if q else 14):
        for k in range(1, n + 1):
            for reps in (1, 2, 3):
                i += 1
                yield dict(op="blocks", n=n, k=k, reps=reps, h=simlib.HULLS[i % 10], f=fr[i % len(fr)], seed=seed)
    for h in ("box", "hole", "convex"):
        for k in (3, 4, 7):
            yield dict(op="toomany", h=h, n=2, k=k)
    for form in (0.5, [0.5, 0.125], [0.25, 0.5], None):
        for f in ("id", "proj", "lonlat") if q else fr:
            yield dict(op="disk", r=form, f=f, k=4 if q else 5)
    for h in ("box", "tri", "convex", "points", "parts"):
        for ci in range(len(COVS)):
            for f in ("id", "small", "lonlat") if q else fr:
                yield dict(op="normal", h=h, c=ci, f=f)
    yield dict(op="normal3", seed=seed)
    for h in ("box", "hole", "convex", "parts"):
        for n, k in ((5, 2), (9, 3), (12, 5)):
            for reps in (1, 3):
                yield dict(op="defcov", h=h, n=n, k=k, reps=reps, seed=seed)
    for h in ("box", "hole", "convex", "parts") if q else simlib.HULLS:
        for f in ("id", "small", "big") if q else fr:
            for g in (1.0, 0.3, 1e-6):
                yield dict(op="strauss", h=h, f=f, g=g, m=2 if q else 3)
    for h in ("box", "tri"):
        for f in ("id", "small", "big"):
            yield dict(op="inhibit", h=h, f=f, n=10, scripts=16 if q else 64)
    yield dict(op="unequal")


# covariance argument, the matrix it must stand for (None: default)
COVS = [(None, None), ([[1, 0], [0, 1]], 1), ([[2.25, 0], [0, 2.25]], 1), ([[1, .5], [.5, 1]], 1), ([[.5, -.4], [-.4, .5]], 1),
        ([[.25, 0], [0, 4]], 1), ([[9, 0], [0, .01]], 1)]


def zt(i):
    return (0.0, 0.02, -0.02, 0.01)[i]


def sims():
    from pointpats import random as r
    return r


def judge(case, ctx):
    r = sims()
    op = case["op"]
    ctx.state(*[case[k] if not isinstance(case[k], list) else tuple(case[k]) for k in sorted(case)])
    globals()["op_" + op](case, ctx, r)
    ctx.trace()


def op_blocks(case, ctx, r):
    h = simlib.make(case["h"], case["f"])
    s = lib.FRAMES[case["f"]][0]
    n, k, reps = case["n"], case["k"], case["reps"]
    tol = 1e-9 * h["ext"] + 1e-15 * np.abs(h["box"]).max()
    each = [s * (0.2 + 0.15 * (i % 4)) for i in range(k)]
    import pandas as pd
    forms = {"float": 0.3 * s, "int": max(1, int(s)), "np.float64": np.float64(0.4 * s), "0-d": np.array(0.4 * s), "list": each, "tuple": tuple(each),
             "array": np.array(each), "reversed": each[::-1], "Series": pd.Series(each)}
    if k > 1:
        forms["default"] = None
    if s < .5:
        del forms["int"]
    for nm, rad in forms.items():
        for sd in (3, 10 + case["seed"]):
            res = r.cluster_poisson(h["arg"], size=(n, reps), n_seeds=k, cluster_radius=rad, rng=sd)
            what = "cluster_poisson(%s, size=%r, n_seeds=%d, cluster_radius=%s, rng=%d)" % (case["h"], (n, reps), k, nm, sd)
            R = simlib.check_result(ctx, res, n, reps, h, what)
            for j, A in enumerate(R):
                B = np.array_split(A, k)
                seeds = np.array([b[0] for b in B])
                if nm == "default":
                    d = lib.dist_matrix(seeds)[np.triu_indices(k, 1)].min()
                    radii = [d / 2] * k
                elif np.ndim(rad):
                    radii = list(np.asarray(rad, float))
                else:
                    radii = [float(rad)] * k
                for c, b in enumerate(B):
                    d = np.hypot(*(b - b[0]).T)
                    ctx.check(bool((d <= radii[c] + tol).all()), lambda: "%s: replication %d, cluster %d: distances from the seed %r, radius %r"
                              % (what, j, c, d.tolist(), radii[c]))
                    ctx.check(len(b) < 2 or bool((d[1:] > 0).all()), lambda: "%s: replication %d, cluster %d repeats its seed" % (what, j, c))
                offs = [tuple(np.round((b[1:] - b[0]) / h["ext"], 5).ravel()) for b in B if len(b) > 1]
                ctx.check(len(set(offs)) == len(offs), lambda: "%s: replication %d: clusters have identical offsets" % (what, j))
                ctx.step()
                ctx.outcome(n, k, [len(b) for b in B])
    for cov in (0.1 * s * s, np.eye(2) * 0.05 * s * s) + ((None,) if k > 1 else ()):
        res = r.cluster_normal(h["arg"], cov=cov, size=(n, reps), n_seeds=k, rng=4)
        what = "cluster_normal(%s, cov=%r, size=%r, n_seeds=%d)" % (case["h"], cov, (n, reps), k)
        R = simlib.check_result(ctx, res, n, reps, h, what)
        for A in R:
            B = np.array_split(A, k)
            offs = [tuple(np.round((b[1:] - b[0]) / h["ext"], 5).ravel()) for b in B if len(b) > 1]
            ctx.check(len(set(offs)) == len(offs), what + ": clusters have identical offsets")
            if cov is not None:     # eight standard deviations
                sd = math.sqrt(np.ravel(cov)[0])
                for c, b in enumerate(B):
                    d = np.hypot(*(b - b[0]).T)
                    ctx.check(bool((d <= 8 * sd).all()), lambda: "%s: cluster %d: distances from the seed %r" % (what, c, d.tolist()))
        ctx.step()
    for bad in ([0.1 * s] * (k + 1), [0.1 * s] * (k - 1)):
        try:
            r.cluster_poisson(h["arg"], size=n, n_seeds=k, cluster_radius=bad, rng=1)
        except Exception:
            continue
        ctx.fail("%d radii accepted for %d clusters" % (len(bad), k))


def op_toomany(case, ctx, r):
    h = simlib.make(case["h"])
    for f, kw in ((r.cluster_poisson, dict(cluster_radius=.5)), (r.cluster_poisson, {}), (r.cluster_normal, dict(cov=.2)), (r.cluster_normal, {})):
        for size in (case["n"], (case["n"], 2)):
            try:
                res = f(h["arg"], size=size, n_seeds=case["k"], rng=2, **kw)
            except Exception as e:
                ctx.check(not isinstance(e, (IndexError, UnboundLocalError, NameError)), "%d clusters of %d points: %r" % (case["k"], case["n"], e))
                continue
            ctx.fail("%s(size=%r, n_seeds=%d) -> shape %r, more clusters than points" % (f.__name__, size, case["k"], res.shape))
        ctx.step()


def op_disk(case, ctx, r):
    """over all answers, children reach the whole disk of their own radius and nothing beyond"""
    s, dx, dy = lib.FRAMES[case["f"]]
    box = np.array([dx, dy, dx + 1000 * s, dy + 800 * s])
    rad = case["r"]
    arg = [v * s for v in rad] if isinstance(rad, list) else (rad and rad * s)
    far = [{}, {}]
    for rest, skip in itertools.product(itertools.product(DISP, repeat=case["k"]), (0, 4)):
        # one answer for the seed of the seeds, then the children's: those of the first cluster, or of the second
        t = tape.Tape([0.4] + [0.5] * skip + list(rest), seed=5, alphabet=DISP)
        A = r.cluster_poisson(box, size=4, n_seeds=2, cluster_radius=arg, rng=t.generator())
        B = np.array_split(A, 2)
        d0 = math.hypot(*(B[0][0] - B[1][0])) / 2
        for c, b in enumerate(B):
            R = d0 if rad is None else (rad[c] if isinstance(rad, list) else rad) * s
            v = (b[1] - b[0]) / R
            ctx.check(math.hypot(*v) <= 1 + 1e-6, lambda: "cluster %d: child at %r radii from its seed" % (c, math.hypot(*v)))
            for q, (ux, uy) in enumerate(((1, 0), (-1, 0), (0, 1), (0, -1))):
                p = b[0] + 0.981 * R * np.array([ux, uy])
                if (p >= box[:2]).all() and (p <= box[2:]).all():       # not cut off by the hull
                    far[c][q] = max(far[c].get(q, 0), float(v[0] * ux + v[1] * uy))
        ctx.step()
    for c in (0, 1):
        ok = all(v >= 0.9 for v in far[c].values()) and len(far[c]) >= (3 if rad is None else 4)
        ctx.check(ok, lambda: "cluster %d (radius %r): over all answers the children reach only %r of the radius (right, left, up, down)"
                  % (c, rad, far[c]))
    ctx.outcome(rad, sorted((c, k, round(v, 3)) for c in (0, 1) for k, v in far[c].items()))


def zscript(zs):
    """64-bit answers that make numpy's ziggurat return small normals in proportion to zs"""
    return [200 | ((z < 0) << 8) | (int(abs(z) * 2 ** 51) << 9) for z in zs]


def linear_map(f, s):
    """x = c + M z for simulators of one normal point: recovers c and M from three scripts of known normals"""
    def z_of(sc):
        return tape.Tape(sc, seed=1).generator().standard_normal(2)

    def x_of(sc):
        return np.asarray(f(tape.Tape(sc, seed=1).generator()), float).reshape(2)
    e = 0.05
    scr = [zscript(z) for z in ((0, 0), (e, 0), (0, e), (-e, e))]
    c = x_of(scr[0])
    Z = np.array([z_of(sc) for sc in scr[1:3]]).T
    X = np.array([x_of(sc) - c for sc in scr[1:3]]).T
    M = X @ np.linalg.inv(Z)
    return c, M, x_of(scr[3]) - c - M @ z_of(scr[3])


def op_normal(case, ctx, r):
    h = simlib.make(case["h"], case["f"])
    s = lib.FRAMES[case["f"]][0]
    mat, _ = COVS[case["c"]]
    arg = None if mat is None else np.array(mat, float) * s * s * 0.04
    b = h["box"]
    want = np.eye(2) * (max(b[2] - b[0], b[3] - b[1]) / 2) ** 2 if mat is None else arg
    inner = np.mean(h["polys"][0][0], axis=0)
    # hulls whose default centre is inside: the centroid of the area, or the mean of the hull's vertices
    A = h["polys"][0][0]
    if len(h["polys"]) == 1:
        cen = {"box": inner, "points": inner, "tri": inner}.get(case["h"])
        if case["h"] == "convex":
            cen = np.mean(A, axis=0)
    else:
        cen = None
    for center in (None, tuple(inner), list(inner), inner + 0.05 * s):
        if center is None and cen is None:
            continue
        c, M, lin = linear_map(lambda g: r.normal(h["arg"], center=center, cov=arg, size=1, rng=g), s)
        what = "normal(%s, center=%r, cov=%r)" % (case["h"], center, mat)
        tol = 1e-13 * np.abs(b).max()
        ctx.close(c, cen if center is None else center, what + ": where the normals are centred", rtol=0, atol=1e-9 * h["ext"] + tol)
        sc = np.sqrt(np.abs(want).max())
        prec = 1e-6 + 300 * tol / sc
        ctx.check(bool(np.abs(M @ M.T / sc ** 2 - want / sc ** 2).max() <= prec), lambda: "%s: covariance %r, expected %r" % (what, (M @ M.T).tolist(), want.tolist()))
        ctx.check(bool(np.abs(lin).max() <= prec * sc), lambda: "%s: displacements are not linear in the normals" % what)
        ctx.step()
    ctx.outcome(case["h"], case["c"], M / s)


def op_normal3(case, ctx, r):
    """one covariance for each replication"""
    box = simlib.make("box")
    big = np.array([-1e4, -1e4, 1e4, 1e4])
    mats = [np.eye(2) * v for v in (.25, 1., 4.)] + [np.array([[1, .5], [.5, 1]]), np.array([[.25, 0], [0, 4]])]
    for k in range(1, 4):
        for combo in itertools.product(range(len(mats)), repeat=k):
            cov = np.array([mats[i] for i in combo])
            res = r.normal(big, center=(0, 0), cov=cov, size=(6, k), rng=case["seed"])
            R = simlib.check_result(ctx, res, 6, k, dict(box, polys=[([(-1e4, -1e4), (1e4, -1e4), (1e4, 1e4), (-1e4, 1e4)], [])]), "normal(3-d cov)")
            one = r.normal(big, center=(0, 0), cov=mats[1], size=(6, k), rng=case["seed"]).reshape(k, 6, 2)
            for j, i in enumerate(combo):
                if i < 3:
                    ctx.close(R[j], one[j] * math.sqrt(mats[i][0, 0]), "normal(3-d cov %r): replication %d" % (combo, j), rtol=1e-7)
                else:
                    L = np.linalg.lstsq(one[j], R[j], rcond=None)[0]
                    ctx.close(L.T @ L, mats[i], "normal(3-d cov %r): covariance of replication %d" % (combo, j), rtol=1e-6, atol=1e-6)
            ctx.step()
            ctx.outcome("3d", combo)
    for bad in (np.eye(3), np.ones((2, 3, 2)), np.array([np.eye(2)] * 3), "x", [[1, 0], [0, 1]]):
        try:
            r.normal(big, cov=bad, size=(4, 2), rng=1)
        except Exception:
            continue
        ctx.fail("covariance of shape %r accepted for 2 replications" % (np.shape(bad),))


def op_defcov(case, ctx, r):
    """the default covariance of each replication is the squared mean distance of its own seeds"""
    h = simlib.make(case["h"])
    n, k, reps = case["n"], case["k"], case["reps"]
    for sd in range(5 + case["seed"], 11 + case["seed"]):
        R = r.cluster_normal(h["arg"], size=(n, reps), n_seeds=k, rng=sd).reshape(reps, n, 2)
        for j in range(reps):
            seeds = np.array([b[0] for b in np.array_split(R[j], k)])
            d = lib.dist_matrix(seeds)[np.triu_indices(k, 1)].mean()
            Q = r.cluster_normal(h["arg"], cov=float(d * d), size=(n, reps), n_seeds=k, rng=sd).reshape(reps, n, 2)
            ctx.close(R[j], Q[j], "cluster_normal(%s, size=%r, n_seeds=%d, rng=%d): replication %d against its default covariance given"
                      % (case["h"], (n, reps), k, sd, j), rtol=1e-6)
            ctx.step()
        ctx.outcome(case["h"], n, k, R)


def op_strauss(case, ctx, r):
    h = simlib.make(case["h"], case["f"])
    s = lib.FRAMES[case["f"]][0]
    got = raised = 0
    for (n, reps), rad in itertools.product(((1, 1), (2, 2), (5, 1), (4, 3)), (1e-6, 0.5)):
        for sc in itertools.product((0.03, 0.5, 0.96), repeat=case["m"]):
            t = tape.Tape(list(sc), seed=9)
            try:
                res = r.strauss(h["arg"], size=(n, reps), gamma=case["g"], r=rad * s, n_iter=25, rng=t.generator())
            except RuntimeError:
                raised += 1
                ctx.check(rad > 1e-3 and case["g"] < 1, "strauss(%s, size=%r, gamma=%r, r=%r): RuntimeError without interaction" % (case["h"], (n, reps), case["g"], rad))
                continue
            simlib.check_result(ctx, res, n, reps, h, "strauss(%s, %s, size=%r, gamma=%r, r=%r)" % (case["h"], case["f"], (n, reps), case["g"], rad))
            got += 1
            ctx.step()
    for e in (2, 4.3):
        res = r.strauss(h["arg"], intensity=e / h["area"], gamma=case["g"], r=1e-6 * s, n_iter=25, rng=1)
        ctx.check(len(res) == int(e), "strauss(%s, intensity for %r points): %r" % (case["h"], e, res.shape))
    ctx.note("strauss patterns", got)
    ctx.note("strauss RuntimeErrors", raised)
    ctx.outcome(case["h"], case["f"], case["g"], raised > 0)


def op_inhibit(case, ctx, r):
    """summed over all scripts: gamma close to 0 removes most pairs closer than r, and pairs beyond r are left alone"""
    h = simlib.make(case["h"], case["f"])
    s = lib.FRAMES[case["f"]][0]
    rad = 0.6 * s
    tot = {}
    m = int(round(math.log2(case["scripts"])))
    for g in (1.0, 0.02):
        for sc in itertools.product((0.2, 0.8), repeat=m):
            t = tape.Tape(list(sc), seed=21)
            A = r.strauss(h["arg"], size=case["n"], gamma=g, r=rad, n_iter=300, rng=t.generator())
            d = lib.dist_matrix(A)[np.triu_indices(len(A), 1)]
            a, b = tot.get(g, (0, 0))
            tot[g] = (a + int((d < rad).sum()), b + int(((d > rad) & (d < 2.5 * rad)).sum()))
            ctx.step()
    ctx.check(tot[0.02][0] < 0.5 * tot[1.0][0], lambda: "strauss(%s): pairs within r over all scripts: %r without, %r with inhibition" % (case["h"], tot[1.0], tot[0.02]))
    ctx.check(tot[0.02][1] > 0.6 * tot[1.0][1], lambda: "strauss(%s): pairs beyond r over all scripts: %r without, %r with inhibition" % (case["h"], tot[1.0], tot[0.02]))
    ctx.outcome(case["h"], case["f"], tot[1.0], tot[0.02])


def op_unequal(case, ctx, r):
    """known finding: the matrix the existing test uses"""
    cov = np.array([[1, .5], [.5, 2]])
    c, M, _ = linear_map(lambda g: r.normal(np.array([-50., -50, 50, 50]), center=(0, 0), cov=cov, size=1, rng=g), 1)
    ctx.check(bool(np.abs(M @ M.T - cov).max() < 1e-6), lambda: "normal(cov=[[1, .5], [.5, 2]]) has covariance %r" % (M @ M.T).tolist(), key="normal-cov-1-.5-2")
