"""C30: over all equally likely answers of the generator, simulated points follow the announced distribution."""
import itertools
import math
import numpy as np
import lib
import simlib
import tape

META = dict(
    technique="exhaustive enumeration of a lattice of equally likely generator answers on the real simulators: the resulting distribution (cell frequencies, "
              "counts, truncation, acceptance ratio) is computed over all of them and compared with the announced one within the lattice error",
    level_note="A lattice of answers stands for the continuous ones, so frequencies are judged up to the lattice error; only runs decided by the enumerated answers "
               "count where rejection sampling goes on with further answers.",
    rule="a case is (simulator, hull or window, frame, parameter) with the whole lattice; an outcome is its table of frequencies",
    bounds=dict(quick="10 hulls x 2 frames, 32^2 answers for one point, 8^4 for two; discs 9^4; seeds 1000 generators; Poisson counts 13^4; all 720 shuffles; "
                      "strauss 12^3 answers x 3 gammas",
                thorough="all 6 frames; 64^2, 10^4, 13^4, 15^4, 4000 generators, 16^3"),
    assumptions=["different answers of a generator are equally likely"],
)


def cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    i = seed
    for h in simlib.HULLS:
        for f in (fr[i % len(fr)], fr[(i + 3) % len(fr)]) if q else fr:
            yield dict(op="uniform", h=h, f=f, G=32 if q else 64, which="poisson")
            yield dict(op="pair", h=h, f=f, G=8 if q else 10, pre=i % 3)
            yield dict(op="disc", which="hull", h=h, f=f, r=1e-3, G=9 if q else 13)
            yield dict(op="seeds", h=h, f=f, G=1000 if q else 4000)
        i += 1
    for h in ("wide", "tall"):
        for f in (fr[i % len(fr)],) if q else fr:
            yield dict(op="uniform", h=h, f=f, G=32 if q else 64, which="poisson")
            yield dict(op="pair", h=h, f=f, G=8 if q else 10, pre=0)
        i += 1
    for w in ("box", "tri", "hole", "holes2", "parts", "convex", "thin"):
        for f in (fr[i % len(fr)],) if q else fr:
            yield dict(op="uniform", h=w, f=f, G=24 if q else 48, which="process")
            yield dict(op="uniform", h=w, f=f, G=24 if q else 40, which="parents")
        i += 1
    for f in (fr[i % len(fr)], fr[(i + 1) % len(fr)]) if q else fr:
        for which in ("circle", "cluster", "children"):
            for rad in (0.05, 0.4):
                yield dict(op="disc", which=which, f=f, r=rad, G=9 if q else 13)
    for mean in (1, 2):
        yield dict(op="count", which="events", mean=mean, G=13 if q else 15)
        yield dict(op="count", which="parents", mean=mean, G=13 if q else 15)
    for keep in (False, True):
        yield dict(op="shuffle", keep=keep)
    for g in (1.0, 0.5, 0.25):
        for f in ("id", "small", "lonlat") if q else fr:
            yield dict(op="strauss", g=g, f=f, G=12 if q else 16)
    for f in ("id", "lonlat") if q else fr:
        yield dict(op="normal", f=f)


def region(name, f):
    if name not in ("wide", "tall"):
        return simlib.make(name, f)
    h = simlib.make("box", f)
    (x0, y0, x1, y1), k = h["box"], 12
    x1, y1 = (x0 + k * (x1 - x0), y1) if name == "wide" else (x1, y0 + k * (y1 - y0))
    h.update(box=(x0, y0, x1, y1), arg=np.array([x0, y0, x1, y1]), polys=[([(x0, y0), (x1, y0), (x1, y1), (x0, y1)], [])], name=name,
             area=(x1 - x0) * (y1 - y0), ext=max(x1 - x0, y1 - y0))
    return h


def mid(G):
    return [(i + 0.5) / G for i in range(G)]


def shares(h, m=3):
    """share of the hull's area in each of the m x m cells of its box"""
    import shapely
    P = shapely.unary_union([shapely.Polygon(s, g) for s, g in h["polys"]])
    b = h["box"]
    xs, ys = np.linspace(b[0], b[2], m + 1), np.linspace(b[1], b[3], m + 1)
    a = np.array([[P.intersection(shapely.box(xs[i], ys[j], xs[i + 1], ys[j + 1])).area for j in range(m)] for i in range(m)])
    return a / a.sum(), P


def cells(h, A, m=3):
    b = h["box"]
    k = np.floor((A - [b[0], b[1]]) / [b[2] - b[0], b[3] - b[1]] * m).astype(int).clip(0, m - 1)
    return np.bincount(k[:, 0] * m + k[:, 1], minlength=m * m)


def frequencies(ctx, h, A, want, tol, what, m=3):
    got = cells(h, A, m) / len(A)
    ctx.check(bool(np.abs(got - want.ravel()).max() <= tol), lambda: "%s: frequencies over %d runs %r, shares of the area %r (tolerance %.3f)"
              % (what, len(A), np.round(got, 3).tolist(), np.round(want.ravel(), 3).tolist(), tol))
    return got


def judge(case, ctx):
    ctx.state(*[case[k] for k in sorted(case)])
    globals()["op_" + case["op"]](case, ctx)
    ctx.trace()


def over(scripts, run, ctx):
    """outcomes of the runs decided by the script alone (all runs when a sampler needs more answers than that)"""
    short, every = [], []
    for i, sc in enumerate(scripts):
        t, res = run(sc, i)
        (every if t.extra else short).append(res)
        ctx.step()
    return short if len(short) * 10 >= len(every) else short + every


def mkwin(h):
    import pointpats
    parts = [list(s) + [s[0]] for s, _ in h["polys"]]
    holes = [list(g) + [g[0]] for _, hs in h["polys"] for g in hs]
    return pointpats.Window(parts, holes) if holes else pointpats.Window(parts)


def op_uniform(case, ctx):
    import pointpats
    from pointpats import random as r
    h = region(case["h"], case["f"])
    want, P = shares(h)
    G = case["G"]
    win = None if case["which"] == "poisson" else mkwin(h)

    def run(sc, i):
        if case["which"] == "poisson":
            t = tape.Tape(list(sc), seed=i)
            return t, r.poisson(h["arg"], size=1, rng=t.generator())
        if case["which"] == "process":
            with tape.legacy(list(sc), seed=i) as t:
                return t, np.asarray(pointpats.PoissonPointProcess(win, 1, 1).realizations[0])
        # one parent with one child very near to it
        with tape.legacy(list(sc) + [0.3, 0.6, 0.2, 0.7], seed=i) as t:
            return t, np.asarray(pointpats.PoissonClusterPointProcess(win, 1, 1, 1e-9 * h["ext"], 1).realizations[0])
    R = over(itertools.product(mid(G), repeat=2), run, ctx)
    A = np.array(R).reshape(-1, 2)
    what = "%s over %s (%s)" % (case["which"], case["h"], case["f"])
    # a cell's frequency is off by at most its boundary's share of the lattice cells
    got = frequencies(ctx, h, A, want, 0.01 + 2.0 / G * (1.5 if case["h"] in ("thin", "holes2", "hole") else 1), what)
    big = len(A) > 50
    if big:
        u = (A - h["box"][:2]) / (np.array(h["box"][2:]) - h["box"][:2])
        distinct = len({tuple(x) for x in np.round(u, 5)})
        ctx.check(distinct >= 0.9 * len(A), lambda: "%s: %d different points from %d different answers" % (what, distinct, len(A)))
        c = np.array(P.centroid.coords[0])
        d = np.abs(A.mean(0) - c) / h["ext"]
        ctx.check(bool((d <= 0.01 + 1.0 / G).all()), lambda: "%s: mean of the points %r, centroid of the region %r" % (what, A.mean(0).tolist(), c.tolist()))
    ctx.outcome(case["which"], case["h"], case["f"], np.round(got, 2))


def centre(h):
    """fractions of the box of a point well inside the region"""
    L = mid(15)
    b = np.array(h["box"])
    P = np.array([(x, y) for x in L for y in L])
    A = b[:2] + P * (b[2:] - b[:2])
    d = [min(math.hypot(*(a - q)) for s, gs in h["polys"] for r in [s, *gs] for u, v in zip(r, r[1:] + r[:1]) for q in np.linspace(u, v, 20)) for a in A]
    d = np.where(simlib.classify(h, A) == 1, d, -1)
    return P[int(np.argmax(d))]


def op_pair(case, ctx):
    """two points (or two replications) fall into the halves of the region independently"""
    from pointpats import random as r
    h = region(case["h"], case["f"])
    G = case["G"]
    k0 = case["pre"]            # points before the two looked at, at one place of the region
    c = centre(h)
    for n, reps in ((2, 1), (1, 2)):
        def run(sc, i):
            t = tape.Tape(list(c) * (k0 if n == 2 else 0) + list(sc), seed=i)
            A = r.poisson(h["arg"], size=(n if n == 1 else n + k0, reps), rng=t.generator()).reshape(-1, 2)
            return t, A[-2:]
        it = itertools.product(mid(G), repeat=4) if n == 2 else ((a, b, c, d) for a, b, c, d in itertools.product(mid(G), repeat=4) if int(a * G + b * G) % 2)
        every = list(it)
        R = np.array(over(every, run, ctx))
        for ax, ay in itertools.product((0, 1), (0, 1)):
            d = np.corrcoef(R[:, 0, ax], R[:, 1, ay])[0, 1]
            ctx.check(abs(d) <= 0.03,
                      lambda: "poisson(%s, size=%r): coordinate %d of the first and %d of the second point are correlated (%.3f)"
                      % (case["h"], (n, reps), ax, ay, d))
        for k in (0, 1):
            f = cells(h, R[:, k], 2) / len(R) - shares(h, 2)[0].ravel()
            ctx.check(bool(np.abs(f).max() <= 0.02 + 1.6 / G), lambda: "poisson(%s, size=%r): point %d is not uniform: off by %r" % (case["h"], (n, reps), k, np.round(f, 3).tolist()))
        ctx.outcome(case["h"], case["f"], n, len(R))


def op_seeds(case, ctx):
    """the clusters of the cluster simulators over all of G derived generators"""
    from pointpats import random as r
    h = simlib.make(case["h"], case["f"])
    want, P = shares(h)
    G = case["G"]
    s = lib.FRAMES[case["f"]][0]
    tol = 0.02 + 2.2 / math.sqrt(G)
    for which in ("cluster_poisson", "cluster_normal"):
        S, D = [], []
        for a in mid(G):
            t = tape.Tape([a], seed=int(a * G))
            kw = dict(cluster_radius=1e-6 * s) if which == "cluster_poisson" else dict(cov=1e-12 * s * s)
            A = getattr(r, which)(h["arg"], size=(4, 1), n_seeds=2, rng=t.generator(), **kw)
            S.append(A[[0, 2]])
            D.append((A[[1, 3]] - A[[0, 2]]) / (1e-6 * s))
            ctx.step()
        S, D = np.array(S), np.array(D)
        what = "%s over %s (%s)" % (which, case["h"], case["f"])
        for k in (0, 1):
            got = frequencies(ctx, h, S[:, k], want, tol, "%s: seed %d" % (what, k))
            if case["f"] in ("id", "small", "unit"):        # displacements are exact enough
                q = np.bincount((D[:, k, 0] > 0) * 2 + (D[:, k, 1] > 0), minlength=4) / G
                ctx.check(bool(np.abs(q - .25).max() <= tol), lambda: "%s: directions of the points of cluster %d from its seed: %r" % (what, k, q.tolist()))
        for ax, ay in itertools.product((0, 1), (0, 1)):
            c = np.corrcoef(S[:, 0, ax], S[:, 1, ay])[0, 1]
            ctx.check(abs(c) <= 0.02 + 5 / math.sqrt(G), lambda: "%s: the seeds of the two clusters are correlated: %r" % (what, c))
            if case["f"] in ("id", "small", "unit"):
                c = np.corrcoef(D[:, 0, ax], D[:, 1, ay])[0, 1]
                ctx.check(abs(c) <= 0.02 + 5 / math.sqrt(G), lambda: "%s: displacements in the two clusters are correlated: %r" % (what, c))
        ctx.outcome(which, case["h"], np.round(got, 1))


def op_disc(case, ctx):
    """children are uniform over the disc round their seed: half of them within r/sqrt(2), a quarter in each quadrant"""
    import pointpats
    from pointpats import random as r
    from pointpats.process import runif_in_circle
    s, dx, dy = lib.FRAMES[case["f"]]
    rad = case["r"] * s
    box = np.array([dx, dy, dx + 1000 * s, dy + 800 * s])
    win = pointpats.Window([(box[0], box[1]), (box[2], box[1]), (box[2], box[3]), (box[0], box[3]), (box[0], box[1])])
    which = case["which"]
    if which == "hull":
        # a derived generator whose seed lies well inside
        h = simlib.make(case["h"], case["f"])
        rad = case["r"] * h["ext"]
        ring = rad * 1.5 * np.array([(math.cos(a), math.sin(a)) for a in np.linspace(0, 6.2, 12)])
        for u in mid(60):
            c = r.cluster_poisson(h["arg"], size=1, n_seeds=1, cluster_radius=rad, rng=tape.Tape([u]).generator())[0]
            if (simlib.classify(h, c + ring) == 1).all():
                break
        else:
            ctx.fail("no seed away from the boundary of %s" % case["h"])
        dx, dy = c          # for the rounding error

    def run(sc, i):
        if which == "hull":
            t = tape.Tape([u] + list(sc), seed=i)
            A = r.cluster_poisson(h["arg"], size=2, n_seeds=1, cluster_radius=rad, rng=t.generator())
            return t, (A[1] - A[0]) / rad
        if which == "circle":
            with tape.legacy(list(sc), seed=i) as t:
                A = np.asarray(runif_in_circle(1, rad, (dx, dy)))
            return t, (A[0] - [dx, dy]) / rad
        if which == "cluster":
            t = tape.Tape([0.4] + list(sc), seed=i)
            A = r.cluster_poisson(box, size=2, n_seeds=1, cluster_radius=rad, rng=t.generator())
            return t, (A[1] - A[0]) / rad
        with tape.legacy([0.5, 0.5] + list(sc), seed=i) as t:
            A = np.asarray(pointpats.PoissonClusterPointProcess(win, 1, 1, rad, 1).realizations[0])
        return t, (A[0] - [(box[0] + box[2]) / 2, (box[1] + box[3]) / 2]) / rad
    R = over(itertools.product(mid(case["G"]), repeat=4), run, ctx)
    V = np.array(R)
    what = "%s%s (radius %r, %s)" % (which, " " + case["h"] if which == "hull" else "", rad, case["f"])
    slack = 1e-6 + 1e-15 * max(*abs(box), abs(dx), abs(dy)) / rad
    d = np.hypot(*V.T)
    ctx.check(bool((d <= 1 + slack).all()), lambda: "%s: %r radii from the centre" % (what, float(d.max())))
    for part in (0.5, 0.7071, 0.75):
        f = float((d <= part).mean())
        ctx.check(abs(f - part ** 2) <= 0.09, lambda: "%s: %.3f of the points within %.2f of the radius, %.3f of the area" % (what, f, part, part ** 2))
    ctx.check(abs(float((d ** 2).mean()) - 0.5) <= 0.04, lambda: "%s: mean squared distance %r of the squared radius, not half" % (what, float((d ** 2).mean())))
    # points on an axis count half to either side
    sx, sy = np.where(np.abs(V) < 1e-6 + slack, .5, (V > 0) * 1.0).T
    q = [float((a * b).mean()) for a in (sx, 1 - sx) for b in (sy, 1 - sy)]
    ctx.check(max(abs(v - .25) for v in q) <= 0.03, lambda: "%s: shares of the quadrants %r" % (what, q))
    ctx.outcome(which, case["r"], case["f"], np.round(q, 2))


def op_count(case, ctx):
    """conditioning=True: the number of events (of parents) over all answers is Poisson with the mean given"""
    import pointpats
    win = pointpats.Window([(0, 0), (1, 0), (1, 1), (0, 1), (0, 0)])
    mean = case["mean"]
    N = []
    for i, sc in enumerate(itertools.product(mid(case["G"]), repeat=4)):
        with tape.legacy(list(sc), seed=i) as t:
            if case["which"] == "events":
                d = pointpats.PoissonPointProcess(win, mean, 1, conditioning=True)
                n = len(d.realizations[0])
                ctx.check(d.parameters[0]["n"] == n, "announced %r events, drawn %d" % (d.parameters, n))
            else:
                d = pointpats.PoissonClusterPointProcess(win, 2 * mean, mean, 0.1, 1, conditioning=True)
                n = len(d.realizations[0])
                ctx.check(n == 2 * d.num_parents[0], "%d events of %d parents with 2 children" % (n, d.num_parents[0]))
                n //= 2
        N.append(n)
        ctx.step()
    N = np.array(N)
    pmf = [math.exp(-mean) * mean ** k / math.factorial(k) for k in range(7)]
    got = [float((N == k).mean()) for k in range(7)]
    ctx.check(max(abs(a - b) for a, b in zip(got, pmf)) <= 0.035, lambda: "%s: numbers over all answers %r, Poisson(%d): %r"
              % (case["which"], np.round(got, 3).tolist(), mean, np.round(pmf, 3).tolist()))
    ctx.check(abs(N.mean() - mean) <= 0.08 * mean, lambda: "%s: mean number %r, announced %r" % (case["which"], float(N.mean()), mean))
    ctx.outcome(case["which"], mean, np.round(got, 2))


class Split(tape.Tape):
    """floating point answers from one script, integers from another"""

    def __init__(self, dbl, ints):
        super().__init__(ints, seed=1)
        self.d = iter(dbl)

    def _dbl(self, _):
        return float(next(self.d, 0.5))


def op_shuffle(case, ctx):
    """a batch that is cut to size keeps each of its points equally often"""
    import pointpats
    win = pointpats.Window([(0, 0), (1, 0), (1, 1), (0, 1), (0, 0)])
    # 7 points, 3 children: two batches of two clusters, one (or fewer) of the second batch is kept
    keep = case["keep"]
    m = 8 if keep else 6            # points in a batch (with keep the two parents as well)
    need = 7 - m if m < 7 else 7
    par = [(0.2, 0.8), (0.3, 0.7)]
    hits = {}
    runs = 0
    if keep:
        scripts = itertools.product(*[range(k + 1) for k in (7, 6, 5)])         # the first three steps decide much, all of them are fair
        scripts = [tuple(s) + (0, 0, 0, 0) for s in scripts]
    else:
        scripts = itertools.product(*[range(k + 1) for k in (5, 4, 3, 2, 1)])
    for sc in scripts:
        u = []
        for b in range(3):
            u += [par[0][0], par[0][1], par[1][0], par[1][1]]
            for c in range(2):
                # burn * children candidates: x then y, the first ones in the disc
                u += [0.4, 0.5, 0.6, 0.5, 0.5, 0.5] + [0.45, 0.55, 0.5, 0.5, 0.5, 0.5]
        t = Split(u, list(range(m - 1, 0, -1)) * (0 if keep else 1) + list(sc) if not keep else list(sc))
        old = np.random.get_bit_generator()
        np.random.set_bit_generator(t.bg)
        try:
            A = np.asarray(pointpats.PoissonClusterPointProcess(win, 7, 3, 0.02, 1, keep=keep).realizations[0])
        finally:
            np.random.set_bit_generator(old)
        ctx.check(A.shape == (7, 2), "7 points asked for: shape %r" % (A.shape,))
        tail = A[6:] if not keep else A
        for p in np.round(tail, 9):
            hits[tuple(p)] = hits.get(tuple(p), 0) + 1
        runs += 1
        ctx.step()
    c = sorted(hits.values())
    tot = sum(c)
    ctx.check(len(c) == m and c[0] >= 0.5 * tot / m and c[-1] <= 1.6 * tot / m,
              lambda: "PoissonClusterPointProcess(n=7, parents=3, keep=%r): over all %d shuffles the %d points of a batch are kept %r times" % (keep, runs, m, c))
    ctx.outcome("shuffle", keep, c)


def op_strauss(case, ctx):
    """a point within r of the other is accepted gamma times as often as one beyond"""
    from pointpats import random as r
    s, dx, dy = lib.FRAMES[case["f"]]
    box = np.array([dx, dy, dx + s, dy + s])
    g, G = case["g"], case["G"]
    near, far = [0, 0], [0, 0]
    L = mid(G)
    for sc in itertools.product(L, repeat=3):
        # first point, birth, where and whether, then the death of the first
        t = tape.Tape([0.5, 0.5, 0.25, *sc, 0.75, 0.2], seed=1)
        A = r.strauss(box, size=1, gamma=g, r=0.3 * s, n_iter=2, rng=t.generator())
        x = (A[0] - box[:2]) / s
        d = math.hypot(sc[0] - .5, sc[1] - .5)
        if d < .28 or d > .32:
            (near if d < .3 else far)[1] += 1
            (near if d < .3 else far)[0] += bool(np.abs(x - .5).max() > 1e-6)
        ctx.step()
    if far[0]:
        a, b = near[0] / near[1], far[0] / far[1]
        ctx.check(abs(a / b - g) <= 0.12, lambda: "strauss(gamma=%r): accepted %.3f of the points within r of another, %.3f of those beyond" % (g, a, b))
        ctx.outcome("strauss", g, case["f"], round(a / b, 2))
    else:
        ctx.note("strauss not decided", 1)


def op_normal(case, ctx):
    """equally likely answers of the normal generator: the displacements have mean 0 and variance 1 in every direction"""
    from pointpats import random as r
    s, dx, dy = lib.FRAMES[case["f"]]
    box = np.array([dx - 100 * s, dy - 100 * s, dx + 100 * s, dy + 100 * s])
    # 64-bit answers of the ziggurat: strip (8 bits), sign, position; only the answers used at once
    out = []
    H = (3, 60, 120, 180, 240)
    for a, sa, pa, b, sb, pb in itertools.product(H, (0, 1), (0.15, 0.5, 0.85), H, (0, 1), (0.15, 0.5, 0.85)):
        z = [i | (sg << 8) | (int(p * 2 ** 52) << 9) for i, sg, p in ((a, sa, pa), (b, sb, pb))]
        t = tape.Tape(z, seed=1)
        A = r.normal(box, center=(dx, dy), cov=float(s * s), size=1, rng=t.generator())
        if not t.extra:
            t2 = tape.Tape(z, seed=1)
            out.append(((A[0] - [dx, dy]) / s, t2.generator().standard_normal(2)))
        ctx.step()
    V = np.array([v for v, _ in out])
    Z = np.array([z for _, z in out])
    tol = 1e-6 + 1e-14 * max(abs(box)) / s
    ctx.check(len(V) > 400, "only %d displacements decided by two answers" % len(V))
    for q in (.1, .25, .5, .75, .9):
        for ax in (0, 1):
            d = abs(float(np.quantile(V[:, ax], q)) - float(np.quantile(Z[:, ax], q)))
            ctx.check(d <= 0.15 + tol, lambda: "normal(cov=1): quantile %r of coordinate %d is off by %r" % (q, ax, d))
    ctx.outcome("normal", case["f"], len(V))
