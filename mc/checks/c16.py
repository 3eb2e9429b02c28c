"""C16: PoissonPointProcess and PoissonClusterPointProcess with the global generator's answers enumerated."""
import itertools
import math
import numpy as np
import lib
import simlib
import tape

META = dict(
    technique="exhaustive enumeration of the answers of numpy's global generator (all sequences over a small alphabet up to a bound, then a "
              "continuation) x windows x sizes x flags on the real process classes, against the announced counts and the window",
    level_note="Counts drawn from the Poisson distribution are covered for small means (0 to about 6 events); a fair continuation follows the "
               "enumerated answers.",
    rule="a case is (class, window, frame, n, samples, flags) with all scripts; an outcome is the table of sizes and cluster layouts",
    bounds=dict(quick="8 windows, frames rotating; n 0..6; samples 0..3; all flags; 4^4 answers (3^4 for clusters); parents 1..3, children 1..3, 3 radii, keep",
                thorough="all 6 frames; 4^5 and 4^6 answers"),
    assumptions=["libpysal point-in-polygon", "for cluster processes n is a multiple of the number of parents where exact cluster sizes are judged"],
)
WIN = ("box", "tri", "hole", "holes2", "parts", "convex", "thin", "unit")
UNI = (0.07, 0.33, 0.64, 0.91)


def cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    i = 0
    for w in WIN:
        for n in range(0, 7):
            for samples in (0, 1, 2, 3):
                for cond in (False, True):
                    for pp in (False, True):
                        i += 1
                        for f in (fr[i % len(fr)],) if q else fr:
                            yield dict(op="poisson", w=w, f=f, n=n, s=samples, c=cond, pp=pp, k=4 if not cond else 3, q=int(q))
    for w in WIN:
        yield dict(op="reach", w=w, f=fr[i % len(fr)])
        i += 1
        for par, ch in itertools.product((1, 2, 3), (1, 2, 3)):
            for samples in (1, 2):
                for cond in (False, True):
                    for rad in (0.05, 0.3, 1.5):
                        i += 1
                        for f in (fr[i % len(fr)],) if q else fr:
                            yield dict(op="cluster", w=w, f=f, par=par, n=par * ch, s=samples, c=cond, pp=bool(i % 2), r=rad, keep=(i // 2) % 3 == 0,
                                       k=4 if q else 6)
        for n, par in ((5, 2), (7, 3), (4, 3), (1, 4), (0, 2)):
            for cond in (False, True):
                i += 1
                yield dict(op="cluster", w=w, f=fr[i % len(fr)], par=par, n=n, s=2, c=cond, pp=False, r=0.3, keep=False, k=3)
    for w in ("pinhole", "nick"):        # almost their own bounding boxes
        for f in fr:
            yield dict(op="reach", w=w, f=f)
            yield dict(op="fill", w=w, f=f)
    for f in fr:
        yield dict(op="layout", f=f)
        yield dict(op="disk", f=f)


def window(name, f):
    import pointpats
    h = simlib.make("box" if name == "unit" else name, f)
    if name == "unit":
        s, dx, dy = lib.FRAMES[f]
        ring = [(dx, dy), (dx + s, dy), (dx + s, dy + s), (dx, dy + s)]
        h.update(polys=[(ring, [])], box=(dx, dy, dx + s, dy + s), ext=s, area=s * s)
    parts = [list(s) + [s[0]] for s, _ in h["polys"]]
    holes = [list(g) + [g[0]] for _, hs in h["polys"] for g in hs]
    return (pointpats.Window(parts, holes) if holes else pointpats.Window(parts)), h


def announced(ctx, d, win, h, samples, pp, what):
    """sizes, keys, containment -> list of arrays"""
    from pointpats import PointPattern
    ctx.check(sorted(d.realizations) == list(range(samples)), lambda: "%s: realizations %r" % (what, sorted(d.realizations)))
    ctx.check(sorted(d.parameters) == list(range(samples)), lambda: "%s: parameters %r" % (what, d.parameters))
    out = []
    for i in range(samples):
        r = d.realizations[i]
        n = d.parameters[i]["n"]
        if pp:
            ctx.check(isinstance(r, PointPattern), "%s: realization is a %s" % (what, type(r).__name__))
            ctx.check(r.window is win, "%s: the realization has another window" % what)
            ctx.check(r.n == n, lambda: "%s: realization %d has n=%r, announced %r" % (what, i, r.n, n))
            A = r.points.values
        else:
            ctx.check(isinstance(r, np.ndarray), "%s: realization is a %s" % (what, type(r).__name__))
            A = r
        ctx.check(A.shape == (n, 2), lambda: "%s: realization %d has shape %r, announced %r" % (what, i, A.shape, n))
        A = np.asarray(A, float)
        if len(A):
            c = simlib.classify(h, A)
            ctx.check(bool((c >= 0).all()), lambda: "%s: points outside the window: %r" % (what, A[c < 0].tolist()))
        out.append(A)
    return out


def judge(case, ctx):
    from pointpats import PoissonPointProcess as PP, PoissonClusterPointProcess as PC
    ctx.state(*[case[k] for k in sorted(case)])
    s = lib.FRAMES[case["f"]][0]
    op = case["op"]
    if op == "poisson":
        win, h = window(case["w"], case["f"])
        k = case["k"] + (0 if case["q"] else 1)
        if case["n"] == 0 or case["s"] == 0:
            k = 1
        counts, mixed = set(), False
        for sc in itertools.product(UNI, repeat=k):
            with tape.legacy(list(sc), seed=3):
                d = PP(win, case["n"], case["s"], conditioning=case["c"], asPP=case["pp"])
            what = "PoissonPointProcess(%s, %d, %d, conditioning=%r, asPP=%r), answers %r" % (case["w"], case["n"], case["s"], case["c"], case["pp"], sc)
            R = announced(ctx, d, win, h, case["s"], case["pp"], what)
            if not case["c"]:
                ctx.check(all(len(A) == case["n"] for A in R), what + ": sizes %r" % [len(A) for A in R])
            ctx.check(d.n == case["n"] and d.samples == case["s"] and d.window is win, what + ": n, samples, window")
            for A, B in itertools.combinations([A for A in R if len(A) > 2], 2):
                ctx.check(not np.array_equal(A, B), what + ": two samples are identical")
            counts |= {len(A) for A in R}
            mixed |= len({len(A) for A in R}) > 1
            ctx.step()
        if case["c"] and case["n"] >= 2 and case["s"] > 1:
            ctx.check(mixed, "conditioning=True: under every answer the %d samples have the same size" % case["s"])
        if case["c"] and case["n"] >= 2 and case["s"]:
            ctx.check(len(counts) > 1, "conditioning=True: the sizes are %r over all answers" % counts)
        ctx.outcome(case["w"], case["n"], case["s"], case["c"], sorted(counts))
    elif op == "reach":
        win, h = window(case["w"], case["f"])
        b = h["box"]
        U = (0.04, 0.26, 0.5, 0.74, 0.96)
        L = np.array([(b[0] + u * (b[2] - b[0]), b[1] + v * (b[3] - b[1])) for u in U for v in U])
        inside = set(np.flatnonzero(simlib.classify(h, L) == 1).tolist())
        seen = {}
        for sc in itertools.product(U, repeat=4):
            with tape.legacy(list(sc), seed=5):
                A = np.asarray(PP(win, 2, 1).realizations[0])
            for p in A:
                d = np.abs(L - p).max(1)
                j = int(d.argmin())
                if d[j] <= 1e-9 * h["ext"] + 1e-15 * np.abs(p).max():
                    seen[j] = seen.get(j, 0) + 1
            ctx.step()
        miss = inside - set(seen)
        ctx.check(not miss, lambda: "PoissonPointProcess(%s): points of the window never reached: %r" % (case["w"], L[sorted(miss)].tolist()))
        cnt = {seen[j] for j in inside}
        ctx.check(len(cnt) == 1, lambda: "PoissonPointProcess(%s): reached unequally often: %r" % (case["w"], seen))
        ctx.outcome("reach", case["w"], sorted(inside))
    elif op == "fill":
        win, h = window(case["w"], case["f"])
        for sd in range(2):
            with tape.seeded_legacy(sd):
                D = [("PoissonPointProcess", PP(win, 900, 2, asPP=bool(sd)))] + [("PoissonClusterPointProcess", PC(win, 900, m, .8 * s, 1, asPP=bool(sd), keep=k, conditioning=c)) for m, k, c in ((30, False, False), (90, True, False), (30, True, True))]
            for nm, d in D:
                announced(ctx, d, win, h, d.samples, bool(sd), "%s(%s)" % (nm, case["w"]))
                ctx.step()
        ctx.outcome("fill", case["w"], case["f"])
    elif op == "cluster":
        win, h = window(case["w"], case["f"])
        par, n = case["par"], case["n"]
        children = -(-n // par)
        mixed = False
        for sc in itertools.product(UNI[::-1][:3] if case["k"] < 6 else UNI[:3], repeat=case["k"]):
            with tape.legacy(list(sc), seed=3):
                d = PC(win, n, par, case["r"] * s, case["s"], keep=case["keep"], asPP=case["pp"], conditioning=case["c"])
            what = "PoissonClusterPointProcess(%s, %d, %d, %r, %d, keep=%r, conditioning=%r)" % (case["w"], n, par, case["r"], case["s"], case["keep"], case["c"])
            R = announced(ctx, d, win, h, case["s"], case["pp"], what)
            ctx.check(d.children == children, "%s: children %r" % (what, d.children))
            ctx.check(sorted(d.num_parents) == list(range(case["s"])), "%s: num_parents %r" % (what, d.num_parents))
            for i, A in enumerate(R):
                want = d.num_parents[i] * children if case["c"] else n
                ctx.check(len(A) == want, lambda: "%s: %d points for %r parents and %d children" % (what, len(A), d.num_parents[i], children))
                if not case["c"]:
                    ctx.check(d.num_parents[i] == par, "%s: num_parents %r" % (what, d.num_parents))
            mixed |= len({len(A) for A in R}) > 1
            ctx.step()
            ctx.outcome(case["w"], n, par, case["c"], [len(A) for A in R])
        if case["c"] and case["s"] > 1 and children:
            ctx.check(mixed, "%s: under every answer all samples have the same size" % what)
    elif op == "layout":
        # parents can only be at lattice positions: children must lie around them, in full clusters
        win, h = window("box", case["f"])
        b = h["box"]
        U = (0.2, 0.5, 0.85)
        L = np.array([(b[0] + u * (b[2] - b[0]), b[1] + v * (b[3] - b[1])) for u in U for v in U])
        for par, ch, cond in itertools.product((1, 2, 3), (1, 2, 4), (False, True)):
            for sc in itertools.product(U, repeat=4):
                t = tape.Tape(list(sc), seed=2, alphabet=U)
                old = np.random.get_bit_generator()
                np.random.set_bit_generator(t.bg)
                try:
                    d = PC(win, par * ch, par, 0.1 * s, 2, conditioning=cond)
                finally:
                    np.random.set_bit_generator(old)
                for i in range(2):
                    A = np.asarray(d.realizations[i])
                    if not len(A):
                        continue
                    D = lib.dist_matrix(A, L)
                    j = D.argmin(1)
                    ctx.check(bool((D.min(1) <= 0.1 * s * (1 + 1e-6) + 1e-14 * np.abs(b).max()).all()),
                              lambda: "children at %r from the nearest possible parent, radius %r" % (D.min(1).tolist(), 0.1 * s))
                    c = np.bincount(j, minlength=len(L))
                    ctx.check(bool((c % ch == 0).all()) and (c > 0).sum() <= d.num_parents[i],
                              lambda: "%d parents with %d children each: cluster sizes %r" % (d.num_parents[i], ch, c[c > 0].tolist()))
                    ctx.outcome(par, ch, cond, sorted(c[c > 0].tolist()))
                ctx.step()
        # every lattice position is a possible parent
        seen = set()
        for sc in itertools.product(U, repeat=2):
            with tape.legacy(list(sc) + [0.5] * 8, seed=4):
                A = np.asarray(PC(win, 2, 1, 0.1 * s, 1).realizations[0])
            seen |= set(lib.dist_matrix(A, L).argmin(1).tolist())
        ctx.check(len(seen) == 9, "parents occur only at %d of 9 positions" % len(seen))
    else:
        from pointpats.process import runif_in_circle
        U = (0.01, 0.25, 0.5, 0.75, 0.99)
        s_, dx, dy = lib.FRAMES[case["f"]]
        for R in (0.4 * s_, 3.0 * s_):
            far = {}
            for sc in itertools.product(U, repeat=4):
                for n in (1, 2, 3):
                    with tape.legacy(list(sc), seed=4):
                        A = np.asarray(runif_in_circle(n, R, (dx, dy)))
                    ctx.check(A.ndim == 2 and len(A) in (n, n + 1) and A.shape[1] == 2, "runif_in_circle(%d): shape %r" % (n, A.shape))
                    v = (A - [dx, dy]) / R
                    ctx.check(bool((np.hypot(*v.T) <= 1 + 1e-6).all()), lambda: "runif_in_circle: %r radii from the centre" % np.hypot(*v.T))
                    for q, (ux, uy) in enumerate(((1, 0), (-1, 0), (0, 1), (0, -1), (.7, .7))):
                        far[q] = max(far.get(q, 0), float((v @ [ux, uy]).max()))
                    ctx.step()
            ctx.check(all(far[q] >= 0.9 for q in range(4)) and far[4] > 0.65, lambda: "runif_in_circle reaches only %r of the radius" % (far,))
            ctx.outcome(R, far)
    ctx.trace()
