"""C13: simulators return the requested number of points, inside the hull, for enumerated generator answers."""
import itertools
import math
from fractions import Fraction
import numpy as np
import lib
import simlib
import tape

META = dict(
    technique="exhaustive enumeration of the random generator's answers (all sequences over a small alphabet up to a bound, then a fair "
              "continuation) x hulls x simulators on the real code, containment by an even-odd reference; all size/intensity forms",
    level_note="Answers beyond the enumerated prefix come from one fixed continuation; boundary points may count as inside.",
    rule="a case is (simulator, hull, frame, first answers) with all continuations, or (hull, frame) with all size forms",
    bounds=dict(quick="10 hulls, frames rotating; poisson 4^4 and 5^4 answers; normal 6^4 answers; cluster simulators 4^5 answers; strauss 4^4 answers, "
                      "12 iterations; every size/intensity form for 5 simulators",
                thorough="all 10 hulls x 6 frames; poisson 5^6; cluster simulators 4^6; strauss 4^6"),
    assumptions=[],
)
E1 = 1 - 2.0 ** -53
UNI = (0.0, 0.23, 0.61, E1)
UNI5 = (0.06, 0.29, 0.5, 0.77, 0.94)


def zint(v, idx=200):
    """a 64-bit answer from which numpy's ziggurat makes a normal of the sign and relative size of v"""
    return idx | ((v < 0) << 8) | (int(abs(v) * 2 ** 51) << 9)


NORM = tuple(zint(v) for v in (0.0, 0.31, -0.31, 0.87, -0.87, 1.4))


def cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    i = 0
    for h in simlib.HULLS:
        for f in fr if not q else (fr[i % len(fr)], fr[(i + 2) % len(fr)]):
            yield dict(op="size", h=h, f=f)
            i += 1
    for h in simlib.HULLS:
        for f in fr if not q else (fr[i % len(fr)], fr[(i + 3) % len(fr)]):
            i += 1
            yield dict(op="reach", h=h, f=f)
            for a in range(4):
                yield dict(op="sim", sim="poisson", h=h, f=f, a=[a], k=4 if q else 6, n=2)
                yield dict(op="sim", sim="poisson", h=h, f=f, a=[a, i % 4], k=5 if q else 6, n=1, reps=2)
        if h == "box":
            for g in ("pinhole", "nick"):       # almost their own bounding boxes
                for f in fr:
                    yield dict(op="reach", h=g, f=f)
                for k, sim in enumerate(("poisson", "normal", "cluster_poisson", "cluster_normal", "strauss")):
                    yield dict(op="fill", sim=sim, h=g, f=fr[k])
        for f in (fr[i % len(fr)],) if q else fr:
            i += 1
            for a in range(6):
                for cov in (None, 1.0, "m"):
                    yield dict(op="sim", sim="normal", h=h, f=f, a=[a], k=4, n=2, cov=cov)
            for a in range(4):
                for b in range(4):
                    for rad in (None, 0.4, 2.5, "each"):
                        yield dict(op="sim", sim="cluster_poisson", h=h, f=f, a=[a, b], k=4 if q else 5, n=5, rad=rad)
                    yield dict(op="sim", sim="cluster_normal", h=h, f=f, a=[a, b], k=4 if q else 5, n=5)
                    yield dict(op="sim", sim="strauss", h=h, f=f, a=[a, b], k=4 if q else 6, n=2)


def sims():
    from pointpats import random as r
    return dict(poisson=r.poisson, normal=r.normal, cluster_poisson=r.cluster_poisson, cluster_normal=r.cluster_normal,
                strauss=lambda *a, **k: r.strauss(*a, n_iter=k.pop("n_iter", 30), r=k.pop("r", 1e-3), gamma=0.5, **k))


def want_n(area, intensity):
    """admissible counts for an expected number of points area*intensity"""
    e = area * intensity
    r = round(e)
    return {r, int(e)} if abs(e - r) <= 1e-7 * max(1, e) else {int(e)}


def judge(case, ctx):
    h = simlib.make(case["h"], case["f"])
    S = sims()
    s = lib.FRAMES[case["f"]][0]
    ctx.state(case["h"], case["f"], case["op"], case.get("a"), case.get("cov"), case.get("rad"))
    if case["op"] == "size":
        return sizes(h, S, ctx)
    if case["op"] == "reach":
        return reach(h, S, ctx)
    if case["op"] == "fill":
        return fill(case, h, S, ctx)
    sim, n, reps = case["sim"], case.get("n"), case.get("reps", 1)
    alph = NORM if sim == "normal" else UNI
    pre = [alph[a] for a in case["a"]]
    kw = {}
    ctr = None
    if sim == "normal" and case["cov"] is not None:
        kw["cov"] = 1.0 * s * s if case["cov"] == 1.0 else np.array([[1.0, .4], [.4, 1.0]]) * s * s
    if sim == "cluster_poisson":
        kw["cluster_radius"] = [0.7 * s, 0.2 * s] if case["rad"] == "each" else (case["rad"] and case["rad"] * s)
    if sim == "strauss":
        kw.update(r=0.8 * s, n_iter=12)
    for rest in itertools.product(alph, repeat=case["k"] - len(pre)):
        t = tape.Tape(pre + list(rest), seed=7)
        res = S[sim](h["arg"], size=(n, reps), rng=t.generator(), **kw)
        R = simlib.check_result(ctx, res, n, reps, h, "%s(%s, size=%r, %r) for answers %r" % (sim, case["h"], (n, reps), kw, pre + list(rest)))
        ctx.step()
        ctx.outcome(sim, case["h"], case["f"], np.round((R - h["box"][0]) / h["ext"], 6))
    ctx.trace()


def reach(h, S, ctx):
    """all pairs of answers from a lattice: exactly the lattice points in the hull occur, each equally often"""
    b = h["box"]
    xs = [b[0] + f * (b[2] - b[0]) for f in UNI5]
    ys = [b[1] + f * (b[3] - b[1]) for f in UNI5]
    L = np.array([(x, y) for x in xs for y in ys])
    c = simlib.classify(h, L)
    seen = {}
    for sc in itertools.product(UNI5, repeat=4):
        for n, reps in ((2, 1), (1, 2)) if sc[0] != sc[1] else ((2, 1),):
            t = tape.Tape(list(sc), seed=11)
            R = S["poisson"](h["arg"], size=(n, reps), rng=t.generator())
            R = simlib.check_result(ctx, R, n, reps, h, "poisson(%s) for answers %r" % (h["name"], sc)).reshape(-1, 2)
            for p in R:
                d = np.abs(L - p).max(1)
                k = int(d.argmin())
                if d[k] <= 1e-9 * h["ext"] + 1e-15 * np.abs(p).max() and n == 2:
                    seen[k] = seen.get(k, 0) + 1
            ctx.step()
    inside = {int(k) for k in np.flatnonzero(c == 1)}
    miss = inside - set(seen)
    ctx.check(not miss, lambda: "poisson(%s, %s): lattice points of the hull never reached: %r" % (h["name"], h["f"], L[sorted(miss)].tolist()))
    cnt = {seen[k] for k in inside}
    ctx.check(len(cnt) <= 1, lambda: "poisson(%s, %s): lattice points reached unequally often over all answers: %r" % (h["name"], h["f"], seen))
    ctx.note("lattice points in the hull reached", len(inside))
    ctx.outcome("reach", h["name"], sorted(inside))
    ctx.trace()


def fill(case, h, S, ctx):
    """many points, so that some answers fall in the small part of the box that is not in the hull"""
    s = lib.FRAMES[case["f"]][0]
    kw = dict(poisson={}, normal=dict(cov=4. * s * s), cluster_poisson=dict(cluster_radius=2.5 * s, n_seeds=3), cluster_normal=dict(cov=4. * s * s, n_seeds=3),
              strauss=dict(r=1e-6 * s, n_iter=30))[case["sim"]]
    mid = [.48, .485, .5, .515, .52, .937, .96, .99, .3]
    for seed in range(3):
        for n in (40, 900):
            if case["sim"] in ("poisson", "strauss"):       # answers around the middle and the far corner
                t = tape.Tape([a for k in range(40) for a in (mid[k % 9], mid[(k // 9 + k * 2) % 9])], seed=seed)
                g = t.generator()
            else:
                g = np.random.default_rng(seed)
            R = S[case["sim"]](h["arg"], size=n, rng=g, **kw)
            simlib.check_result(ctx, R, n, 1, h, "%s(%s, size=%d)" % (case["sim"], h["name"], n))
            ctx.step()
    ctx.outcome("fill", case["sim"], h["name"])
    ctx.trace()


def sizes(h, S, ctx):
    from pointpats.random import parse_size_and_intensity as parse
    A = h["area"]
    arg = h["arg"]
    # the helper itself (an (N,2) array is turned into its bounding box first)
    parg = np.array(h["box"]) if h["name"].startswith("points") else arg
    for n, reps in itertools.product((0, 1, 2, 3, 7, 100), (1, 2, 5)):
        got = parse(parg, size=(n, reps))
        ctx.check(got[:2] == (n, reps), "parse(size=%r) -> %r" % ((n, reps), got))
        ctx.close(got[2], n / A, "intensity of %r" % ((n, reps),), rtol=1e-7)
        got = parse(parg, size=n)
        ctx.check(got[:2] == (n, 1), "parse(size=%r) -> %r" % (n, got))
        ctx.close(got[2], n / A, "intensity of %r" % n, rtol=1e-7)
    got = parse(parg)
    ctx.check(got[:2] == (100, 1), "parse() -> %r" % (got,))
    ctx.close(got[2], 100 / A, "default intensity", rtol=1e-7)
    for e in (0.4, 0.9, 1.0, 1.2, 2.0, 2.5, 2.999, 3.0, 7.0, 9.75, 10.0, 33.0, 99.5):
        for lam in {e / A, float(Fraction(e) / Fraction(A))}:
            for size in (None, 1, 2, 4):
                got = parse(parg, intensity=lam, size=size)
                ctx.check(got[0] in want_n(A, lam) and got[1] == (size or 1), lambda: "parse(%s, intensity=%r, size=%r) -> %r, expected %r points"
                          % (h["name"], lam, size, got, want_n(A, lam)))
                ctx.close(got[2], lam, "intensity given", rtol=1e-9)
    for bad in (dict(size=(3, 2), intensity=1.0), dict(size=(3, 1), intensity=1.0), dict(size=(0, 0), intensity=2), dict(size=(3,)), dict(size=(3, 2, 1)), dict(size=(3,), intensity=2.0), dict(size=[3, 2]),
                dict(size=2.5), dict(size="3"), dict(size=2.5, intensity=1.0)):
        try:
            got = parse(parg, **bad)
        except ValueError:
            continue
        ctx.fail("parse(%r) -> %r" % (bad, got))
    ctx.step(30)
    # every simulator with every form
    for nm, f in S.items():
        has_int = nm in ("poisson", "cluster_poisson", "strauss")
        lo = 1 if nm == "strauss" else 0
        forms = [dict(size=(n, r)) for n in (3, 4) for r in (1, 2, 3)] + [dict(size=5), dict(size=2)]
        forms += [dict(), dict(size=(2, 2))] if nm != "strauss" else []
        if not nm.startswith("cluster"):
            forms += [dict(size=1), dict(size=(1, 1)), dict(size=(1, 3))]
            if nm != "strauss":
                forms += [dict(size=0), dict(size=(0, 2))]
        if has_int:
            forms += [dict(intensity=e / A, size=s) for e in (3, 3.6) for s in (None, 1, 2)]
        for kw in forms:
            k2 = {k: v for k, v in kw.items() if v is not None}
            if isinstance(kw.get("size"), tuple):
                ns, reps = {kw["size"][0]}, kw["size"][1]
            elif kw.get("intensity"):
                ns, reps = want_n(A, kw["intensity"]), kw.get("size") or 1
            else:
                ns, reps = {kw.get("size", 100)}, 1
            res = f(arg, rng=5, **k2)
            what = "%s(%s, %r)" % (nm, h["name"], k2)
            ctx.check(res.shape[-2] in ns, lambda: "%s: shape %r, expected one of %r points" % (what, res.shape, ns))
            R = simlib.check_result(ctx, res, res.shape[-2], reps, h, what)
            if reps > 1 and R.shape[1]:
                ctx.check(not np.array_equal(R[0], R[1]), what + ": replications are identical")
            ctx.step()
            ctx.outcome(nm, kw, R.shape)
        if has_int:
            try:
                f(arg, size=(3, 2), intensity=1.0, rng=1)
            except ValueError:
                pass
            else:
                ctx.fail("%s accepted a size tuple with an intensity" % nm)
    ctx.trace()
