"""C12: QStatistic against Pearson's chi-square; simulated patterns enumerated through the generator."""
import itertools
import math
import numpy as np
import lib
import tape
from . import c11

META = dict(
    technique="exhaustive enumeration of lattice patterns x grids for the observed test and of all orders of the random answers for "
              "the simulated one, on the real QStatistic against an independent Pearson computation",
    level_note="The simulated patterns of the enumerated part range over all arrangements of 2n distinct fractions (n = 2, 3); "
               "windows with holes or several parts are judged by which count tables are possible in them.",
    rule="a case is (pattern, grid, frame[, window]); an outcome is (counts, chi2[, set of simulated chi2])",
    bounds=dict(quick="3x3 lattice sets of 2-5, multisets of 3 x 8 grids (frames rotating); n in {50, 300} x 8 families; simulations: all "
                      "120/720 arrangements for a third of the 2- and 3-sets x 5 grids; 3 window kinds; realizations 1, 2, 7; 9 rng kinds",
                thorough="4x4 lattice sets of 2-4 and multisets; simulations for every 2- and 3-set of the 3x3 lattice x 9 grids"),
    assumptions=[],
)
GRIDS = [dict(), dict(nx=2, ny=2), dict(nx=1, ny=4), dict(nx=5, ny=2), dict(rectangle_width=0.7, rectangle_height=1.1),
         dict(rectangle_width=1.0, rectangle_height=0.5), dict(shape="hexagon", lh=0.8), dict(shape="hexagon", lh=0.35),
         dict(shape="hexagon", lh=3.0)]


def cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    w = 3 if q else 4
    pats = itertools.chain(lib.subsets(w, w, 2), lib.subsets(w, w, 3), lib.subsets(w, w, 4), lib.multisets(w, w, 3),
                           lib.subsets(3, 3, 5))
    i = 0
    for p in pats:
        P = np.asarray(p)
        if (np.ptp(P, axis=0) > 0).all():
            i += 1
            yield dict(op="obs", p=p, f=fr[i % len(fr)])
    for n in (50, 300):
        for kind in lib.KINDS:
            yield dict(op="obs", n=n, kind=kind, f=fr[i % len(fr)], seed=seed)
            i += 1
    for k in (2, 3):
        for i, p in enumerate(lib.subsets(3, 3, k)):
            if q and i % (3 if k == 2 else 6):
                continue
            if not (np.ptp(np.asarray(p), axis=0) > 0).all():
                continue
            for g in range(len(GRIDS)):
                if q and (g + i) % 2 and k == 3:
                    continue
                yield dict(op="sim", p=p, g=g, f=fr[i % len(fr)])
    for i, p in enumerate(itertools.islice(lib.subsets(3, 3, 4), 0, None, 9 if q else 2)):
        if not (np.ptp(np.asarray(p), axis=0) > 0).all():
            continue
        for wk in ("corners", "hole", "poly"):
            for g in (0, 1, 4, 6):
                yield dict(op="win", p=p, g=g, w=wk, f=fr[i % len(fr)])
        yield dict(op="rng", p=p, f=fr[i % len(fr)], g=(1, 6)[i % 2])
        yield dict(op="plot", p=p, f=fr[i % 3])
    for n in (30, 60):
        for kind in ("uniform", "cluster", "skew"):
            yield dict(op="rng", n=n, kind=kind, f="id", seed=seed, g=0)


def scaled(g, s):
    return {k: (v * s if k in ("rectangle_width", "rectangle_height", "lh") else v) for k, v in g.items()}


def pearson(counts):
    o = np.asarray(counts, float)
    e = o.sum() / len(o)
    return math.fsum((v - e) ** 2 / e for v in o), o, e


def chi2_sf(x, df):
    from scipy.special import gammaincc
    return float(gammaincc(df / 2, x / 2))


def check_observed(ctx, q, P, kw, what):
    """the analytical part; -> counts by cell"""
    box = np.array([*P.min(0), *P.max(0)])
    if kw.get("shape") == "hexagon":
        kind, par = "hex", kw["lh"]
    elif kw.get("rectangle_width"):
        kind, par = "rect", {k: kw[k] for k in ("rectangle_width", "rectangle_height")}
    else:
        kind, par = "rect", dict(count_column=kw.get("nx", 3), count_row=kw.get("ny", 3))
    t = c11.check_counts(ctx, P, c11.make(kind, P, par), kind, par, box, what)
    c11.check_counts(ctx, P, q.mr, kind, par, box, what + " .mr")
    ctx.check(sorted(q.cell_ids) == sorted(t) and len(q.cell_ids) == len(t), lambda: "%s: cell_ids %r, cells %r" % (what, q.cell_ids, sorted(t)))
    chi2, o, e = pearson([t[c] for c in q.cell_ids])
    ctx.close(q.chi2, chi2, what + ": chi2", rtol=1e-9, atol=1e-9)
    ctx.eq(q.df, len(t) - 1, what + ": df")
    if q.df > 0:
        ctx.close(q.chi2_pvalue, chi2_sf(chi2, q.df), what + ": chi2_pvalue", rtol=1e-7, atol=1e-13)
    ctx.close(q.chi2_contrib, (o - e) ** 2 / e, what + ": chi2_contrib", rtol=1e-9, atol=1e-9)
    ctx.eq(np.asarray(q.mbb, float), box, what + ": mbb")
    ctx.eq(np.asarray(q.points, float), P, what + ": points")
    ctx.step()
    return t


def check_pvalue(ctx, q, R, what):
    sims = np.asarray(q.chi2_realizations, float)
    ctx.check(sims.shape == (R,), "%s: %r realizations, shape %r" % (what, R, sims.shape))
    lo = (np.sum(sims >= q.chi2) + 1) / (R + 1)
    hi = (np.sum(sims >= q.chi2 * (1 - 1e-12)) + 1) / (R + 1)
    ctx.check(lo - 1e-12 <= q.chi2_r_pvalue <= hi + 1e-12, lambda: "%s: chi2_r_pvalue %r, between %r and %r from the stored realizations"
              % (what, q.chi2_r_pvalue, lo, hi))
    return sims


def rect_chi2(Q, nx, ny):
    lo, hi = Q.min(0), Q.max(0)
    ix = np.minimum(np.floor((Q[:, 0] - lo[0]) / (hi[0] - lo[0]) * nx).astype(int), nx - 1)
    iy = np.minimum(np.floor((Q[:, 1] - lo[1]) / (hi[1] - lo[1]) * ny).astype(int), ny - 1)
    return pearson(np.bincount(ix + iy * nx, minlength=nx * ny))[0]


def hex_chi2(Q, L):
    return pearson(list(c11.make("hex", Q, L).point_location_sta().values()))[0]


def compositions(n, k):
    """chi2 values of all ways to spread n points over k cells"""
    out = set()

    def part(n, m, acc):
        if n == 0:
            out.add(round(sum(v * v for v in acc) * k / N - N, 7))
            return
        if len(acc) == k:
            return
        for v in range(min(n, m), 0, -1):
            part(n - v, v, acc + [v])
    N = n
    part(n, n, [])
    return out


def judge(case, ctx):
    from pointpats import PointPattern, QStatistic
    s = lib.FRAMES[case["f"]][0]
    P0 = np.asarray(case["p"], float) if "p" in case else lib.structured(case["n"], case["kind"], case["seed"])
    P = lib.frame(P0, case["f"])
    if (np.ptp(P, axis=0) <= 1e-9 * np.abs(P).max()).any():
        return
    n = len(P)
    ctx.state(case["op"], P, case.get("g"), case.get("w"))
    if case["op"] == "obs":
        u = s if "p" in case else float(np.ptp(P, axis=0).max()) / 4
        if "n" in case and np.ptp(P, axis=0).min() < 0.02 * u:
            u *= 0.3
        for g in GRIDS:
            kw = scaled(g, u)
            what = "QStatistic(%r)" % (kw,)
            t = check_observed(ctx, QStatistic(P, **kw), P, kw, what)
            ctx.outcome("obs", g, sorted(t.values()))
        for nm, v in (("list", P.tolist()), ("PointPattern", PointPattern(P))):
            check_observed(ctx, QStatistic(v, nx=2, ny=3), P, dict(nx=2, ny=3), "QStatistic of a %s" % nm)
        for bad in ("hex", "", None):
            try:
                QStatistic(P, shape=bad)
            except ValueError:
                pass
            else:
                ctx.fail("QStatistic(shape=%r) was accepted" % (bad,))
        q = QStatistic(P)
        ctx.check(not hasattr(q, "chi2_realizations") and not hasattr(q, "chi2_r_pvalue"), "simulation results without realizations")
        ctx.check(abs(q.window.area - np.ptp(P, axis=0).prod()) <= 1e-9 * abs(q.window.area) + 1e-12 * np.abs(P).max() ** 2
                  and np.allclose(q.window.bounds, [*P.min(0), *P.max(0)], rtol=0, atol=0), "default window %r" % (q.window.bounds,))
        ctx.trace()
        return
    g = GRIDS[case["g"]] if "g" in case else None
    if case["op"] == "sim":
        kw = scaled(g, s)
        fr = [0.07, 0.31, 0.52, 0.78, 0.95] if n == 2 else [0.03, 0.21, 0.37, 0.52, 0.74, 0.96]
        perms = list(itertools.permutations(fr, 2 * n))
        ext = np.ptp(P, axis=0)
        for R, sub in ((len(perms), perms), (1, perms[17:]), (2, perms[50:]), (7, perms[91:])):
            tp = tape.Tape([f for p in sub[:R] for f in p], seed=3)
            q = QStatistic(P, realizations=R, rng=tp.generator(), **kw)
            what = "QStatistic(%r, realizations=%d)" % (kw, R)
            check_observed(ctx, q, P, kw, what)
            sims = check_pvalue(ctx, q, R, what)
            if R == len(perms):
                allowed = {}
                for p in perms:
                    Q = P.min(0) + ext * np.array(p).reshape(n, 2)
                    v = hex_chi2(Q, kw["lh"]) if g.get("shape") else rect_chi2(Q, q.mr.count_column, q.mr.count_row)
                    allowed.setdefault(round(v, 7), p)
            seen = set(np.round(sims, 7))
            odd = [v for v in seen if min(abs(v - a) for a in allowed) > 1e-6]
            ctx.check(not odd, lambda: "%s: simulated chi2 %r of no pattern of %d points in the window (possible: %r)"
                      % (what, odd, n, sorted(allowed)))
            if R == len(perms):
                miss = [a for a in allowed if min(abs(v - a) for v in seen) > 1e-6]
                ctx.check(not miss, lambda: "%s: over all arrangements of the random answers chi2 %r never occurs (seen %r)"
                          % (what, miss, sorted(seen)))
                ctx.outcome("sim", case["g"], sorted(seen))
            ctx.step(R)
            ctx.trace()
        return
    if case["op"] == "win":
        import shapely
        kw = scaled(g, s)
        lo, hi = P.min(0), P.max(0)
        W, H = hi - lo
        R = 40
        if case["w"] == "corners":
            d = 0.01
            win = shapely.MultiPolygon([shapely.box(lo[0], lo[1], lo[0] + d * W, lo[1] + d * H),
                                        shapely.box(hi[0] - d * W, hi[1] - d * H, hi[0], hi[1])])
        elif case["w"] == "hole":       # a frame around the box
            win = shapely.Polygon([(lo[0] - W, lo[1] - H), (hi[0] + W, lo[1] - H), (hi[0] + W, hi[1] + H), (lo[0] - W, hi[1] + H)],
                                  [[(lo[0] - .8 * W, lo[1] - .8 * H), (hi[0] + .8 * W, lo[1] - .8 * H), (hi[0] + .8 * W, hi[1] + .8 * H),
                                    (lo[0] - .8 * W, hi[1] + .8 * H)]])
        else:
            win = shapely.Polygon([(lo[0] - W, lo[1]), (hi[0], lo[1] - H), (hi[0] + W, hi[1] + H)])
        # continuation answers lie in a coarse but distinct stream: fractions near the corners often enough
        r = np.random.RandomState(7)
        script = []
        for _ in range(40 * n * R):
            a = r.rand()
            script.append(float(a * 0.01 if r.rand() < .4 else (1 - a * 0.01 if r.rand() < .6 else a)))
        tp = tape.Tape(script, seed=5)
        q = QStatistic(P, realizations=R, rng=tp.generator(), window=win, **kw)
        what = "QStatistic(%r, realizations=%d, window=%s)" % (kw, R, case["w"])
        check_observed(ctx, q, P, kw, what)
        ctx.check(q.window.equals(win), what + ": window replaced")
        sims = check_pvalue(ctx, q, R, what)
        if g.get("shape") != "hexagon":
            k = q.mr.count_column * q.mr.count_row
            comp = compositions(n, k)
            odd = [v for v in sims if min(abs(v - a) for a in comp) > 1e-6]
            ctx.check(not odd, lambda: "%s: chi2 %r cannot come from %d points in %d cells" % (what, odd, n, k))
            if case["w"] == "corners" and min(q.mr.count_column, q.mr.count_row) > 1:
                two = {round((a * a + (n - a) ** 2) * k / n - n, 7) for a in range(1, n)}
                r_ = sum(min(abs(v - a) for a in two) <= 1e-6 for v in sims)
                ctx.check(r_ >= R * 0.6, lambda: "%s: only %d of %d simulated patterns have their points in the two corners" % (what, r_, R))
        ctx.outcome("win", case["w"], case["g"], sorted(set(np.round(sims, 7))))
        ctx.step(R)
        ctx.trace()
        return
    if case["op"] == "rng":
        u = s if "p" in case else float(np.ptp(P, axis=0).max()) / 4
        kw = scaled(g, u)
        kinds = {
            "int": lambda k: k, "int64": lambda k: np.int64(k), "Generator": lambda k: np.random.Generator(np.random.PCG64(k)),
            "MT Generator": lambda k: np.random.Generator(np.random.MT19937(k)), "PCG64": lambda k: np.random.PCG64(k),
            "Philox": lambda k: np.random.Philox(k), "SeedSequence": lambda k: np.random.SeedSequence(k),
            "RandomState": lambda k: np.random.RandomState(k), "list": lambda k: [k, 1], "uint32": lambda k: np.uint32(k),
        }
        R = 9
        before = lib.rng_state()
        for nm, mk in kinds.items():
            a = QStatistic(P, realizations=R, rng=mk(11), **kw)
            QStatistic(P, realizations=3, rng=mk(99), **kw)          # an unrelated use in between
            b = QStatistic(P, realizations=R, rng=mk(11), **kw)
            check_observed(ctx, a, P, kw, "rng %s" % nm)
            check_pvalue(ctx, a, R, "rng %s" % nm)
            ctx.eq(a.chi2_realizations, b.chi2_realizations, "rng %s: chi2_realizations again" % nm)
            ctx.eq(a.chi2_r_pvalue, b.chi2_r_pvalue, "rng %s: p-value again" % nm)
            ctx.check(isinstance(a.rng, np.random.Generator), "rng %s: .rng is %r" % (nm, a.rng))
            ctx.step(3)
            if n >= 30:
                c = [QStatistic(P, realizations=R, rng=mk(z), nx=5, ny=5).chi2_realizations for z in (11, 12, 13)]
                ctx.check(not (np.array_equal(c[0], c[1]) or np.array_equal(c[1], c[2])), "rng %s: different seeds give the same simulations" % nm)
                ctx.check(len(set(np.round(np.concatenate(c), 6))) > 3, "rng %s: the realizations do not differ" % nm)
                gen = mk(11)
                if isinstance(gen, (np.random.Generator, np.random.RandomState, np.random.BitGenerator)):
                    d = [QStatistic(P, realizations=R, rng=gen, nx=5, ny=5).chi2_realizations for _ in range(2)]
                    ctx.check(not np.array_equal(*d), "rng %s: two tests from one generator give the same simulations" % nm)
            ctx.outcome("rng", nm, a.chi2_realizations)
        # same seed, int or generator of that seed
        ctx.check(lib.rng_state() == before, "QStatistic with an rng changed numpy's global random state")
        scripts = iter(range(100))
        with tape.fresh(lambda: tape.Tape(seed=next(scripts)).generator()):
            a = QStatistic(P, realizations=R, **kw)
            check_pvalue(ctx, a, R, "rng None")
        ctx.trace()
        return
    # plots
    import matplotlib.pyplot as plt
    for kw in (dict(nx=2, ny=2), scaled(GRIDS[4], s), scaled(GRIDS[6], s)):
        q = QStatistic(P, **kw)
        t = check_observed(ctx, q, P, kw, "plotted %r" % (kw,))
        contrib = dict(zip(q.cell_ids, np.asarray(q.chi2_contrib)))
        for show in ("counts", "chi2", None):
            try:
                ax = q.plot(show=show, title="T") if show else q.plot()
                ctx.check(ax.get_title() == ("T" if show else "Quadrat Count"), "title %r" % ax.get_title())
                ctx.check(len(ax.texts) == len(t), "%s plot: %d labels for %d cells" % (show, len(ax.texts), len(t)))
                off = [c.get_offsets() for c in ax.collections if len(c.get_offsets()) == n]
                ctx.check(any(np.array_equal(np.sort(np.asarray(o), 0), np.sort(P, 0)) for o in off), "points are not drawn")
                for tx in ax.texts:
                    x, y = tx.get_position()
                    nc = q.mr.count_column
                    best = None
                    for c in t:
                        if kw.get("shape"):
                            ce = c11.hex_center(q.mbb, kw["lh"], c % nc, c // nc)
                        else:
                            ce = (q.mbb[0] + (c % nc + .5) * q.mr.rectangle_width, q.mbb[1] + (c // nc + .5) * q.mr.rectangle_height)
                        if abs(ce[0] - x) <= 1e-6 * s and abs(ce[1] - y) <= 1e-6 * s:
                            best = c
                    ctx.check(best is not None, "label at %r, which is no cell centre" % ((x, y),))
                    want = "%.2f" % contrib[best] if show == "chi2" else str(t[best])
                    ctx.check(tx.get_text() == want, lambda: "%s plot: cell %r is labelled %r, not %r" % (show, best, tx.get_text(), want))
            finally:
                plt.close("all")
        for bad in ("x", None):
            try:
                q.plot(show=bad)
            except ValueError:
                pass
            else:
                ctx.fail("plot(show=%r) was accepted" % (bad,))
            finally:
                plt.close("all")
        ctx.step(3)
    ctx.outcome("plot", P)
    ctx.trace()
