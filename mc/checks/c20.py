"""C20: mantel, jacquez and modified_knox against their definitions."""
import itertools
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of event configurations (all multisets of 3 and 4 events on a space-time lattice) x constants, powers, k and "
              "thresholds, on the real functions, against the definitions; all reorderings of the events",
    level_note="jacquez is judged exactly where neighbour distances are distinct, and by the set of possible values over all tie-breaks otherwise; "
               "mantel is judged where neither distance is constant.",
    rule="a case is a set of configurations with all parameters; an outcome is the set of statistics",
    bounds=dict(quick="all multisets of 3 events on 3x2x3, a third of those of 4 on 2x2x3, 8 constant/power pairs, k=1..n-1; families of 10..120 events in "
                      "rotating frames; all 24 orders of 4 and 16 orders of larger sets",
                thorough="all multisets, all frames"),
    assumptions=["brute-force distances"],
)
PARS = ((1., -1., 1., -1.), (0., 1., 0., 1.), (2., 2., .5, 1.), (1., .5, 3., -2.), (.5, 3., 1., -1.), (1., -1., 0., 2.), (0.25, -.5, 10., 1.), (3., -3., 1., 3.))


def cases(tier, seed):
    q = tier == "quick"
    i = seed
    for n, ev in ((3, [(x, y, t) for x in range(3) for y in range(2) for t in range(3)]), (4, [(x, y, t) for x in range(2) for y in range(2) for t in range(3)])):
        C = list(itertools.combinations_with_replacement(ev, n))
        for lo in range(0, len(C), 10):
            i += 1
            if q and n == 4 and i % 3:
                continue
            yield dict(op="multi", ev=[list(map(list, c)) for c in C[lo:lo + 10]], r=i)
    fr = list(lib.FRAMES)
    for kind in lib.KINDS:
        for n in (10, 35, 120):
            i += 1
            for f in (fr[i % len(fr)],) if q else fr:
                yield dict(op="family", kind=kind, n=n, f=f, r=i)
    for n in (4, 5, 8, 20):
        for j in range(4 if q else 20):
            i += 1
            yield dict(op="order", n=n, r=i + j)


def mantel_ref(DS, DT, scon, spow, tcon, tpow):
    i = np.tril_indices(len(DS), -1)
    with np.errstate(all="ignore"):
        a, b = (DS[i] + scon) ** spow, (DT[i] + tcon) ** tpow
    if not (np.isfinite(a).all() and np.isfinite(b).all()):
        return None
    a, b = a - a.mean(), b - b.mean()
    sa, sb = np.sqrt((a * a).sum()), np.sqrt((b * b).sum())
    i = np.abs(a).max() if len(a) else 0
    if sa <= 1e-7 * max(np.abs(DS).max(), 1e-9) ** abs(spow) or sb <= 1e-9 or i == 0:
        return None
    return float((a * b).sum() / (sa * sb))


def jac_range(DS, DT, k, tol=1e-12):
    """(lowest, highest) possible statistic over all tie-breaks, counted event by event"""
    n = len(DS)
    lo = hi = 0
    for i in range(n):
        sure, maybe = [], []
        for D in (DS, DT):
            d = np.delete(D[i], i)
            ids = [j for j in range(n) if j != i]
            kth = np.sort(d)[k - 1]
            eps = tol * max(1.0, abs(kth)) + 1e-9 * kth
            s = {j for j, v in zip(ids, d) if v < kth - eps}
            m = {j for j, v in zip(ids, d) if abs(v - kth) <= eps}
            if len(s) + len(m) == k:
                s, m = s | m, set()
            sure.append(s)
            maybe.append((m, k - len(s)))
        best, worst = -1, 10 ** 9
        if not maybe[0][0] and not maybe[1][0]:
            best = worst = len(sure[0] & sure[1])
        elif len(maybe[0][0]) <= 6 and len(maybe[1][0]) <= 6:
            for c0 in itertools.combinations(sorted(maybe[0][0]), maybe[0][1]) if maybe[0][0] else [()]:
                for c1 in itertools.combinations(sorted(maybe[1][0]), maybe[1][1]) if maybe[1][0] else [()]:
                    v = len((sure[0] | set(c0)) & (sure[1] | set(c1)))
                    best, worst = max(best, v), min(worst, v)
        else:
            worst, best = len(sure[0] & sure[1]), min(k, len((sure[0] | maybe[0][0]) & (sure[1] | maybe[1][0])))
        lo += worst
        hi += best
    return lo, hi


def verify(ctx, S, T, r, what, pars=PARS, ks=None, ths=None):
    from pointpats import mantel, jacquez, modified_knox
    n = len(S)
    DS, DT = lib.dist_matrix(S), np.abs(T[:, None] - T[None, :])
    t2 = T.reshape(-1, 1)
    out = []
    for p in pars:
        w = mantel_ref(DS, DT, *p)
        if w is None:
            continue
        g = mantel(S, t2, 0, *p)
        ctx.check(np.ndim(g) == 0, "mantel without permutations returns %r" % (g,))
        ctx.check(abs(g - w) <= 1e-7, lambda: "%s: mantel%r=%r, correlation is %r" % (what, p, g, w))
        if p == PARS[0]:
            ctx.check(abs(mantel(S, t2, permutations=0) - w) <= 1e-7, "mantel with default constants")
        out.append(round(w, 6))
        ctx.step()
    for k in ks or range(1, n):
        lo, hi = jac_range(DS, DT, k)
        g = jacquez(S, t2, k, 0)
        ctx.check(lo <= g <= hi, lambda: "%s: jacquez(%d)=%r, shared neighbours are %r to %r" % (what, k, g, lo, hi))
        out.append((k, lo, hi))
        ctx.step()
    for d, u in ths:
        off = ~np.eye(n, dtype=bool)
        A, B = (DS <= d) & off, (DT <= u) & off
        w = (A & B).sum() / 2 - (A.sum(1) * B.sum(1)).sum() / (2 * (n - 1))
        g = modified_knox(S, t2, d, u, permutations=0)
        ctx.check(np.ndim(g) == 0, "modified_knox without permutations returns %r" % (g,))
        ctx.check(abs(g - w) <= 1e-9 * max(1, n * n), lambda: "%s: modified_knox(%r, %r)=%r, definition %r" % (what, d, u, g, w))
        out.append(round(w, 6))
        ctx.step()
    ctx.outcome(n, out)
    return out


def judge(case, ctx):
    from pointpats import mantel, jacquez, modified_knox
    op, r = case["op"], case["r"]
    if op == "multi":
        for q, ev in enumerate(case["ev"]):
            ev = np.array(ev, float)
            ctx.state(ev)
            f = ("id", "neg", "big", "proj")[(r + q) % 4]
            s = lib.FRAMES[f][0]
            S, T = lib.frame(ev[:, :2], f), ev[:, 2] * 3 - 2 + (0, 738000, 0, 1.7e9)[(r + q) % 7 % 4]
            verify(ctx, S, T, r, "events %r in frame %s" % (ev.tolist(), f), pars=[PARS[(r + q + j) % 8] for j in (0, 3, 5)] + [PARS[0]],
                   ths=[(s * a, 3 * b) for a, b in ((0, 0), (1, 1), (1.2, .5), (0, 2))])
    elif op == "family":
        n = case["n"]
        S = lib.frame(lib.structured(n, case["kind"], r), case["f"])
        T = [lib.generic(n, r + 5)[:, 0] * 300, np.floor(np.arange(n) * 7.3 % (n / 2.0))][r % 2]
        ctx.state(S, T)
        DT = np.abs(T[:, None] - T[None, :])
        verify(ctx, S, T, r, "%s of %d in frame %s" % (case["kind"], n, case["f"]), ks=(1, 2, 3, 5, n - 1),
               ths=[(lib.gap(lib.dist_matrix(S), a), lib.gap(DT, b)) for a, b in ((.05, .1), (.4, .2), (1.1, .3), (.2, 1.1), (-1, .5))])
    else:
        # every order of the events gives the same statistics
        n = case["n"]
        S, T = lib.generic(n, r) * [30, 20], lib.generic(n, r + 31)[:, 1] * 100
        d, u = lib.gap(lib.dist_matrix(S), .3), lib.gap(np.abs(T[:, None] - T[None, :]), .4)
        if n == 4:
            orders = [list(o) for o in itertools.permutations(range(4))]
        else:
            orders = [[(a * j + b) % n for j in range(n)] for a in (1, n - 1) for b in range(min(n, 8))]
        ctx.state(S, T)
        ref = None
        for o in orders:
            v = [mantel(S[o], T[o].reshape(-1, 1), 0, *PARS[r % 8])] + [jacquez(S[o], T[o].reshape(-1, 1), k, 0) for k in (1, 2, n - 2)] + \
                [modified_knox(S[o], T[o].reshape(-1, 1), d, u, 0)]
            if ref is None:
                ref = v
            ctx.check(np.allclose(v, ref, rtol=1e-9, atol=1e-9), lambda: "S=%r T=%r in order %r: %r, before %r" % (S.tolist(), T.tolist(), o, v, ref))
            ctx.step()
        verify(ctx, S, T, r, "halton %d" % n, ths=[(d, u)])
    ctx.trace()
