"""C18: permutation inference of the space-time tests, over every permutation the generator can give."""
import collections
import itertools
import math
import numpy as np
import lib
import tape

META = dict(
    technique="exhaustive enumeration of the permutations the generator can give (numpy's global generator answered from all scripts) x event "
              "configurations on the real tests, against the same statistics of all relabeled data sets; P-fold products of permutations; "
              "configurations whose statistic no relabeling changes for large n and P",
    level_note="All n! permutations for n = 3, 4 (5 on some configurations) and all pairs of permutations for P = 2; larger n only where the simulated "
               "values do not depend on the permutation, or for consistency between simulations and p-values.",
    rule="a case is a set of event configurations with all scripts; an outcome is the distribution of simulated values",
    bounds=dict(quick="n=3: all 36 pairs of permutations; n=4: 24 scripts on a seventh of the 1365 multisets; n=5: 120 scripts on 12 configurations; invariant "
                      "configurations up to n=300, P=999; two places and two times up to n=300, two places and one odd time up to n=540",
                thorough="all multisets for n=4, 120 configurations for n=5, joint distributions for P=2 with n=4"),
    assumptions=["frequencies are compared only when the calls consume exactly the scripted answers of a Fisher-Yates shuffle"],
)


def cases(tier, seed):
    q = tier == "quick"
    ev = [(x, y, t) for x in (0, 1) for y in (0, 1) for t in (0, 1, 2)]
    C = list(itertools.combinations_with_replacement(ev, 4))
    for i in range(0, len(C), 3):
        if not q or (i // 3 + seed) % 7 == 0:
            yield dict(op="knox", n=4, ev=[list(map(list, c)) for c in C[i:i + 3]], r=i + seed)
    C = list(itertools.combinations_with_replacement(ev, 3))
    for i in range(0, len(C), 4):
        if not q or (i // 4 + seed) % 3 == 0:
            yield dict(op="pair", n=3, ev=[list(map(list, c)) for c in C[i:i + 4]], r=i + seed)
    for i in range(12 if q else 120):
        yield dict(op="knox", n=5, ev=[[[(i * 7 + 3 * j) % 3, (i + j * j) % 2, (i * i + 5 * j) % 4] for j in range(5)]], r=i)
    if not q:
        for i in range(40):
            yield dict(op="pair", n=4, ev=[[[(i * 7 + 3 * j) % 3, (i + j * j) % 2, (i * i + 5 * j) % 4] for j in range(4)]], r=i)
    for i in range(6 if q else 40):
        for n in (4, 5) if i < 4 or not q else (4,):
            yield dict(op="jacquez", n=n, r=i + seed)
            yield dict(op="mantel", n=n, r=i + seed)
    for i, (n, P) in enumerate(itertools.product((2, 3, 8, 25, 40), (1, 2, 9, 99))):
        yield dict(op="invariant", n=n, P=P, r=i)
        yield dict(op="consistent", n=n + 3, P=P, r=i + seed)
    for i, (n, P) in enumerate(((150, 3), (300, 1), (8, 999), (4, 600))):
        yield dict(op="invariant", n=n, P=P, r=i + seed)
    for i, (n, P) in enumerate(((12, 19), (60, 9), (130, 5), (300, 3), (10, 599))):
        yield dict(op="blocks", n=n, P=P, r=i + seed)
    for i, n in enumerate((9, 24, 60, 130, 300, 420, 540)):
        yield dict(op="oddone", n=n, P=49, r=i + seed)
    for i in range(10 if q else 60):
        yield dict(op="hyper", n=4 + i % 3, r=i + seed)


def scripts(n, P=1):
    one = list(itertools.product(*[range(k) for k in range(n, 1, -1)]))
    return [sum(c, ()) for c in itertools.product(one, repeat=P)]


def both(S, T, d, u):
    n = len(S)
    off = ~np.eye(n, dtype=bool)
    return (lib.dist_matrix(S) <= d) & off, (np.abs(T[:, None] - T[None, :]) <= u) & off


def dist(values):
    return dict(collections.Counter(values))


def same_dist(ctx, got, want, exact, what):
    """got, want: Counters; the same values, in the same proportions when exact"""
    ctx.check(set(got) == set(want), lambda: "%s: values %r over all answers of the generator, the relabelings give %r" % (what, sorted(got), sorted(want)))
    if exact:
        a, b = sum(got.values()), sum(want.values())
        ctx.check(all(got[k] * b == want[k] * a for k in want), lambda: "%s: frequencies %r over all answers, over the relabelings %r" % (what, got, want))


def pcheck(ctx, p, sims, obs, P, what):
    w = (1 + sum(s >= obs for s in sims)) / (P + 1)
    ctx.check(abs(p - w) < 1e-12, lambda: "%s: p=%r, simulated %r and observed %r give %r" % (what, p, list(sims), obs, w))


def judge(case, ctx):
    from pointpats import Knox, KnoxLocal, knox, mantel, modified_knox, jacquez
    op, n = case["op"], case["n"]
    if op in ("knox", "pair"):
        for q, ev in enumerate(case["ev"]):
            ev = np.array(ev, float)
            r = case["r"] + q
            S, T = ev[:, :2], ev[:, 2] + (0, 0, 738000, 0, 0, 1.7e9)[r % 6]
            d, u = ((1.0, 1.0), (1.0, 0.0), (0.0, 1.0), (0.5, 0.5), (1.2, 1.5))[r % 5]
            what = "events %r, delta=%r, tau=%r" % (ev.tolist(), d, u)
            ctx.state(ev, d, u, op)
            t2 = T.reshape(-1, 1)
            P = 1 if op == "knox" else 2
            A, B = both(S, T, d, u)
            nst, nsti = (A & B).sum() / 2, (A & B).sum(1)
            perms = [list(p) for p in itertools.permutations(range(n))]
            glob, loc = collections.Counter(), [collections.Counter() for _ in range(n)]
            for p in perms:
                M = A & B[np.ix_(p, p)]
                glob[float(M.sum() / 2)] += 1
                for i in range(n):
                    if p[i] == i:
                        loc[i][float(M[i].sum())] += 1
            mk = {p: 0 for p in ()}
            exact = True
            G, L, K0, KN, MK = collections.Counter(), [collections.Counter() for _ in range(n)], [], collections.Counter(), collections.Counter()
            heavy = n < 5 or r % 3 == 0
            for sc in scripts(n, P):
                with tape.legacy(list(sc)) as t:
                    k = Knox(S, t2, d, u, permutations=P, keep=True)
                exact &= t.extra == 0 and t.pos == len(sc)
                ctx.eq(np.shape(k.sim), (P,), what + ": shape of Knox.sim")
                ctx.check(k.nst == nst, what + ": nst changes with permutations")
                pcheck(ctx, k.p_sim, k.sim, nst, P, what + ": Knox.p_sim")
                G[tuple(float(v) for v in k.sim)] += 1
                with tape.legacy(list(sc)):
                    k2 = Knox(S, t2, d, u, permutations=P)
                K0.append(k2.p_sim)
                ctx.check(not hasattr(k2, "sim"), "sim without keep")
                ctx.step()
                with tape.legacy(list(sc)):
                    z = knox(S, t2, d, u, permutations=P)
                ctx.eq(z["stat"], nst, what + ": knox stat")
                KN[round(float(np.ravel(z["pvalue"])[0]) * (P + 1), 9)] += 1
                with tape.legacy(list(sc)):
                    z = modified_knox(S, t2, d, u, permutations=P)
                MK[round(float(z["pvalue"]) * (P + 1), 9)] += 1
                if heavy:
                    # the global and the local simulations use one permutation each
                    with tape.legacy(list(scripts(n)[r % math.factorial(n)]) * P + list(sc)) as t:
                        k3 = KnoxLocal(S, t2, d, u, permutations=P, keep=True)
                    lex = t.extra == 0 and t.pos == len(t.script)
                    ctx.eq(np.shape(k3.sims), (n, P), what + ": shape of KnoxLocal.sims")
                    ctx.eq(np.shape(k3.sim), (P,), what + ": shape of KnoxLocal.sim")
                    pcheck(ctx, k3.p_sim, k3.sim, nst, P, what + ": KnoxLocal.p_sim")
                    ctx.eq(k3.nsti, nsti, what + ": nsti")
                    for i in range(n):
                        pcheck(ctx, k3.p_sims[i], k3.sims[i], nsti[i], P, what + ": KnoxLocal.p_sims[%d]" % i)
                        L[i][tuple(float(v) for v in k3.sims[i])] += 1
                    ctx.check(all(v in glob for v in k3.sim), lambda: what + ": KnoxLocal.sim %r, possible %r" % (k3.sim, glob))
                    if r % 4 == 0:
                        with tape.legacy(t.script):
                            k4 = KnoxLocal(S, t2, d, u, permutations=P)
                        ctx.eq(k4.p_sims, k3.p_sims, what + ": p_sims with and without keep")
                        ctx.check(k4.p_sim == k3.p_sim and not hasattr(k4, "sims"), what + ": p_sim with and without keep")
            prod = power(glob, P)
            same_dist(ctx, G, prod, exact, what + ": Knox.sim")
            same_dist(ctx, dist(K0), dist_p(prod, nst, P), exact, what + ": Knox.p_sim without keep")
            if heavy:
                for i in range(n):
                    same_dist(ctx, L[i], power(loc[i], P), exact and lex, what + ": KnoxLocal.sims[%d]" % i)
            # knox: the smaller tail; modified_knox: the expectation does not change under relabeling of both margins, so compare its own statistic
            w = collections.Counter()
            for v, c in prod.items():
                g = sum(x >= nst for x in v)
                w[float(min(g, P - g) + 1)] += c
            same_dist(ctx, KN, w, exact, what + ": pvalue*(P+1) of knox")
            w = collections.Counter()
            a, b = A.sum(1), B.sum(1)
            m0 = nst - (a * b).sum() / (2 * (n - 1))
            v1 = collections.Counter()
            for p in perms:
                M = A & B[np.ix_(p, p)]
                v1[bool(modified(A, B, p, r) >= m0 - 1e-9)] += 1
            for v, c in power(v1, P).items():
                w[float(1 + sum(v))] += c
            same_dist(ctx, MK, w, exact, what + ": pvalue*(P+1) of modified_knox")
            ctx.outcome(n, P, sorted(glob.items()), [sorted(x.items()) for x in loc])
    elif op in ("jacquez", "mantel"):
        r = case["r"]
        S = lib.halton(n, 3 * (r % 40)) * [10, 7]
        T = np.array([(0, 1, 5.3, 2.6, 11.3, 7.2)[(j * (1 + r % 2) + r) % 6] for j in range(n)]) if n < 5 or r % 2 == 0 else np.arange(n) ** 1.7
        if len(set(T.tolist())) < n:
            T = np.arange(n) ** 1.7
        if op == "mantel" and r % 3 == 2:
            T = T.copy()
            T[1] = T[-1]            # simultaneous events
        t2 = T.reshape(-1, 1)
        perms = [list(p) for p in itertools.permutations(range(n))]
        ctx.state(op, S, T)
        for par in ((1, 2, 3) if op == "jacquez" else ((1., -1., 1., -1.), (0., 1., 0., 1.), (.5, 2., 3., -1.))):
            stat = (lambda TT: jac(S, TT, par)) if op == "jacquez" else (lambda TT: man(S, TT, *par))
            obs = stat(T)
            V = [stat(T[p]) for p in perms]
            lo, hi = sum(v > obs + 1e-9 or bool((T[p] == T).all()) for p, v in zip(perms, V)), sum(v >= obs - 1e-9 for v in V)
            for P in (1, 2) if n < 5 and par in (1, (1., -1., 1., -1.)) else (1,):
                c, exact = collections.Counter(), True
                for sc in scripts(n, P):
                    with tape.legacy(list(sc)) as t:
                        z = jacquez(S, t2, par, P) if op == "jacquez" else mantel(S, t2, P, *par)
                    exact &= t.extra == 0 and t.pos == len(sc)
                    ctx.close(z["stat"], obs, "%s stat with permutations" % op, rtol=1e-9, atol=1e-9)
                    c[round(float(z["pvalue"]) * (P + 1) - 1, 9)] += 1
                    ctx.step()
                N = len(perms)
                ctx.check(set(c) <= set(range(P + 1)), lambda: "%s: p-values*(P+1)-1 are %r" % (op, c))
                if exact:
                    # mean number of relabelings at least as large, with ties at rounding level left open
                    tot = sum(k * v for k, v in c.items()) / (P * N ** (P - 1))
                    ctx.check(lo - 1e-6 <= tot <= hi + 1e-6, lambda: "%s(%r), S=%r T=%r: %r of %d relabelings counted as at least the observed %r, should be %d to %d"
                              % (op, par, S.tolist(), T.tolist(), tot, N, obs, lo, hi))
                    if P == 2 and lo == hi:
                        ctx.check(c[1.0] == 2 * lo * (N - lo) and c[2.0] == lo * lo, lambda: "%s: the two permutations are not independent: %r" % (op, c))
                else:
                    ctx.check(lo == N or c[0.0] or hi == N, lambda: "%s: no relabeling below the observed" % op)
                ctx.outcome(op, n, par, sorted(c.items()))
    elif op == "invariant":
        P, r = case["P"], case["r"]
        S, T = lib.structured(n, lib.KINDS[r % 8], r), np.floor(np.arange(n) * 7.3 % (5 if n < 100 else n / 3))
        t2 = T.reshape(-1, 1)
        big = 1e4
        for d, u in ((big, 1.0), (1.5, big), (big, big), (big, 0.0), (1e-12, 1.0)) if n < 100 else ((lib.gap(lib.dist_matrix(S), .01), big), (big, 0.0)):
            A, B = both(S, T, d, u)
            if d < 1e-6 and A.any():
                continue
            what = "%s of %d, delta=%r, tau=%r, %d permutations" % (lib.KINDS[r % 8], n, d, u, P)
            ctx.state(n, P, r, d, u)
            nst, nsti = (A & B).sum() / 2, (A & B).sum(1)
            for seed in (0, 5):
                with tape.seeded_legacy(seed):
                    k = KnoxLocal(S, t2, d, u, permutations=P, keep=True)
                    g = Knox(S, t2, d, u, permutations=P, keep=True)
                    z = knox(S, t2, d, u, permutations=P)
                    m = modified_knox(S, t2, d, u, permutations=P)
                for o in (k, g):
                    ctx.eq(o.sim, [nst] * P, what + ": sim (no relabeling changes the count)")
                    ctx.check(o.p_sim == 1.0, lambda: "%s: p_sim=%r" % (what, o.p_sim))
                ctx.eq(k.sims, np.tile(nsti, (P, 1)).T, what + ": sims (no relabeling changes the counts)")
                ctx.close(k.p_sims, np.ones(n), what + ": p_sims")
                ctx.close(z["pvalue"], [1 / (P + 1)], what + ": knox pvalue")
                ctx.check(abs(m["pvalue"] - 1) < 1e-12 or not (d > 1e3 or u > 1e3), lambda: "%s: modified_knox pvalue %r" % (what, m["pvalue"]))
                ctx.step(4)
            ctx.outcome(n, P, nsti)
        if n in (3, 8, 25):
            S, T = lib.halton(n, r), lib.halton(n, r + 3)[:, :1]
            for seed in (0, 5):
                with tape.seeded_legacy(seed):
                    z = jacquez(S, T, n - 1, permutations=min(P, 20))
                ctx.check(z == {"stat": n * (n - 1), "pvalue": 1.0}, lambda: "jacquez with k=n-1: %r" % z)
    elif op == "blocks":
        # two places, two times: a simulated count says how many events of the first place get the first time
        P, r = case["P"], case["r"]
        i = np.arange(n)
        for m, w in ((n // 2, n // 2), (n // 3, n // 2), (n // 4, n // 5)):
            o = (i * 7 + r) % n if n % 7 else (i * 11 + r) % n
            place, late = o < m, o < w if m == w else (i * 13 + r) % n < w if n % 13 else (i * 17 + r) % n < w
            S, T = np.where(place, 0., 5.)[:, None] * [1, 1], np.where(late, 738000., 738003.)
            what = "%d events at two places (%d at the first) and two times (%d at the first), %d permutations" % (n, m, w, P)
            ctx.state(n, P, m, w, r)
            c2 = lambda k: k * (k - 1) // 2  # noqa: E731
            a0 = int((place & late).sum())
            val = {a: c2(a) + c2(m - a) + c2(w - a) + c2(n - m - w + a) for a in range(max(0, m + w - n), min(m, w) + 1)}
            with tape.seeded_legacy(r):
                k = KnoxLocal(S, T.reshape(-1, 1), 1.0, 1.0, permutations=P, keep=True) if n < 100 or m == n // 4 else None
                g = Knox(S, T.reshape(-1, 1), 1.0, 1.0, permutations=P, keep=True)
                z = knox(S, T.reshape(-1, 1), 1.0, 1.0, permutations=P)
                mk = modified_knox(S, T.reshape(-1, 1), 1.0, 1.0, permutations=P)
            for x in (k, g) if k else (g,):
                if P > 200 and len(val) > 3:
                    v = np.asarray(x.sim)
                    ctx.check(all(len(set(v[j:j + 90].tolist())) > 1 for j in range(0, P - 90, 30)), lambda: "%s: 90 simulated counts in a row are equal" % what)
                ctx.check(x.nst == val[a0], lambda: "%s: nst=%r, is %r" % (what, x.nst, val[a0]))
                ctx.check(set(np.asarray(x.sim).tolist()) <= set(val.values()), lambda: "%s: simulated counts %r are not those of any relabeling" % (what, np.asarray(x.sim).tolist()[:9]))
                pcheck(ctx, x.p_sim, x.sim, x.nst, P, what + ": p_sim")
                if n >= 60 and P > 4 and m * w > 300:
                    ctx.check(len(set(np.asarray(x.sim).tolist())) > 1, lambda: "%s: all simulated counts are %r" % (what, x.sim[0]))
            for nm, p in (("knox", float(np.ravel(z["pvalue"])[0])), ("modified_knox", float(mk["pvalue"]))):
                cnt = p * (P + 1)
                ctx.check(abs(cnt - round(cnt)) < 1e-9 and 1 <= round(cnt) <= P + 1, lambda: "%s: %s p-value %r" % (what, nm, p))
            if val[a0] == max(val.values()) and n >= 60 and m == w:
                ctx.check(g.p_sim == 1 / (P + 1), lambda: "%s: p_sim=%r for the strongest possible interaction" % (what, g.p_sim))
            ctx.step(4)
            ctx.outcome(n, P, sorted(set(np.asarray(g.sim).tolist())))
            if k is None:
                continue
            # an event keeps its own time: the others at its place that get the same time
            ns, nt = np.where(place, m, n - m) - 1, np.where(late, w, n - w) - 1
            lo, hi = np.maximum(0, ns + nt - (n - 1)), np.minimum(ns, nt)
            sims = np.asarray(k.sims)
            if P > 200:
                ctx.check(all((sims[:, j:j + 90] != sims[:, j:j + 1]).any() for j in range(0, P - 90, 30)), lambda: "%s: 90 local simulations in a row are equal" % what)
            ctx.check(bool(((sims >= lo[:, None]) & (sims <= hi[:, None]) & (sims == np.floor(sims))).all()), lambda: what + ": local simulated counts beyond the margins")
            for j in range(0, n, max(1, n // 30)):
                pcheck(ctx, k.p_sims[j], sims[j], k.nsti[j], P, what + ": p_sims[%d]" % j)
            # hypergeometric mean and variance of the local counts, over all events and permutations
            sd = np.sqrt(ns * nt * (n - 1. - ns) * (n - 1. - nt) / ((n - 1.) ** 2 * max(n - 2, 1)))
            dev = np.abs(sims.mean(1) - ns * nt / (n - 1.)) * math.sqrt(P)
            ctx.check(bool((dev <= 6.5 * sd + 2 / math.sqrt(P)).all()), lambda: "%s: local simulated counts have mean %r, relabelings %r" % (what, sims.mean(1)[:9], (ns * nt / (n - 1.))[:9]))
    elif op == "oddone":
        # two places and one event with another time: two possible counts, about equally likely
        P, r = case["P"], case["r"]
        m = n // 2 + 1
        c2 = lambda k: k * (k - 1) // 2  # noqa: E731
        lo, hi = c2(m - 1) + c2(n - m), c2(m) + c2(n - m - 1)
        o = (np.arange(n) * 11 + r) % n if n % 11 else (np.arange(n) * 13 + r) % n
        S = np.where(o < m, 0., 5.)[:, None] * [1, 1] + [4e5, 4e6]
        for odd in (0, n - 1):                  # at the larger place, at the smaller
            T = np.where(o == odd, 738009., 738000.)
            what = "%d events at two places (%d at the first), one of the %s place at another time, %d permutations" % (n, m, "first" if odd == 0 else "second", P)
            ctx.state(n, P, odd, r)
            want = lo if odd == 0 else hi
            with tape.seeded_legacy(r):
                g = Knox(S, T.reshape(-1, 1), 1.0, 1.0, permutations=P, keep=True)
                z = knox(S, T.reshape(-1, 1), 1.0, 1.0, permutations=P)
                mk = modified_knox(S, T.reshape(-1, 1), 1.0, 1.0, permutations=P)
            ctx.check(g.nst == want and np.ravel(z["stat"])[0] == want, lambda: "%s: nst=%r, knox %r, is %r" % (what, g.nst, z["stat"], want))
            sim = np.asarray(g.sim)
            ctx.check(set(sim.tolist()) == {lo, hi}, lambda: "%s: simulated counts %r, relabelings give %r and %r" % (what, sorted(set(sim.tolist())), lo, hi))
            pcheck(ctx, g.p_sim, sim, g.nst, P, what + ": p_sim")
            p = float(np.ravel(z["pvalue"])[0])
            if odd:
                ctx.check(1.5 / (P + 1) < p < 1, lambda: "%s: knox p-value %r" % (what, p))
            ctx.check(0 < mk["pvalue"] <= 1, lambda: "%s: modified_knox p-value %r" % (what, mk["pvalue"]))
            ctx.step(3)
            ctx.outcome(n, want)
    elif op == "consistent":
        P, r = case["P"], case["r"]
        S, T = lib.structured(n, ("uniform", "cluster", "dups")[r % 3], r), np.floor(np.arange(n) * 7.3 % 6)
        for d, u in ((1.0, 1.0), (2.5, 0.0), (4.0, 2.0), (0.3, 3.0)):
            A, B = both(S, T, d, u)
            nst, nsti, ns, nt = (A & B).sum() / 2, (A & B).sum(1), A.sum(1), B.sum(1)
            with tape.seeded_legacy(r):
                k = KnoxLocal(S, T.reshape(-1, 1), d, u, permutations=P, keep=True)
                g = Knox(S, T.reshape(-1, 1), d, u, permutations=P, keep=True)
                z = knox(S, T.reshape(-1, 1), d, u, permutations=P)
                m = modified_knox(S, T.reshape(-1, 1), d, u, permutations=P)
                ma = mantel(S + np.arange(n)[:, None] * 1e-3, T.reshape(-1, 1), permutations=P)
            ctx.state(n, P, r, d, u)
            what = "n=%d P=%d delta=%r tau=%r" % (n, P, d, u)
            for o in (k, g):
                ctx.check(o.sim.shape == (P,) and bool((o.sim <= min(ns.sum(), nt.sum()) / 2).all()) and bool((o.sim == np.floor(o.sim)).all() and (o.sim >= 0).all()),
                          lambda: "%s: sim=%r" % (what, o.sim))
                pcheck(ctx, o.p_sim, o.sim, nst, P, what + ": p_sim")
            ctx.check(k.sims.shape == (n, P), "shape of sims")
            ctx.check(bool((k.sims <= np.minimum(ns, nt)[:, None]).all() and (k.sims >= np.maximum(0, ns + nt - (n - 1))[:, None]).all()),
                      lambda: "%s: local simulated counts beyond the margins" % what)
            for i in range(n):
                pcheck(ctx, k.p_sims[i], k.sims[i], nsti[i], P, what + ": p_sims[%d]" % i)
            for nm, p in (("knox", float(np.ravel(z["pvalue"])[0])), ("modified_knox", m["pvalue"]), ("mantel", ma["pvalue"])):
                c = p * (P + 1)
                ctx.check(abs(c - round(c)) < 1e-9 and 1 <= round(c) <= (P + 1 if nm != "knox" else P // 2 + 1), lambda: "%s: p-value %r with %d permutations" % (nm, p, P))
            if P == 99 and 0 < nst < min(ns.sum(), nt.sum()) / 2 and n > 10:
                ctx.check(len(set(k.sims.ravel().tolist())) > 1, "99 permutations give the same local counts everywhere")
            ctx.step(5)
            ctx.outcome(k.sim, k.p_sims)
    else:
        r = case["r"]
        S = lib.structured(n, ("uniform", "dups", "grid")[r % 3], r)
        T = np.floor(np.arange(n) * 2.7 % 4)
        for d, u in itertools.product((0.5, 1.1, 2.3, 20.), (0., 1., 2.)):
            A, B = both(S, T, d, u)
            nsti = (A & B).sum(1)
            ge, N = np.zeros(n), 0
            for p in itertools.permutations(range(n)):
                ge += (A & B[np.ix_(p, p)]).sum(1) >= nsti
                N += 1
            k = KnoxLocal(S, T.reshape(-1, 1), d, u, permutations=0)
            ctx.close(k.p_hypergeom, ge / N, "S=%r T=%r delta=%r tau=%r: p_hypergeom against all relabelings" % (S.tolist(), T.tolist(), d, u), rtol=1e-9, atol=1e-9)
            st = lib.rng_state()
            KnoxLocal(S, T.reshape(-1, 1), d, u, permutations=0)
            Knox(S, T.reshape(-1, 1), d, u, permutations=0)
            ctx.check(st == lib.rng_state(), "Knox without permutations uses the generator")
            ctx.state(S, T, d, u)
            ctx.outcome(ge)
            ctx.step()
        # larger sets: the mean of the hypergeometric tails over the time carried by the event
        n = 20 + r
        S, T = lib.structured(n, "uniform", r), np.floor(np.arange(n) * 7.3 % 6)
        for d, u in ((1.5, 1.0), (4.0, 0.0), (0.7, 2.0)):
            A, B = both(S, T, d, u)
            k = KnoxLocal(S, T.reshape(-1, 1), d, u, permutations=0)
            ns, nt, x = A.sum(1), B.sum(1), (A & B).sum(1)
            w = [np.mean([tail(int(x[i]), n - 1, int(nt[j]), int(ns[i])) for j in range(n)]) for i in range(n)]
            ctx.close(k.p_hypergeom, w, "n=%d delta=%r tau=%r: p_hypergeom" % (n, d, u), rtol=1e-8, atol=1e-9)
    ctx.trace()


def tail(x, N, K, m):
    """P(at least x of m drawn without replacement from N are among K marked ones)"""
    return sum(math.comb(K, j) * math.comb(N - K, m - j) for j in range(x, min(K, m) + 1) if m - j <= N - K) / math.comb(N, m)


def modified(A, B, p, r):
    M = A & B[np.ix_(p, p)]
    return M.sum() / 2 - (A.sum(1) * B.sum(1)[list(p)]).sum() / (2 * (len(A) - 1))


def power(c, P):
    out = collections.Counter()
    for combo in itertools.product(c.items(), repeat=P):
        k = 1
        for _, m in combo:
            k *= m
        out[tuple(v for v, _ in combo)] += k
    return out


def dist_p(prod, obs, P):
    out = collections.Counter()
    for v, c in prod.items():
        out[(1 + sum(x >= obs for x in v)) / (P + 1)] += c
    return out


def jac(S, T, k):
    def nn(D):
        return [set(np.argsort(D[i] + (np.arange(len(D)) == i) * 1e18)[:k].tolist()) for i in range(len(D))]
    a, b = nn(lib.dist_matrix(S)), nn(np.abs(T[:, None] - T[None, :]))
    return sum(len(x & y) for x, y in zip(a, b))


def man(S, T, scon, spow, tcon, tpow):
    i = np.tril_indices(len(S), -1)
    a, b = (lib.dist_matrix(S)[i] + scon) ** spow, (np.abs(T[:, None] - T[None, :])[i] + tcon) ** tpow
    a, b = a - a.mean(), b - b.mean()
    return float((a * b).sum() / math.sqrt((a * a).sum() * (b * b).sum()))
