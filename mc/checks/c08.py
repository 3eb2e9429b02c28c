"""C08: standard deviational ellipse against the eigen-decomposition of the covariance."""
import itertools
import math
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of lattice configurations x frames x methods x correction flags x weights x "
              "input kinds, real code against exact second moments and their eigenvectors",
    level_note="Every set/multiset of 3 to 5 points on the stated lattices (collinear and isotropic ones included); "
               "larger patterns in fixed families.",
    rule="a case is a point set in a frame; an outcome is (major, minor, angle) per method and weights",
    bounds=dict(quick="3x3: sets of 3-6, multisets of 3 and 4; 4x4: sets of 3 and 4; weights: all of {0,1,2}^3 for n=3, "
                      "fixed vectors otherwise; frames: all for n=3 on 3x3, rotating otherwise; families n in {7, 40, 150}",
                thorough="plus 3x3 multisets of 5, 4x4 sets of 5, 5x5 sets of 3 and 4, weights {0,1,2}^4, all frames for n<=4"),
    assumptions=["shapely.affinity"],
)


def cases(tier, seed):
    q = tier == "quick"
    fr = list(lib.FRAMES)
    i = 0
    for p in lib.multisets(3, 3, 3):
        for f in fr:
            yield dict(p=p, f=f, w=True)
    for p in lib.multisets(3, 3, 4):
        i += 1
        for f in (fr[i % len(fr)],) if q else fr:
            yield dict(p=p, f=f, w=not q)
    for k in (5, 6):
        for p in lib.subsets(3, 3, k):
            i += 1
            yield dict(p=p, f=fr[i % len(fr)])
    for k in (3, 4):
        for p in lib.subsets(4, 4, k):
            i += 1
            if q and k == 4 and i % 2:
                continue
            yield dict(p=p, f=fr[i % len(fr)])
    if not q:
        for p in itertools.chain(lib.multisets(3, 3, 5), lib.subsets(4, 4, 5), lib.subsets(5, 5, 3), lib.subsets(5, 5, 4)):
            i += 1
            yield dict(p=p, f=fr[i % len(fr)])
    for n in (7, 40, 150) if q else (5, 7, 12, 40, 90, 150, 400, 1500):
        for kind in lib.KINDS:
            for f in fr:
                yield dict(n=n, kind=kind, f=f, seed=seed)


def moments(P, w):
    w = np.asarray(w, float)
    sw = w.sum()
    m = (w[:, None] * P).sum(0) / sw
    d = P - m
    return m, (w[:, None] * d).T @ d / sw


def judge(case, ctx):
    import geopandas as gpd
    import shapely
    from pointpats import centrography as C
    P0 = np.asarray(case["p"], float) if "p" in case else lib.structured(case["n"], case["kind"], case["seed"])
    s = lib.FRAMES[case["f"]][0]
    P = lib.frame(P0, case["f"])
    n = len(P)
    ctx.state(P)
    ext = float(np.ptp(P, axis=0).max())
    ulp = np.finfo(float).eps * float(np.abs(P).max())
    if case.get("w"):
        wsets = [None] + [w for w in itertools.product((0, 1, 2), repeat=n) if sum(w)]
    else:
        wsets = [None, (1,) * n, tuple(range(1, n + 1)), tuple(0.25 * (i % 4) for i in range(1, n + 1))]
    gs = gpd.GeoSeries.from_xy(P[:, 0], P[:, 1])
    gdf = gpd.GeoDataFrame({"v": range(n)}, geometry=gs.values, index=range(3, 3 + n)).rename_geometry("where")
    modes = [dict()] + [dict(method=m) for m in ("crimestat", "CrimeStat", "yuill", "Yuill")]
    modes += [dict(method="yuill", crimestatCorr=a, degfreedCorr=b) for a in (True, False) for b in (True, False)]
    modes += [dict(method="crimestat", crimestatCorr=False, degfreedCorr=False)]

    for iw, w in enumerate(wsets):
        wv = (1,) * n if w is None else w
        # moments in local coordinates: exact for lattices
        m, cov = moments(P0, wv) if case["f"] != "id" or "p" in case else moments(P, wv)
        L0 = np.linalg.eigvalsh(cov)
        lo, hi = max(L0[0], 0.0), max(L0[1], 0.0)
        ev = np.linalg.eigh(cov)[1][:, 1]
        ang = math.atan2(ev[1], ev[0])
        spread = hi - lo
        for mode in modes if iw < 3 else modes[:1] + modes[5:6]:
            meth = mode.get("method", "crimestat").lower()
            if meth == "crimestat":
                fac = math.sqrt(2 * n / (n - 2))
            else:
                fac = (math.sqrt(2) if mode.get("crimestatCorr", True) else 1) * \
                      (math.sqrt(n / (n - 2)) if mode.get("degfreedCorr", True) else 1)
            A, B = s * fac * math.sqrt(hi), s * fac * math.sqrt(lo)
            # minor axis of (nearly) collinear points: rounding of a difference
            atol = (3e-8 * ext + 64 * ulp) * fac
            draw = 8 * np.finfo(float).eps * (1 + np.abs(P).max()) * (1 + A)

            def check(got, nm):
                ctx.check(len(got) == 3, "ellipse(%s) returned %r" % (nm, got))
                a, b, t = map(float, got)
                ctx.check(a >= b, "ellipse(%s): major %r < minor %r" % (nm, a, b))
                ctx.close(a, A, "major axis (%s, %s, weights %s)" % (nm, mode, w), rtol=1e-7, atol=atol)
                ctx.close(b, B, "minor axis (%s, %s, weights %s)" % (nm, mode, w), rtol=1e-7, atol=atol)
                if spread * s * s > 1e-6 * ext ** 2 + 64 * ulp * ext:
                    d = (t - ang + math.pi / 2) % math.pi - math.pi / 2
                    ctx.check(abs(d) < 1e-5 + 64 * ulp * ext / (spread * s * s),
                              lambda: "angle of ellipse(%s, %s, weights %s) is %r, major axis points at %r"
                              % (nm, mode, w, t, ang))
            ins = [("array", P), ("list", P.tolist())] if iw < 2 else [("array", P)]
            if (P == np.round(P)).all() and iw < 2:
                ins.append(("int array", P.astype(int)))
            for nm, v in ins:
                check(C.ellipse(v, weights=None if w is None else np.array(w), **mode), nm)
                if w is not None and nm == "array" and not mode:
                    check(C.ellipse(v, weights=list(w)), "list weights")
                    check(C.ellipse(v, weights=np.array(w) / 64), "weights / 64")
                    check(C.ellipse(v, weights=np.array(w) * 2.0**40), "weights * 2^40")
                ctx.step()
            if iw < 3 or iw % 5 == 0:
                cen = m * s + [lib.FRAMES[case["f"]][1], lib.FRAMES[case["f"]][2]]
                for nm, g in (("GeoSeries", gs), ("GeoDataFrame", gdf)):
                    poly = C.ellipse(g, weights=None if w is None else np.array(w), **mode)
                    ctx.check(isinstance(poly, shapely.Polygon), "ellipse(%s) is a %s" % (nm, type(poly)))
                    X = np.asarray(poly.exterior.coords)[:-1] - cen
                    # extent of the drawn shape along both axes (64-gon inscribed in the ellipse)
                    if spread * s * s > 1e-6 * ext ** 2 + 64 * ulp * ext:
                        u = X @ [math.cos(ang), math.sin(ang)]
                        v = X @ [-math.sin(ang), math.cos(ang)]
                        t2 = atol + 1e-5 * A + draw
                        for z, r, lab in ((u, A, "major"), (v, B, "minor")):
                            ctx.close([z.min(), z.max()], [-r, r], "drawn ellipse (%s, %s, weights %s) along the %s axis"
                                      % (nm, mode, w, lab), rtol=1e-6, atol=t2)
                        if B > 10 * t2:
                            q = (u / A) ** 2 + (v / B) ** 2
                            ctx.check(abs(q - 1).max() < 1e-3 + 20 * t2 / B, lambda: "drawn ellipse (%s) leaves the ellipse: %r" % (nm, q))
                    else:
                        r = np.hypot(X[:, 0], X[:, 1])
                        ctx.check(np.all(r <= A * 1.001 + atol + draw) and
                                  np.all(r >= B * 0.999 - 2e-3 * A - atol - draw),
                                  lambda: "drawn round ellipse (%s) has radii %r, expected %r" % (nm, (r.min(), r.max()), (A, B)))
                    ctx.step()
        if iw < 3:
            ctx.outcome(w, hi, lo, ang)
    for bad in ("foo", ""):
        try:
            C.ellipse(P, method=bad)
        except ValueError:
            continue
        ctx.fail("method=%r was accepted" % bad)
    try:
        C.ellipse(P, weights=[1] * (n + 1))
    except ValueError:
        pass
    else:
        ctx.fail("weights of the wrong length were accepted")
    ctx.trace()
