"""C03: explode / unique / superimpose / add_marks / membership as algebra on rows."""
import itertools
import numpy as np
import pandas as pd
import lib

META = dict(
    technique="exhaustive enumeration of small marked tables x naming layouts x operations on "
              "the real PointPattern against a list model",
    level_note="All tables of up to 3 rows over a 2x2x2 value alphabet in 8 naming layouts and "
               "all operand pairs of up to 2 rows, plus larger fixed tables; longer tables only "
               "in those families.",
    rule="a case is (rows, layout) or (rows, rows, layouts); an outcome is the resulting table",
    bounds=dict(quick="1..3 rows from 8 row values x 8 layouts; operand pairs of 1..2 rows; all layout pairs",
                thorough="1..4 rows; operand pairs of 1..2 x 1..3 rows in 4 layouts"),
    assumptions=["NaN marks are outside the enumerated alphabet"],
)

# name -> (columns, names arg, coord_names arg, coord columns, order of (x, y, m[, w]) in a row)
LAYOUTS = {
    "xy": (["x", "y"], None, None, ["x", "y"], "xy"),
    "xym": (["x", "y", "mark_0"], None, None, ["x", "y"], "xym"),
    "en": (["e", "n", "mark_0", "mark_1"], None, ["e", "n"], ["e", "n"], "xymw"),
    "named": (["lon", "lat", "kind"], ["lon", "lat", "kind"], None, ["lon", "lat"], "xym"),
    "mid": (["kind", "lon", "w", "lat"], ["kind", "lon", "w", "lat"], ["lon", "lat"], ["lon", "lat"], "mxwy"),
    "rev": (["lat", "kind", "lon"], ["lat", "kind", "lon"], ["lon", "lat"], ["lon", "lat"], "ymx"),
    "str": (["x", "y", "s"], ["x", "y", "s"], ["x", "y"], ["x", "y"], "xys"),
    "near": (["x", "y", "mark_0"], None, None, ["x", "y"], "uvz"),
    "swap": (["a", "b", "kind"], ["a", "b", "kind"], ["b", "a"], ["b", "a"], "yxm"),
}
ROWS = [(x, y, m) for m in (0, 1) for x in (0, 1) for y in (0, 1)]


def expand(rows, layout):
    order = LAYOUTS[layout][4]
    out = []
    for x, y, m in rows:
        v = dict(x=x * 2.5, y=y - 0.5, m=m * 3 - 1, w=(x + m) % 2, s="ab"[m],
                 u=x * 1e-8, v=y - 0.5, z=5 + m * 1e-9)      # nearly but not quite equal
        out.append(tuple(v[c] for c in order))
    return out


def cases(tier, seed):
    for i, c in enumerate(_cases(tier, seed)):
        # deep: continue with the superimposition as operand / build the pattern from a frame with a repeated index
        c["deep"] = tier != "quick" or len(c["r"]) > 2 or i % 5 == 0
        yield c


def _cases(tier, seed):
    q = tier == "quick"
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for lay in LAYOUTS if n < 4 else ("mid", "str"):
            for rows in itertools.product(ROWS, repeat=n):
                if n == 3 and q and lay not in ("mid", "xym", "rev", "str") and rows[0] > rows[1]:
                    continue
                yield dict(op="one", l=lay, r=rows)
    pair = [r for n in (1, 2) for r in itertools.product(ROWS, repeat=n)]
    for lay in ("mid",) if q else ("mid", "str", "xy", "swap"):
        for a in pair:
            for b in pair if q else pair + list(itertools.product(ROWS[:5], repeat=3)):
                yield dict(op="two", l=lay, r=a, l2=lay, r2=b)
    for la in LAYOUTS:
        for lb in LAYOUTS:
            yield dict(op="two", l=la, r=ROWS[:3], l2=lb, r2=ROWS[2:4])
    for n in (30, 120) if q else (30, 120, 500):
        for lay in LAYOUTS:
            for k in (2, 3, 5, 7):
                rows = [((i * i) % k, (i * 3) % k, (i // 3) % k % 2) for i in range(n)]
                yield dict(op="one", l=lay, r=rows)
                yield dict(op="two", l=lay, r=rows, l2=lay, r2=rows[5:9] + [(9, 9, 1)])


def build(layout, rows, window=None, how="list"):
    from pointpats import PointPattern
    cols, names, cn, ccols, _ = LAYOUTS[layout]
    data = expand(rows, layout)
    if how == "list" and layout != "str":
        pts = [list(r) for r in data]
    else:
        pts = pd.DataFrame(data)
        if how == "index":
            pts.index = [(7 * i + 3) % 5 for i in range(len(pts))]      # unsorted, with repeated labels
    seq = (list, tuple, pd.Index, np.array)[(len(rows) + 2 * len(cols) + dict(list=0, df=1, index=2)[how] + sum(map(sum, rows))) % 4]
    return (PointPattern(pts, names=None if names is None else seq(names),
                         coord_names=None if cn is None else seq(cn), window=window), data)


def table(pp):
    return [tuple(r) for r in pp.df.values.tolist()]


def same(ctx, pp, cols, rows, ccols, what):
    got = table(pp)
    ctx.check(list(pp.df.columns) == cols, lambda: "%s: columns %r, expected %r" % (what, list(pp.df.columns), cols))
    ctx.check(got == [tuple(r) for r in rows], lambda: "%s: rows %r, expected %r" % (what, got, rows))
    ix, iy = cols.index(ccols[0]), cols.index(ccols[1])
    ctx.check(list(pp.coord_names) == ccols, lambda: "%s: coord_names %r" % (what, pp.coord_names))
    ctx.check(np.asarray(pp.points, float).reshape(-1, 2).tolist() == [[float(r[ix]), float(r[iy])] for r in rows],
              lambda: "%s: points %r" % (what, np.asarray(pp.points).tolist()))
    ctx.check(pp.n == len(rows) and len(pp) == len(rows), lambda: "%s: n=%r" % (what, pp.n))
    xs, ys = [r[ix] for r in rows], [r[iy] for r in rows]
    ctx.close(pp.mbb, [min(xs), min(ys), max(xs), max(ys)], what + ": mbb")
    ctx.outcome(got)


def uniq(rows):
    out = []
    for r in rows:
        if r not in out:
            out.append(r)
    return out


def contains(ctx, pp, cols, rows, ccols):
    ix, iy = cols.index(ccols[0]), cols.index(ccols[1])
    have = {(r[ix], r[iy]) for r in rows}
    vals = sorted({v for r in rows for v in (r[ix], r[iy])} | {-1, 7.25})[:6]
    for q in itertools.product(vals, repeat=2):
        ctx.check((q in pp) == (q in have), "membership of %r in %r" % (q, sorted(have)))
        ctx.step()


def judge(case, ctx):
    from pointpats import Window
    lay, rows = case["l"], [tuple(r) for r in case["r"]]
    cols, names, cn, ccols, _ = LAYOUTS[lay]
    if case["op"] == "one":
        # `window` twice: default box and a two-part window
        win = Window([[(-4, -4), (-4, 9), (30, 9), (30, -4), (-4, -4)],
                      [(40, 0), (40, 2), (42, 2), (42, 0), (40, 0)]])
        for w, how in ((None, "list"), (win, "index" if case["deep"] else "df")):
            pp, data = build(lay, rows, window=w, how=how)
            ctx.state(lay, data, w is None)
            same(ctx, pp, cols, data, ccols, "constructor")
            contains(ctx, pp, cols, data, ccols)
            area0, parts0 = pp.window.area, [list(map(tuple, p)) for p in pp.window.parts]
            for mark in cols:
                i = cols.index(mark)
                vals = sorted({r[i] for r in data})
                got = pp.explode(mark)
                ctx.step()
                ctx.check(len(got) == len(vals), lambda: "explode(%r) gave %d patterns for %d values"
                          % (mark, len(got), len(vals)))
                for g, v in zip(got, vals):
                    same(ctx, g, cols, [r for r in data if r[i] == v], ccols, "explode(%r)[%r]" % (mark, v))
                    g.df["extra"] = 1           # derived pattern must be independent
            u = pp.unique()
            ctx.step()
            same(ctx, u, cols, uniq(data), ccols, "unique()")
            ctx.close(u.window.area, area0, "unique().window.area")
            ctx.check([list(map(tuple, p)) for p in u.window.parts] == parts0, "unique() changed the window")
            if area0:
                ctx.close(u.lambda_window, len(uniq(data)) / area0, "unique().lambda_window")
            u.add_marks([[9] * len(u)], ["extra"])
            same(ctx, pp, cols, data, ccols, "pattern after deriving")
            # add_marks with names, then without
            m1, m2 = list(range(len(data))), [v % 2 for v in range(len(data))]
            q1, q2 = ("mark_%d" % (len(cols) + 1), "mark_%d" % (len(cols) + 2)) if case["deep"] else ("q1", "q2")
            pp.add_marks([m1, m2], [q1, q2])
            ctx.step()
            data = [r + (a, b) for r, a, b in zip(data, m1, m2)]
            same(ctx, pp, cols + [q1, q2], data, ccols, "after add_marks")
            if lay != "xy":
                k = len(pp.explode(q2))
                ctx.check(k == len(set(m2)), "explode of an added mark")
            # one that does not fit: none is added
            for marks, nm in (([m1, m2[:-1]], ["z1", "z2"]), ([m1], ["z1", "z2"]), ([m1, m2], ["z1"]), ([m1, m2 + [1], m2], None)):
                if len(data) < 3:       # a mark of one value may stand for all
                    break
                try:
                    pp.add_marks(marks, nm)
                except ValueError:
                    same(ctx, pp, cols + [q1, q2], data, ccols, "after marks that do not fit")
                else:
                    ctx.fail("marks of %r values under the names %r accepted for %d points" % ([len(v) for v in marks], nm, len(data)))
            pp.add_marks([m2])
            ctx.step()
            now = list(pp.df.columns)
            ctx.check(now[:-1] == cols + [q1, q2] and now[-1] not in now[:-1], lambda: "auto mark name: %r" % now)
            same(ctx, pp, now, [r + (b,) for r, b in zip(data, m2)], ccols, "after unnamed add_marks")
    else:
        lay2, rows2 = case["l2"], [tuple(r) for r in case["r2"]]
        a, da = build(lay, rows)
        b, db = build(lay2, rows2, how="df")
        ctx.state(lay, da, lay2, db)
        cols2, ccols2 = LAYOUTS[lay2][0], LAYOUTS[lay2][3]
        for x, y, dx, dy in ((a, b, da, db), (b, a, db, da)):
            ctx.step()
            if cols == cols2 and ccols == ccols2:
                both = uniq(dx + dy)
                z = x.superimpose(y)
                same(ctx, z, cols, both, ccols, "superimpose")
                if not case["deep"]:
                    continue
                # the result is a pattern like any other (its index has repeated labels)
                contains(ctx, z, cols, both, ccols)
                for mark in cols:
                    k = cols.index(mark)
                    vals = sorted({r[k] for r in both})
                    got = z.explode(mark)
                    ctx.check(len(got) == len(vals), lambda: "explode(%r) of a superimposition gave %d patterns for %d values" % (mark, len(got), len(vals)))
                    for g, v in zip(got, vals):
                        same(ctx, g, cols, [r for r in both if r[k] == v], ccols, "explode(%r)[%r] of a superimposition" % (mark, v))
                        ctx.step()
                same(ctx, z.unique(), cols, both, ccols, "unique() of a superimposition")
                same(ctx, z.superimpose(x), cols, both, ccols, "superimposition of a superimposition")
                same(ctx, y.superimpose(z), cols, uniq(dy + both), ccols, "superimposition on a superimposition")
                m = list(range(len(both)))
                z.add_marks([m], ["q1"])
                same(ctx, z, cols + ["q1"], [r + (v,) for r, v in zip(both, m)], ccols, "marks of a superimposition")
                ctx.step(4)
            else:
                try:
                    x.superimpose(y)
                except TypeError:
                    ctx.note("rejected")
                else:
                    ctx.fail("superimpose of %r/%r with %r/%r accepted" % (cols, ccols, cols2, ccols2))
        same(ctx, a, cols, da, ccols, "left operand afterwards")
        same(ctx, b, cols2, db, ccols2, "right operand afterwards")
    ctx.trace()
