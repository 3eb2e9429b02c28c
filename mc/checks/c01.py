"""C01: every operation history of a PointPattern against a reference model.

A case is one operation sequence on one starting pattern.  Each operation's
own result is compared with the model, and after the last one every live
pattern (the original, derived ones, the other operand) is probed completely
and the inputs handed over are compared with pristine copies.
"""
import contextlib
import io
import itertools
import re
import numpy as np
import pandas as pd
import lib

META = dict(
    technique="exhaustive operation-sequence exploration of the real PointPattern "
              "against a reference model",
    level_note="All operation sequences up to the stated depth over the stated alphabet on "
               "several starting patterns; larger depths, other windows and other point sets "
               "are not covered.",
    rule="a case is a (starting pattern, operation sequence) pair; an outcome is the full "
         "probe of the final patterns",
    bounds=dict(quick="all sequences to depth 2 over 28 operations on 8 patterns; depth 3 over 18 operations on "
                      "'mark' with at least one and on 'named' with at least two state-changing "
                      "operations; depth 4 over the 8 core operations on 'named'",
                thorough="all of depth 3 on 8 patterns, depth 4 over 14 operations on 'mark' and over 8 "
                         "on 3 patterns, depth 5 over 8 operations on 'named'"),
    assumptions=["pandas, numpy, scipy and libpysal geometry are trusted",
                 "hull summaries are only compared for patterns that are not collinear"],
)

# ------------------------------------------------------------------ windows
W = {
    "A": ([[(-5, -5), (-5, 15), (15, 15), (15, -5), (-5, -5)]], None),
    "H": ([[(-2, -2), (-2, 12), (12, 12), (12, -2), (-2, -2)]],
          [[(20, 20), (20, 20.5), (20.5, 20.5), (20.5, 20), (20, 20)]]),
    "M": ([[(0, 0), (0, 10), (10, 10), (10, 0), (0, 0)],
           [(20, 0), (20, 3), (23, 3), (23, 0), (20, 0)]], None),
}
WAREA = {"A": 400.0, "H": 196.0 - 0.25, "M": 109.0}


def make_window(name):
    from pointpats import Window
    parts, holes = W[name]
    parts = [list(map(tuple, r)) for r in parts]
    return Window(parts) if holes is None else Window(parts, [list(h) for h in holes])


# ----------------------------------------------------------------- patterns
# (columns, rows, names arg, coord_names arg, how, window)
PATS = {
    "dup3": (["x", "y"], [(1, 1), (1, 1), (4, 0), (2, 5), (4, 0)], None, None, "list", None),
    "mark": (["x", "y", "mark_0"], [(0, 0, 1), (3, 1, 0), (1, 4, 1), (3, 1, 0), (5, 5, 0), (0, 4, 1), (2, 6, 0)],
             None, None, "array", None),
    "named": (["m", "lat", "lon"], [(2, .5, 1.5), (1, 2.5, 0.25), (1, 4, 3.5), (2, .5, 1.5), (1, 0, 3),
                                    (2, 3, 3)],
              ["m", "lat", "lon"], ["lon", "lat"], "df", "A"),
    "tri": (["x", "y"], [(0., 0.), (8., 1.), (3., 7.)], None, None, "array", "H"),
    "dfidx": (["x", "y", "z"], [(3, 2, 7), (0, 1, 8), (5, 6, 7), (3, 2, 7), (9, 0, 8), (1, 9, 8)],
              ["x", "y", "z"], None, "dfidx", None),
    "two": (["x", "y"], [(0.5, 2.0), (4.5, 7.0)], None, None, "list", "M"),
    "proj": (["x", "y", "mark_0", "mark_1"],
             [(500010.5, 4100020.25, 1, 5), (500300.0, 4100001.0, 2, 5), (500150.0, 4100400.0, 1, 6),
              (500010.5, 4100020.25, 1, 5), (500040.0, 4100333.0, 2, 5)],
             None, None, "array", None),
    "cnmark": (["e", "n", "mark_0", "mark_1"], [(0, 0, 2, 7), (4, 1, 1, 7), (1, 3, 2, 8), (4, 1, 1, 7), (2, 6, 2, 7)],
               None, ["e", "n"], "array", None),
}

QUERIES = ["n", "mbb", "mbb_area", "rot", "lambda_mbb", "hull", "hull_area", "lambda_hull",
           "lambda_window", "nnd", "min_nnd", "max_nnd", "mean_nnd", "window", "contains",
           "knn2", "pairs", "head"]
CHANGES = ["setA", "setM", "propH", "setNone", "add", "addtwo"]
DERIVE = ["explode", "unique", "superimpose", "switch"]
ALPHA = QUERIES + CHANGES + DERIVE
MID = ["lambda_window", "window", "hull_area", "mean_nnd", "contains", "n", "setA", "propH",
       "setNone", "add", "explode", "unique", "superimpose", "switch"]
TRIPLE = ["n", "lambda_mbb", "lambda_hull", "lambda_window", "mean_nnd", "window", "contains",
          "knn2"] + CHANGES + DERIVE
CORE = ["lambda_window", "window", "setA", "propH", "add", "unique", "explode", "superimpose"]


def cases(tier, seed):
    q = tier == "quick"
    for pat in PATS:
        for d in (0, 1, 2):
            for s in itertools.product(ALPHA, repeat=d):
                yield dict(p=pat, s=list(s))
    for pat in (["mark", "named"] if q else PATS):
        for s in itertools.product(TRIPLE if q else ALPHA, repeat=3):
            nq = sum(o in QUERIES for o in s)
            if q and (nq == 3 or (nq == 2 and pat == "named")):
                continue        # pure query triples: thorough only
            yield dict(p=pat, s=list(s))
    for pat in (["named"] if q else ["named", "mark", "dup3"]):
        for s in itertools.product(CORE, repeat=4):
            yield dict(p=pat, s=list(s))
    if not q:
        for s in itertools.product(MID, repeat=4):
            yield dict(p="mark", s=list(s))
        for s in itertools.product(CORE, repeat=5):
            yield dict(p="named", s=list(s))


# -------------------------------------------------------------------- model
class Model:
    def __init__(self, cols, rows, cn, win):
        self.cols, self.rows, self.cn, self.win = list(cols), [tuple(r) for r in rows], list(cn), win

    def pts(self):
        i, j = self.cols.index(self.cn[0]), self.cols.index(self.cn[1])
        return [(float(r[i]), float(r[j])) for r in self.rows]

    def key(self):
        return (tuple(self.cols), tuple(self.rows), tuple(self.cn), self.win)


_memo = {}


def reference(m):
    k = m.key()
    if k in _memo:
        return _memo[k]
    p = m.pts()
    xs, ys = [a for a, _ in p], [b for _, b in p]
    n = len(p)
    bb = (min(xs), min(ys), max(xs), max(ys))
    area = (bb[2] - bb[0]) * (bb[3] - bb[1])
    r = dict(n=n, mbb=bb, mbb_area=area, rot=min(bb[2] - bb[0], bb[3] - bb[1]) / 4,
             lambda_mbb=n / area if area else None)
    if not lib.collinear(p):
        h = lib.hull_ccw(p)
        r["hull"] = h
        o = h[0]
        r["hull_area"] = lib.poly_area([(a - o[0], b - o[1]) for a, b in h])
        r["lambda_hull"] = n / r["hull_area"]
    warea = area if m.win is None else WAREA[m.win]
    r["warea"] = warea
    r["lambda_window"] = n / warea if warea else None
    if n >= 2:
        d = lib.dist_matrix(p)
        np.fill_diagonal(d, np.inf)
        r["D"] = d
        r["nnd"] = d.min(1)
    if len(_memo) > 5000:
        _memo.clear()
    _memo[k] = r
    return r


def build(pat):
    from pointpats import PointPattern
    cols, rows, names, cn, how, win = PATS[pat]
    if how == "list":
        pts = [list(r) for r in rows]
    elif how == "array":
        pts = np.array(rows, float)
    else:
        pts = pd.DataFrame(rows, columns=["c%d" % i for i in range(len(cols))],
                           index=[10 * i + 3 for i in range(len(rows))] if how == "dfidx" else None)
    inputs = dict(points=pts, names=None if names is None else list(names),
                  cn=None if cn is None else list(cn))
    import copy
    pristine = copy.deepcopy(inputs)
    w = None if win is None else make_window(win)
    pp = PointPattern(pts, window=w, names=inputs["names"], coord_names=inputs["cn"])
    mcn = cn or cols[:2]
    return pp, Model(cols, rows, mcn, win), inputs, pristine


def other(m):
    """second operand for superimpose with the same columns"""
    from pointpats import PointPattern
    rows = [m.rows[-1], tuple(v + 1 for v in m.rows[0]), m.rows[0]]
    return (PointPattern(np.array(rows, float), names=list(m.cols), coord_names=list(m.cn)),
            Model(m.cols, rows, m.cn, None))


# --------------------------------------------------------------- operations
def cyc_equal(h, ref, scale):
    h = [tuple(map(float, x)) for x in h]
    if len(h) > 1 and h[0] == h[-1]:
        h = h[:-1]
    if len(h) != len(ref):
        return False
    for s in range(len(h)):
        if all(abs(h[(s + i) % len(h)][0] - ref[i][0]) <= 1e-9 * scale
               and abs(h[(s + i) % len(h)][1] - ref[i][1]) <= 1e-9 * scale for i in range(len(h))):
            return True
    return False


def query(pp, m, op, ctx):
    r = reference(m)
    if op == "n":
        ctx.eq(pp.n, r["n"], "n")
        ctx.eq(len(pp), r["n"], "len")
    elif op in ("mbb", "mbb_area", "rot"):
        ctx.close(getattr(pp, op), r[op], op)
    elif op in ("lambda_mbb", "lambda_window"):
        if r[op] is not None:
            ctx.close(getattr(pp, op), r[op], op)
    elif op in ("hull_area", "lambda_hull"):
        if op in r:
            ctx.close(getattr(pp, op), r[op], op, rtol=1e-5)
    elif op == "hull":
        if op in r:
            h = pp.hull
            ctx.check(cyc_equal(h, r["hull"], 1 + abs(np.asarray(r["hull"])).max()),
                      lambda: "hull %r, expected %r" % (np.asarray(h).tolist(), r["hull"]))
    elif op in ("nnd", "min_nnd", "max_nnd", "mean_nnd"):
        if "nnd" in r:
            if op == "nnd":
                ctx.close(np.ravel(pp.nnd), r["nnd"], op)
            else:
                ctx.close(getattr(pp, op), getattr(r["nnd"], op.split("_")[0])(), op)
    elif op == "window":
        w = pp.window
        ctx.close(w.area, r["warea"], "window.area")
        bb = r["mbb"] if m.win is None else None
        if bb is not None:
            ctx.close(w.bbox, bb, "window.bbox")
        else:
            ctx.eq(len(w.parts), len(W[m.win][0]), "number of window parts")
    elif op == "contains":
        for q in [m.pts()[0], m.pts()[-1]]:
            ctx.check(list(q) in pp, "%r not in pattern" % (q,))
            ctx.check(tuple(q) in pp, "%r not in pattern" % (q,))
            s = (q[1], q[0])
            ctx.check((s in pp) == (s in m.pts()), "membership of %r" % (s,))
        ctx.check((1234.5, 6789.5) not in pp, "foreign point in pattern")
    elif op == "knn2":
        if r["n"] >= 3:
            ids, d = pp.knn(2)
            ctx.close(d, np.sort(r["D"], 1)[:, :2], "knn(2) distances")
    elif op == "pairs":
        if r["n"] >= 2:
            rad = float(np.median(r["nnd"])) * 1.0001
            want = {(i, j) for i in range(r["n"]) for j in range(i + 1, r["n"]) if r["D"][i, j] <= rad}
            ctx.check({tuple(sorted(x)) for x in pp.find_pairs(rad)} == want, "find_pairs(%r)" % rad)
    elif op == "head":
        frame_eq(pp.head(), m, ctx, "head()", 5)


def frame_eq(df, m, ctx, what, limit=None):
    ctx.check(list(df.columns) == m.cols, lambda: "%s columns %r, expected %r" % (what, list(df.columns), m.cols))
    rows = m.rows if limit is None else m.rows[:limit]
    ctx.eq(df.values.astype(float) if len(df) else np.zeros((0, len(m.cols))),
           np.array(rows, float).reshape(-1, len(m.cols)), what)


def probe(pp, m, ctx, order):
    frame_eq(pp.df, m, ctx, "df")
    ctx.eq(np.asarray(pp.points, float), m.pts(), "points")
    ctx.check(list(pp.coord_names) == m.cn, "coord_names %r" % (pp.coord_names,))
    for op in order:
        query(pp, m, op, ctx)
    if order is QUERIES:
        summary(pp, m, ctx)


def summary(pp, m, ctx):
    """the printed description shows the same numbers"""
    r = reference(m)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        pp.summary()
    lines = out.getvalue().splitlines()
    text = "\n".join(lines[:-len(repr(pp.head()).splitlines())])
    got = [float(v) for v in re.findall(r"(?<![\w.])-?\d+(?:\.\d+)?(?:e[-+]?\d+)?", text)]
    want = [r["n"], *np.ravel(r["mbb"]), r["warea"]] + ([r["lambda_window"]] if r["lambda_window"] is not None else [])
    ctx.check(all(any(abs(g - w) <= 1e-9 * (1 + abs(w)) for g in got) for w in map(float, want)),
              lambda: "summary prints %r, the pattern has %r" % (text, want))


def uniq(rows):
    out = []
    for r in rows:
        if r not in out:
            out.append(r)
    return out


def judge(case, ctx):
    from pointpats import PointPattern
    pp, m, inputs, pristine = build(case["p"])
    live = [(pp, m)]
    cur = 0
    for i, op in enumerate(case["s"]):
        pp, m = live[cur]
        ctx.state(m.key(), tuple(sorted(case["s"][:i])), cur)
        ctx.step()
        if op in QUERIES:
            query(pp, m, op, ctx)
        elif op in ("setA", "setM"):
            pp.set_window(make_window(op[-1]))
            m.win = op[-1]
        elif op == "propH":
            pp.window = make_window("H")
            m.win = "H"
        elif op == "setNone":
            pp.set_window(None)
            m.win = None
        elif op in ("add", "addtwo"):
            k = 1 if op == "add" else 2
            nm = ["k%d_%d" % (i, j) for j in range(k)]
            vals = [[(a * 7 + j) % 2 + i for a in range(len(m.rows))] for j in range(k)]
            pp.add_marks([list(v) for v in vals], nm)
            m.cols += nm
            m.rows = [r + tuple(v[a] for v in vals) for a, r in enumerate(m.rows)]
        elif op == "explode":
            mark = m.cols[-1] if m.cols[-1] not in m.cn else m.cols[0]
            got = pp.explode(mark)
            c = m.cols.index(mark)
            vals = sorted({r[c] for r in m.rows})
            ctx.check(len(got) == len(vals), "explode gave %d patterns, expected %d" % (len(got), len(vals)))
            for g, v in zip(got, vals):
                live.append((g, Model(m.cols, [r for r in m.rows if r[c] == v], m.cn, None)))
            cur = len(live) - 1
        elif op == "unique":
            live.append((pp.unique(), Model(m.cols, uniq(m.rows), m.cn, m.win)))
            if m.win is None:
                # the window object is the box the pattern had
                pass
            cur = len(live) - 1
        elif op == "superimpose":
            o, om = other(m)
            g = pp.superimpose(o)
            live.append((o, om))
            live.append((g, Model(m.cols, uniq(m.rows + om.rows), m.cn, None)))
            cur = len(live) - 1
        elif op == "switch":
            cur = (cur + 1) % len(live)
    # probe every live pattern, in two different orders
    h = sum(map(len, case["s"])) % 2
    order = QUERIES if h else QUERIES[::-1]
    for g, gm in live:
        probe(g, gm, ctx, order)
        ctx.outcome(gm.key())
        # agreement with a freshly built real pattern
        if len(gm.rows) and len(case["s"]) <= 2:
            f = PointPattern(np.array(gm.rows, float), names=list(gm.cols), coord_names=list(gm.cn),
                             window=None if gm.win is None else make_window(gm.win))
            for a in ("mbb", "mbb_area", "rot", "lambda_mbb"):
                ctx.close(getattr(g, a), getattr(f, a), "%s against a fresh pattern" % a)
            if reference(gm)["lambda_window"] is not None:
                ctx.close(g.lambda_window, f.lambda_window, "lambda_window against a fresh pattern")
    for k in inputs:
        a, b = inputs[k], pristine[k]
        if isinstance(b, pd.DataFrame):
            ctx.check(a.equals(b) and list(a.columns) == list(b.columns) and list(a.index) == list(b.index),
                      "constructor input DataFrame was modified")
        elif isinstance(b, np.ndarray):
            ctx.eq(a, b, "constructor input array")
        else:
            ctx.check(a == b, "constructor input %s modified: %r -> %r" % (k, b, a))
    ctx.trace()
