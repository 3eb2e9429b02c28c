"""C21: SpaceTimeEvents against the files it is given."""
import datetime
import itertools
import os
import shutil
import tempfile
import numpy as np
import lib

META = dict(
    technique="exhaustive enumeration of small files (sequences of points and attribute values up to a bound, column layouts, directory and file names) "
              "written to a scratch directory and read by the real class, against what was written",
    level_note="Files are written by libpysal and by geopandas; encodings and other shapefile dialects are not covered.",
    rule="a case is a file (points, columns, name) with every column and flag; an outcome is the table of times",
    bounds=dict(quick="all sequences of 1..3 points over 4 with all value sequences over 3 per column type, 10 directory/file names, 2 decoys",
                thorough="sequences of up to 4"),
    assumptions=["libpysal's and geopandas' shapefile writers"],
)
XY = [(0.0, 0.0), (1.5, -2.25), (512000.125, 4186000.5), (-122.4, 37.7)]
INTS = [0, 7, -30]
FLOATS = [0.5, -2.25, 1e6]
DAYS = [datetime.date(2020, 2, 28), datetime.date(2020, 3, 1), datetime.date(1899, 12, 31)]
NAMES = ["events.shp", "my events.shp", "a.b.shp", "shp.shp", "e.shp.shp", os.path.join("d.shp", "e.shp"), os.path.join("shp files.d", "x.y", "e.shp"),
         os.path.join("x.dbf", "e.shp"), "dbf.shp", os.path.join("d", "..", "d2", "e-1.shp")]


def cases(tier, seed):
    q = tier == "quick"
    i = seed
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        P = list(itertools.product(range(4), repeat=n))
        V = list(itertools.product(range(3), repeat=n))
        todo = [(p, V[(5 * a + b) % len(V)]) for a, p in enumerate(P) for b in range(min(len(V), 3 if n < 4 else 1))] + [(P[(7 * a) % len(P)], v) for a, v in enumerate(V)]
        for lo in range(0, len(todo), 8):
            i += 1
            yield dict(op="files", todo=todo[lo:lo + 8], r=i)
    for name in NAMES:
        for decoy in (0, 1):
            yield dict(op="name", name=name, decoy=decoy)
    for n in (50, 301):
        for f in lib.FRAMES:
            yield dict(op="big", n=n, f=f)
    yield dict(op="example")
    for lay in range(6):
        yield dict(op="geopandas", lay=lay)


def write(path, xy, cols):
    """cols: list of (name, type, values)"""
    import libpysal as lps
    w = lps.io.open(path, "w")
    for p in xy:
        w.write(lps.cg.Point(p))
    w.close()
    d = lps.io.open(os.path.splitext(path)[0] + ".dbf", "w")
    d.header = [c[0] for c in cols]
    d.field_spec = [{"i": ("N", 12, 0), "f": ("N", 20, 6), "d": ("D", 8, 0), "s": ("C", 14, 0)}[c[1]] for c in cols]
    for row in zip(*[c[2] for c in cols]):
        d.write(list(row))
    d.close()


def verify(ctx, path, xy, col, kind, vals, what, infer=None):
    import contextlib, io
    from pointpats import SpaceTimeEvents
    n = len(xy)
    for inf in (False, True) if infer is None else (infer,):
        with contextlib.redirect_stdout(io.StringIO()):
            e = SpaceTimeEvents(path, col, infer_timestamp=inf) if inf else SpaceTimeEvents(path, col)
        w = "%s column %s infer_timestamp=%r" % (what, col, inf)
        want = list(vals)
        if inf and kind == "d":
            want = [(v - min(vals)).days for v in vals]
        ctx.check(e.n == n, lambda: "%s: n=%r, %d points" % (w, e.n, n))
        ctx.eq(e.x, np.array(xy, float)[:, :1], w + ": x")
        ctx.eq(e.y, np.array(xy, float)[:, 1:], w + ": y")
        ctx.eq(e.space, np.array(xy, float), w + ": space")
        ctx.check(e.t.shape == (n, 1) and e.time.shape == (n, 2), lambda: "%s: shapes %r %r" % (w, e.t.shape, e.time.shape))
        ctx.check([v for v in e.t[:, 0].tolist()] == want, lambda: "%s: t=%r, the file has %r" % (w, e.t[:, 0].tolist(), want))
        ctx.check([v for v in e.time[:, 0].tolist()] == want and all(v == 1 for v in e.time[:, 1].tolist()), lambda: "%s: time=%r" % (w, e.time.tolist()))
        if kind != "d" or inf:
            ctx.check(e.t.dtype.kind in "if", lambda: "%s: times of dtype %s" % (w, e.t.dtype))
        ctx.step()
        ctx.outcome(kind, inf, [str(v) for v in want])
    return e


def judge(case, ctx):
    import geopandas as gpd
    op = case["op"]
    d = tempfile.mkdtemp(prefix="pp-c21-")
    try:
        if op == "files":
            for q, (p, v) in enumerate(case["todo"]):
                path = os.path.join(d, "f%d.shp" % q)
                xy = [XY[j] for j in p]
                cols = [("T", "i", [INTS[j] for j in v]), ("t2", "f", [FLOATS[j] for j in v]), ("DATE", "d", [DAYS[j] for j in v]),
                        ("N", "s", ["s%d" % j for j in v]), ("X", "i", [INTS[j - 1] for j in v])]
                cols = cols[(case["r"] + q) % 5:] + cols[:(case["r"] + q) % 5]
                write(path, xy, cols)
                ctx.state(xy, v, [c[0] for c in cols])
                for name, kind, vals in cols:
                    if kind != "s":
                        verify(ctx, path, xy, name, kind, vals, "points %r values %r" % (xy, v))
        elif op == "name":
            path = os.path.join(d, case["name"])
            if ".." in case["name"]:
                os.makedirs(os.path.join(d, "d"))
            os.makedirs(os.path.dirname(path), exist_ok=True)
            if case["decoy"]:
                # other tables a careless path edit would find
                for other in (path.replace("shp", "dbf"), path[:path.index("shp")] + "dbf", path + ".dbf", os.path.join(d, "events.dbf"), path[:-3] + "DBF",
                              path.split(".")[0] + ".dbf"):
                    if os.path.abspath(other) in (os.path.abspath(path), os.path.abspath(os.path.splitext(path)[0] + ".dbf")):
                        continue
                    base = os.path.splitext(other)[0]
                    try:
                        os.makedirs(os.path.dirname(other), exist_ok=True)
                        if not os.path.exists(base + ".shp") and not os.path.exists(other):
                            write(base + ".shp", [(9.0, 9.0)] * 2, [("T", "i", [90, 91])])
                            if other != base + ".dbf":
                                os.rename(base + ".dbf", other)
                    except (OSError, FileExistsError):
                        pass
            write(path, XY[:3], [("A", "i", [5, 6, 7]), ("T", "i", [3, 1, 2]), ("DATE", "d", DAYS)])
            ctx.state(case["name"], case["decoy"])
            verify(ctx, path, XY[:3], "T", "i", [3, 1, 2], "file %s" % case["name"])
            verify(ctx, path, XY[:3], "DATE", "d", DAYS, "file %s" % case["name"])
            cwd = os.getcwd()
            os.chdir(d)
            try:
                verify(ctx, case["name"], XY[:3], "T", "i", [3, 1, 2], "relative file %s" % case["name"])
            finally:
                os.chdir(cwd)
            try:
                from pointpats import SpaceTimeEvents
                SpaceTimeEvents(path, "no such column")
            except Exception:
                ctx.step()
            else:
                ctx.fail("a column that is not there is accepted")
        elif op == "big":
            n = case["n"]
            S = lib.frame(lib.structured(n, "uniform"), case["f"])
            path = os.path.join(d, "big.shp")
            t = [(j * 37) % 101 - 50 for j in range(n)]
            D = [datetime.date(1996, 2, 27) + datetime.timedelta(days=(j * 7919) % 12000) for j in range(n)]
            write(path, [tuple(p) for p in S.tolist()], [("T", "i", t), ("DATE", "d", D)])
            ctx.state(n, case["f"])
            verify(ctx, path, S.tolist(), "T", "i", t, "%d points" % n)
            verify(ctx, path, S.tolist(), "DATE", "d", D, "%d points" % n)
        elif op == "example":
            import libpysal as lps
            g = gpd.read_file(lps.examples.get_path("burkitt.shp"))
            xy = np.column_stack([g.geometry.x, g.geometry.y]).tolist()
            e = verify(ctx, lps.examples.get_path("burkitt.shp"), xy, "T", "i", [int(v) for v in g["T"]], "burkitt")
            verify(ctx, lps.examples.get_path("burkitt.shp"), xy, "DATE", "d", [v.date() if hasattr(v, "date") else v for v in g["DATE"]], "burkitt")
            ctx.state("burkitt")
        else:
            path = os.path.join(d, "g.shp")
            n = 7
            S = lib.structured(n, lib.KINDS[case["lay"]])
            v = [(5 * j + case["lay"]) % 7 for j in range(n)]
            g = gpd.GeoDataFrame({"a": range(n), "T": v, "f": [x / 4 for x in v]}, geometry=gpd.points_from_xy(*S.T), crs="EPSG:3857" if case["lay"] % 2 else None,
                                 index=range(n, 0, -1))
            g.to_file(path)
            ctx.state("geopandas", case["lay"])
            verify(ctx, path, S.tolist(), "T", "i", v, "geopandas file")
            verify(ctx, path, S.tolist(), "f", "f", [x / 4 for x in v], "geopandas file")
    finally:
        shutil.rmtree(d, ignore_errors=True)
    ctx.trace()
