"""Exploration engine shared by every check.

A check module (mc/checks/cXX.py) defines

    META            dict(technique=..., level_note=..., rule=..., assumptions=[...])
    cases(tier, seed)   generator of JSON-able case dicts, simplest first: the
                        enumerated space.  It is regenerated identically in
                        every worker.
    judge(case, ctx)    runs the real pointpats code on the case and compares
                        with an independent reference.  ``ctx.fail`` (or any
                        exception, including one raised by pointpats on a legal
                        input) is a violation.

The engine walks the WHOLE enumeration with forked workers, counts canonical
states / transitions / validated traces, and turns every violation into a JSON
artefact that ``run.py <ID> --replay FILE`` re-executes alone.
"""
import os
import sys
import json
import time
import math
import signal
import hashlib
import pickle
import traceback
import warnings
import select
import ctypes
import multiprocessing as mp

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = os.environ.get("VERIF_OUT", os.path.join(ROOT, "out"))

CASE_LIMIT = 240        # s of wall time for one case before it counts as hang
MAX_VIOLATIONS = 3      # per worker, then the run stops early (it failed anyway)


def prepare_env():
    os.environ.setdefault("MPLBACKEND", "Agg")
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    sys.dont_write_bytecode = True
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS",
              "NUMBA_NUM_THREADS"):
        os.environ[v] = "1"
    if "MPLCONFIGDIR" not in os.environ:
        import tempfile, atexit, shutil
        d = tempfile.mkdtemp(prefix="pp-mpl-")
        os.environ["MPLCONFIGDIR"] = d
        pid = os.getpid()

        def _clean():
            if os.getpid() == pid:
                shutil.rmtree(d, ignore_errors=True)
        atexit.register(_clean)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def import_repo():
    warnings.simplefilter("ignore")
    import pointpats
    f = os.path.realpath(pointpats.__file__)
    if not f.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError("pointpats imported from %s, not from %s" % (f, REPO))
    return pointpats


class Violation(Exception):
    def __init__(self, message, key=""):
        super().__init__(message)
        self.key = key


class CaseTimeout(BaseException):
    pass


def canon(obj):
    """8-byte canonical hash of a nested structure (floats rounded)."""
    h = hashlib.blake2b(digest_size=8)
    _feed(h, obj)
    return int.from_bytes(h.digest(), "big")


def _feed(h, o):
    import numpy as np
    if o is None or isinstance(o, (bool, str, int)):
        h.update(repr(o).encode())
    elif isinstance(o, float):
        h.update(("%.9g" % o).encode())
    elif isinstance(o, dict):
        h.update(b"{")
        for k in sorted(o, key=str):
            _feed(h, str(k))
            _feed(h, o[k])
        h.update(b"}")
    elif isinstance(o, (list, tuple)):
        h.update(b"[")
        for x in o:
            _feed(h, x)
            h.update(b",")
        h.update(b"]")
    elif isinstance(o, (set, frozenset)):
        _feed(h, sorted(o, key=repr))
    elif isinstance(o, np.ndarray):
        if o.dtype.kind == "f":
            with np.errstate(all="ignore"):
                o = np.round(o.astype(float), 9) + 0.0
        h.update(str(o.shape).encode())
        h.update(np.ascontiguousarray(o).tobytes() if o.dtype.kind != "O"
                 else repr(o.tolist()).encode())
    elif isinstance(o, np.generic):
        _feed(h, o.item())
    else:
        h.update(repr(o).encode())


class Ctx:
    """Collects what the exploration covered; passed to judge()."""

    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.evals = 0
        self.notes = {}
        self.expected_keys = {}

    # -- coverage
    def state(self, *key):
        """record a canonical state; True when it is new to this worker"""
        c = canon(key)
        if c in self.states:
            return False
        self.states.add(c)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, *key):
        self.outcomes.add(canon(key))

    def note(self, name, n=1):
        self.notes[name] = self.notes.get(name, 0) + n

    # -- verdicts
    def fail(self, message, key=""):
        raise Violation(message, key)

    def check(self, cond, message, key=""):
        self.evals += 1
        if not cond:
            raise Violation(message() if callable(message) else message, key)

    def eq(self, got, want, what, key=""):
        """exact equality of arrays / scalars (NaN equal NaN)"""
        import numpy as np
        self.evals += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s (got %s, expected %s)"
                            % (what, g.shape, w.shape, _s(got), _s(want)), key)
        ok = (g == w)
        if g.dtype.kind in "fc" or w.dtype.kind in "fc":
            ok = ok | ((g != g) & (w != w))
        if not np.all(ok):
            raise Violation("%s: got %s, expected %s" % (what, _s(got), _s(want)), key)

    def close(self, got, want, what, rtol=1e-9, atol=1e-12, key=""):
        import numpy as np
        self.evals += 1
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            raise Violation("%s: shape %s, expected %s (got %s, expected %s)"
                            % (what, g.shape, w.shape, _s(got), _s(want)), key)
        if not np.allclose(g, w, rtol=rtol, atol=atol, equal_nan=True):
            raise Violation("%s: got %s, expected %s" % (what, _s(got), _s(want)), key)


def _s(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# --------------------------------------------------------------------------
def run_case(mod, case, ctx, limit=CASE_LIMIT):
    """-> None or dict(message, key) ; Python-level hang protection."""
    def on_alarm(signum, frame):
        raise CaseTimeout()
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            mod.judge(case, ctx)
        return None
    except Violation as e:
        return dict(message=str(e), key=e.key)
    except CaseTimeout:
        return dict(message="no result after %d s (does not terminate)" % limit,
                    key="hang")
    except (KeyboardInterrupt, SystemExit):
        raise
    except BaseException as e:
        tb = traceback.format_exc()
        return dict(message="raised %s: %s" % (type(e).__name__, e), key="raise",
                    traceback=tb[-4000:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


def _worker(mod, tier, seed, wid, counter, cur, cur_t, stop, conn, deadline):
    try:        # die with the parent
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    except Exception:
        pass
    ctx = Ctx()
    viols = []
    samples = []
    known = {f.get("key") for f in load_findings() if f.get("property", "").lower() == mod.__name__.split(".")[-1]} - {None}
    n = 0
    capped = False
    try:
        gen = mod.cases(tier, seed)
        pos = -1
        case = None
        chunk = getattr(mod, "CHUNK", 1)
        while not stop.value:
            if deadline and time.time() > deadline:
                capped = True
                break
            with counter.get_lock():
                lo = counter.value
                counter.value += chunk
            done = False
            for target in range(lo, lo + chunk):
                while pos < target:
                    case = next(gen, None)
                    if case is None:
                        done = True
                        break
                    pos += 1
                if done:
                    break
                cur[wid] = pos
                cur_t[wid] = time.time()
                n += 1
                if len(samples) < 2 or (wid == 0 and len(samples) < 4 and n % 97 == 0):
                    samples.append(case)
                v = run_case(mod, case, ctx)
                if v is not None:
                    v["index"] = pos
                    v["case"] = case
                    v["known"] = v["key"] in known
                    viols.append(v)
                    if len([x for x in viols if not x.get("known")]) >= MAX_VIOLATIONS:
                        stop.value = 1
                    if stop.value:
                        break
            if done:
                break
        cur_t[wid] = 0.0
        conn.send_bytes(pickle.dumps(dict(
            n=n, states=ctx.states, outcomes=ctx.outcomes, transitions=ctx.transitions,
            traces=ctx.traces, evals=ctx.evals, notes=ctx.notes, viols=viols,
            samples=samples, capped=capped)))
        conn.close()
        os._exit(0)
    except BaseException:
        try:
            conn.send_bytes(pickle.dumps(dict(harness=traceback.format_exc(), viols=viols)))
        except BaseException:
            pass
        os._exit(3)


def nth_case(mod, tier, seed, index):
    for i, c in enumerate(mod.cases(tier, seed)):
        if i == index:
            return c


def explore(mod, tier, seed, workers=None, budget=None):
    """Walk the whole enumeration of mod; returns merged result dict."""
    if hasattr(mod, "warmup"):
        mod.warmup()
    if hasattr(mod, "prepare"):
        mod.prepare(tier, seed)
    workers = workers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 8)
    mpc = mp.get_context("fork")
    counter = mpc.Value("q", 0)
    stop = mpc.Value("i", 0)
    cur = mpc.Array("q", workers, lock=False)
    cur_t = mpc.Array("d", workers, lock=False)
    for i in range(workers):
        cur[i] = -1
    deadline = time.time() + budget if budget else 0
    procs, conns = [], []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(workers):
        r, s = mpc.Pipe(False)
        p = mpc.Process(target=_worker, args=(mod, tier, seed, w, counter, cur, cur_t,
                                              stop, s, deadline))
        p.start()
        s.close()
        procs.append(p)
        conns.append(r)
    res = dict(n=0, states=set(), outcomes=set(), transitions=0, traces=0, evals=0,
               notes={}, viols=[], samples=[], capped=False)
    pending = dict(enumerate(conns))
    while pending:
        ready = mp.connection.wait(list(pending.values()), timeout=1.0)
        for w, c in list(pending.items()):
            if c in ready:
                try:
                    d = pickle.loads(c.recv_bytes())
                except (EOFError, OSError):
                    d = dict(crash=True)
                procs[w].join(10)
                if "harness" in d or "crash" in d:
                    idx = cur[w]
                    msg = d.get("harness") or ("worker process died (exit %s)" % procs[w].exitcode)
                    res["viols"] += d.get("viols", [])
                    res["viols"].append(dict(
                        message="exploration worker failed: " + msg.strip().splitlines()[-1],
                        key="crash", index=idx, traceback=msg,
                        case=nth_case(mod, tier, seed, idx) if idx >= 0 else {}))
                else:
                    for k in ("n", "transitions", "traces", "evals"):
                        res[k] += d[k]
                    res["states"] |= d["states"]
                    res["outcomes"] |= d["outcomes"]
                    res["viols"] += d["viols"]
                    res["samples"] += d["samples"]
                    res["capped"] |= d["capped"]
                    for k, v in d["notes"].items():
                        res["notes"][k] = res["notes"].get(k, 0) + v
                del pending[w]
            elif cur_t[w] and time.time() - cur_t[w] > CASE_LIMIT + 40:
                # stuck in native code: the alarm could not be delivered
                procs[w].kill()
                idx = cur[w]
                res["viols"].append(dict(
                    message="no result after %d s (stuck in native code)" % CASE_LIMIT,
                    key="hang", index=idx, case=nth_case(mod, tier, seed, idx)))
                stop.value = 1
                del pending[w]
    for p in procs:
        p.join(5)
        if p.is_alive():
            p.kill()
    res["viols"].sort(key=lambda v: v.get("index", 0))
    return res


# --------------------------------------------------------------------------
def load_findings():
    out = []
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                parts = line[len("finding:"):].split(None, 2)
                d = dict(p.split("=", 1) for p in parts[:2])
                d["text"] = parts[2] if len(parts) > 2 else ""
                out.append(d)
    return out


def jsonable(o):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [jsonable(x) for x in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist())
    if isinstance(o, np.generic):
        return jsonable(o.item())
    if isinstance(o, float) and not math.isfinite(o):
        return repr(o)
    return o


def report(pid, mod, tier, seed, res, t0):
    findings = [f for f in load_findings() if f.get("property") == pid]
    new = []
    for v in res["viols"]:
        if any(f.get("key") == v.get("key") and v.get("key") for f in findings):
            continue
        new.append(v)
    for f in findings:
        print("KNOWN-FINDING: property=%s %s" % (pid, f["text"]))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    meta = mod.META
    cov = dict(
        states=len(res["states"]),
        transitions=res["transitions"],
        traces_validated_against_impl=res["traces"],
        evaluations=res["n"],
        oracle_comparisons=res["evals"],
        distinct_nontrivial=len(res["outcomes"]),
        rule=meta["rule"],
        samples=jsonable(res["samples"][:6]),
        exhaustive=(not res["capped"]) and not new,
        bounds=meta.get("bounds", {}).get(tier, meta.get("bounds", "")),
        kinds=res["notes"],
    )
    ev = dict(property=pid, tier=tier, seed=seed, level=meta.get("level", "model_checking"),
              coverage=cov, assumptions=meta.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=len(new))
    path = os.path.join(ROOT, "evidence", pid + ".json")
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, path)
    print("%s %s: cases=%d states=%d transitions=%d traces=%d comparisons=%d outcomes=%d "
          "exhaustive=%s wall=%.1fs %s"
          % (pid, tier, res["n"], cov["states"], cov["transitions"], res["traces"],
             res["evals"], cov["distinct_nontrivial"], cov["exhaustive"], ev["wall_s"],
             res["notes"] or ""))
    if not new:
        return 0
    os.makedirs(OUT, exist_ok=True)
    for i, v in enumerate(new[:5]):
        rp = os.path.join(OUT, "%s-%s-%d.json" % (pid, tier, i))
        with open(rp, "w") as f:
            json.dump(jsonable(dict(property=pid, tier=tier, seed=seed, **v)), f, indent=1)
        if i == 0:
            print("  first violation: case %s" % _s(v.get("case"), 600))
            print("  " + v["message"][:1500])
            if v.get("traceback"):
                print("  " + "\n  ".join(v["traceback"].strip().splitlines()[-8:]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1
