"""dev: build /verif/seeded/<id>/ from plant definitions and confirm each in a scratch copy of /repo.
plant.py DEFS.py [id...]   DEFS.py defines PLANTS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]"""
import sys, os, subprocess, shutil, tempfile, json, runpy
from concurrent.futures import ThreadPoolExecutor
defs = runpy.run_path(sys.argv[1])["PLANTS"]
only = sys.argv[2:]
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
SH = '''#!/bin/bash
# run with cwd /repo: exit 0 when the property holds, nonzero when it does not
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONWARNINGS=ignore
exec timeout 250 /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''

def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, env=ENV, **kw)

def one(p):
    d = tempfile.mkdtemp(prefix="plant-")
    r = d + "/repo"
    subprocess.run(["cp", "-a", "/repo", r], check=True)
    msg = []
    try:
        out = d + "/s"
        os.mkdir(out)
        open(out + "/demo.py", "w").write(p["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(SH)
        os.chmod(out + "/demo.sh", 0o755)
        a = sh(f"bash {out}/demo.sh", r)
        if a.returncode: return p["id"], "BAD demo fails on unchanged: " + a.stderr[-400:] + a.stdout[-200:]
        for f, old, new in p["edits"]:
            s = open(f"{r}/pointpats/{f}").read()
            if s.count(old) != 1: return p["id"], f"BAD {s.count(old)} matches: {old}"
            open(f"{r}/pointpats/{f}", "w").write(s.replace(old, new))
        diff = sh("git diff", r).stdout
        # original lines?
        base = sh("git rev-list --max-parents=0 HEAD | tail -1", r).stdout.strip()
        first_fix = sh("git log --reverse --format=%H --grep='^fix:' | head -1", r).stdout.strip()
        pre = set()
        for f in {e[0] for e in p["edits"]}:
            pre |= set(sh(f"git show {first_fix}~1:pointpats/{f}", r).stdout.splitlines())
        minus = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not minus: msg.append("no removed lines")
        mine = [l for l in minus if l not in pre and l.strip()]
        if mine: msg.append("MY LINES: %r" % mine)
        b = sh(f"bash {out}/demo.sh", r)
        if b.returncode == 0: return p["id"], "BAD demo passes with patch"
        t = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider pointpats 2>&1 | tail -3", r)
        if "133 passed" not in t.stdout: return p["id"], "BAD tests: " + t.stdout
        c = subprocess.run(["/opt/venv/bin/python", "/verif/mc/run.py", p["property"], "--tier", "quick"], cwd="/verif", capture_output=True, text=True, env=dict(ENV, VERIF_REPO=r, VERIF_OUT=d + "/o"))
        lines = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
        msg.append("CAUGHT" if c.returncode == 1 else f"MISSED({c.returncode})" )
        o = f"/verif/seeded/{p['id']}"
        if os.path.isdir(o): shutil.rmtree(o)
        shutil.copytree(out, o)
        open(o + "/patch.diff", "w").write(diff)
        json.dump({"property": p["property"], "needs": p["needs"], "what_it_breaks": p["breaks"]}, open(o + "/meta.json", "w"), indent=1)
        return p["id"], "ok " + p["property"] + " " + "; ".join(msg)
    finally:
        shutil.rmtree(d)

todo = [p for p in defs if not only or p["id"] in only]
with ThreadPoolExecutor(3) as ex:
    for i, m in ex.map(one, todo):
        print(i, m, flush=True)
