"""dev: apply textual mutations to a scratch copy of /repo and run a check against each.
mut.py CXX file.py <<< lines 'old ==> new'   (use \\n for newlines)"""
import sys, os, subprocess, shutil, tempfile
ids, fn = sys.argv[1].split(","), sys.argv[2]
tests = "--tests" in sys.argv
src = open("/repo/pointpats/" + fn).read()
d = tempfile.mkdtemp(prefix="mut-")
r = d + "/repo"
subprocess.run(["cp", "-a", "/repo", r], check=True)
for line in sys.stdin:
    line = line.rstrip("\n")
    if not line.strip():
        continue
    old, new = (x.replace("\\n", "\n") for x in line.split(" ==> "))
    if new == "''": new = ""
    if src.count(old) < 1:
        print("NOT FOUND:", old); continue
    open(r + "/pointpats/" + fn, "w").write(src.replace(old, new, 1))
    for i in ids:
        env = dict(os.environ, VERIF_REPO=r, VERIF_OUT=d + "/out")
        p = subprocess.run(["/opt/venv/bin/python", "/verif/mc/run.py", i, "--tier", "quick"], env=env, capture_output=True, text=True, cwd="/verif")
        out = p.stdout.strip().splitlines()
        msg = [l for l in out if l.startswith("  ")][1:2]
        print(i, "CAUGHT" if p.returncode == 1 else "missed(%d)" % p.returncode, "|", line[:110], "|", (msg or [p.stderr[-200:]])[0][:170])
    if tests:
        t = subprocess.run("cd %s && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider pointpats 2>&1 | tail -1" % r, shell=True, capture_output=True, text=True, env=dict(os.environ, MPLBACKEND="Agg"))
        print("   tests:", t.stdout.strip())
shutil.rmtree(d)
