"""dev: systematic mutation of one module, each mutant judged by the checks that own the function.
automut.py FILE.py 'func=C01,C02;func2=C03;*=C05' [-j N] [--only REGEX]   prints the mutants that no check caught"""
import ast, sys, os, re, subprocess, shutil, tempfile, random
from concurrent.futures import ThreadPoolExecutor
fn = sys.argv[1]
owner = dict(x.split("=") for x in sys.argv[2].split(";"))
J = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 6
only = re.compile(sys.argv[sys.argv.index("--only") + 1]) if "--only" in sys.argv else None
stride = int(sys.argv[sys.argv.index("--stride") + 1]) if "--stride" in sys.argv else 1
src = open("/repo/pointpats/" + fn).read()
lines = src.split("\n")
off = [0]
for l in lines: off.append(off[-1] + len(l.encode()) + 1)
B = src.encode()
pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
seg = lambda n: B[slice(*pos(n))].decode()
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Pow: "*", ast.Mod: "//", ast.BitAnd: "|", ast.BitOr: "&"}
muts = []

def visit(node, path):
    if isinstance(node, (ast.Import, ast.ImportFrom, ast.Raise)): return
    if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant): return
    if isinstance(node, ast.Call) and re.search(r"(^|\.)warn$|^print$|simplefilter|filterwarnings", ast.unparse(node.func)): return
    if isinstance(node, ast.If) and ast.unparse(node.test).startswith("__name__"): return
    if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
        nm = node.name
        if nm == "_": nm = ast.unparse(node.decorator_list[0]).split(".")[0]
        path = path + [nm]
    add = lambda n, new: muts.append((path, pos(n), new, n.lineno))
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), []):
            add(node, "(%s %s %s)" % (seg(node.left), o, seg(node.comparators[0])))
    if isinstance(node, ast.BinOp) and type(node.op) in BIN:
        add(node, "(%s %s %s)" % (seg(node.left), BIN[type(node.op)], seg(node.right)))
    if isinstance(node, ast.BoolOp):
        add(node, "(" + (" or " if isinstance(node.op, ast.And) else " and ").join("(%s)" % seg(v) for v in node.values) + ")")
        for i in range(len(node.values)):
            add(node, "(%s)" % seg(node.values[i]))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
        add(node, "(%s)" % seg(node.operand))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool): add(node, str(not v))
        elif isinstance(v, (int, float)):
            add(node, repr(v + 1)); add(node, repr(v - 1) if v > 0 else repr(v + 2))
            if isinstance(v, float) and abs(v) < 1: add(node, repr(v * 10))
    if isinstance(node, ast.Call):
        for i, k in enumerate(node.keywords):
            args = [seg(a) for a in node.args] + [seg(x) for j, x in enumerate(node.keywords) if j != i]
            add(node, "%s(%s)" % (seg(node.func), ", ".join(args)))
    if isinstance(node, (ast.If, ast.While)) :
        if isinstance(node, ast.If): add(node.test, "True")
        add(node.test, "False")
    if isinstance(node, ast.IfExp): add(node, seg(node.body)); add(node, seg(node.orelse))
    if isinstance(node, (ast.AugAssign,)) or isinstance(node, ast.Expr) and isinstance(node.value, ast.Call): add(node, "pass")
    if isinstance(node, (ast.Continue, ast.Break)): add(node, "pass")
    if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and not node.args and not node.keywords and node.func.attr in ("copy", "squeeze", "lower", "flatten", "dropna", "reset_index"):
        add(node, seg(node.func.value))
    for f, v in ast.iter_fields(node):
        if f in ("decorator_list", "annotation", "returns"): continue
        for c in v if isinstance(v, list) else [v]:
            if isinstance(c, ast.AST): visit(c, path)

visit(ast.parse(src), [])
jobs = []
nj = 0
for path, (a, b), new, ln in muts:
    own = next((owner[p] for p in reversed(path) if p in owner), owner.get("*"))
    if not own or own == "-": continue
    label = "%s:%d %s: %s ==> %s" % (fn, ln, ".".join(path), re.sub(r"\s+", " ", B[a:b].decode())[:90], re.sub(r"\s+", " ", new)[:90])
    if only and not only.search(label): continue
    nj += 1
    if nj % stride: continue
    jobs.append((label, (B[:a] + new.encode() + B[b:]).decode(), own.split(",")))
print(len(jobs), "mutants", flush=True)
if "--list" in sys.argv:
    for l, _, o in jobs: print(l, o)
    sys.exit()
import queue
pool = queue.Queue()
dirs = []
for _ in range(J):
    d = tempfile.mkdtemp(prefix="am-"); dirs.append(d)
    subprocess.run(["cp", "-a", "/repo", d + "/repo"], check=True); pool.put(d)

def run(job):
    label, text, own = job
    try: compile(text, fn, "exec")
    except SyntaxError: return label, "syntax"
    d = pool.get()
    try:
        open(d + "/repo/pointpats/" + fn, "w").write(text)
        res = []
        for c in own:
            env = dict(os.environ, VERIF_REPO=d + "/repo", VERIF_OUT=d + "/out", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
            try:
                p = subprocess.run(["/opt/venv/bin/python", "/verif/mc/run.py", c, "--tier", "quick", "--workers", "1"], env=env, capture_output=True, text=True, cwd="/verif", timeout=900)
                if p.returncode == 1: return label, "caught"
                res.append("%s:%d" % (c, p.returncode))
            except subprocess.TimeoutExpired:
                return label, "timeout"
        return label, "SURVIVED " + ",".join(res)
    finally:
        open(d + "/repo/pointpats/" + fn, "w").write(src)
        pool.put(d)
n = 0
with ThreadPoolExecutor(J) as ex:
    for label, r in ex.map(run, jobs):
        n += 1
        if not r.startswith(("caught", "syntax")): print(r, "|", label, flush=True)
print("done", n, flush=True)
for d in dirs: shutil.rmtree(d)
