"""Writes MANIFEST.json from properties.jsonl and the check modules' META."""
import ast
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
PY = "/opt/venv/bin/python"


def meta(path):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") == "META":
            return {k.arg: ast.literal_eval(k.value) for k in node.value.keywords
                    if k.arg in ("technique", "level_note")}


checks, na = [], []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    f = os.path.join(HERE, "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=pid, reason="model checking applies; its check is not built yet"))
        continue
    m = meta(f)
    checks.append(dict(property=pid,
                       quick_cmd="%s mc/run.py %s --tier quick" % (PY, pid),
                       thorough_cmd="%s mc/run.py %s --tier thorough" % (PY, pid),
                       technique=m["technique"], level="model_checking", level_note=m["level_note"]))
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as o:
    json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), o, indent=1)
    o.write("\n")
print(len(checks), "checks", [x["property"] for x in na])
