"""Writes mxlint/baseline_funcs.json: the functions of the pinned tree (git revision given, default HEAD of /repo) and what they mention."""
import ast
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
from mxlint import canon  # noqa: E402

REPO = os.environ.get("MXLINT_REPO", "/repo")
trees = {}
for dp, dn, fn in os.walk(os.path.join(REPO, "mixtera")):
    dn[:] = sorted(d for d in dn if d not in ("tests", "__pycache__", "node_modules"))
    for f in sorted(fn):
        if f.endswith(".py"):
            p = os.path.join(dp, f)
            rel = os.path.relpath(p, REPO)[:-3].replace(os.sep, ".")
            rel = rel[: -len(".__init__")] if rel.endswith(".__init__") else rel
            trees[rel] = ast.parse(open(p, encoding="utf-8").read())
            canon.tidy(trees[rel])
b = canon.make_baseline(trees)
with open(canon.BASE, "w") as f:
    f.write("{" + ",\n".join(json.dumps(k) + ": " + ("{\n" + ",\n".join(f"{json.dumps(q)}: {json.dumps(v, sort_keys=True)}" for q, v in sorted(x.items())) + "\n}" if isinstance(x, dict) else json.dumps(x))
                             for k, x in b.items()) + "}\n")
print({k: len(x) for k, x in b.items()})
