#!/usr/bin/env python3
"""Writes /verif/DESIGN.md."""
import ast, glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from manifest_table import CHECKS, NA
from design_table import LIMITS, NOTES
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
known = [l.strip() for l in open(V + "/known_findings.txt") if l.strip() and not l.startswith("#")]
seeded = {}
for d in sorted(glob.glob(V + "/seeded/*/meta.json")):
    m = json.load(open(d))
    seeded.setdefault(m["property"], []).append((os.path.basename(os.path.dirname(d)), m))
nvar = {}
for f in glob.glob(V + "/selftest/state*.py"):
    ns = {}
    exec(compile(open(f).read(), f, "exec"), ns)
    for v in ns["V"]:
        for p in v[1]:
            nvar.setdefault(p, {"bug": 0, "ok": 0})[v[0]] += 1


def rules(pid):
    f = f"{V}/mxlint/checks/{pid.lower()}.py"
    out = []
    if os.path.exists(f):
        for n in ast.walk(ast.parse(open(f).read())):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "rule" and n.args and isinstance(n.args[0], ast.Constant):
                out.append(" ".join(n.args[0].value.split()))
    return out


out = [open(V + "/tools/design_intro.md").read()]
for p in props:
    pid = p["id"]
    out.append(f"### {pid} {p['title']}\n")
    if pid in NA:
        out.append(f"**Not applicable.** {NA[pid]}\n")
        continue
    if pid not in CHECKS:
        out.append("Not claimed yet.\n")
        continue
    out.append("**Method:** " + CHECKS[pid][0].split(": ", 1)[1] + ".\n")
    for r in rules(pid):
        out.append("**Rule:** " + r + "\n")
    out.append("**Analysed:** " + ", ".join(p["anchors"]["files"]) + ".\n")
    if pid in LIMITS:
        out.append("**Bounds and limits:** " + LIMITS[pid] + "\n")
    for k in known:
        if f"property={pid} " in k:
            kind, rest = k.split(":", 1)
            rest = rest.replace(f" property={pid} ", "").strip()
            out.append(f" * {'Defect repaired' if kind == 'fixed' else 'Known finding (recorded)'}: {rest}")
    s = nvar.get(pid)
    if s:
        out.append(f" * Self test: {s['bug']} bug variants reported, {s['ok']} behaviour-preserving variants quiet.")
    for n, m in seeded.get(pid, []):
        out.append(f" * Planted `{n}` ({m['what_it_breaks']}; needs {m['needs']}): caught by {m.get('caught', 'this check')}.")
    out.append("")
out.append(NOTES)
open(V + "/DESIGN.md", "w").write("\n".join(out) + "\n")
print("DESIGN.md", sum(x.count("\n") + 1 for x in out), "lines")
