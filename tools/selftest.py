#!/usr/bin/env python3
"""Both-ways test of the checkers on scratch variants of /repo: every 'bug' variant must be reported by the named check, every
'ok' variant (behaviour-preserving edit) must leave all checks quiet.  Usage: selftest.py [filter]"""
import concurrent.futures as cf
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


ALL = sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, "mxlint/checks")) if f[0] == "c" and f[1:3].isdigit())


def load():
    out = []
    d = os.path.join(HERE, "selftest")
    for f in sorted(os.listdir(d)):
        if f.endswith(".py"):
            spec = importlib.util.spec_from_file_location(f[:-3], os.path.join(d, f))
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
            for i, v in enumerate(m.V):
                out.append((f"{f[:-3]}#{i}", *v))
    return out


def run(v):
    name, kind, props, file, edits = v
    tmp = tempfile.mkdtemp(prefix="mxst_")
    try:
        shutil.copytree(os.environ.get("MXLINT_REPO", "/repo") + "/mixtera", os.path.join(tmp, "mixtera"), ignore=lambda d, ns: [n for n in ns if n in ("tests", "__pycache__") or n.endswith((".so", ".cpp", ".h"))])
        edl = edits if isinstance(edits[0], (tuple, list)) else [edits]
        for e in edl:
            if len(e) == 3:
                f, old, new = e
            else:
                f, (old, new) = file, e
            p = os.path.join(tmp, f)
            s = open(p).read()
            if s.count(old) < 1:
                return name, "BADVARIANT", f"text not found in {f}: {old[:60]!r}"
            s = s.replace(old, new, 1)
            open(p, "w").write(s)
            compile(s, p, "exec")
        ids = props if kind == "bug" else ALL
        env = dict(os.environ, MXLINT_REPO=tmp, MXLINT_EVIDENCE=os.path.join(tmp, "ev"), MXLINT_SHARE="1")
        bad = []
        hit = []
        groups = [[i] for i in ids] if kind == "bug" else [ids]
        for g in groups:
            r = subprocess.run([sys.executable, os.path.join(HERE, "run.py"), *g], env=env, capture_output=True, text=True)
            i = g[0]
            if kind == "bug":
                (hit if r.returncode == 1 and f"VIOLATION property={i}" in r.stdout else bad).append((i, r.stdout[-600:] + r.stderr[-300:]))
            elif r.returncode != 0:
                bad.append((",".join(g) if len(g) < 5 else "all", "\n".join(x for x in r.stdout.splitlines() if not x.startswith(("OK ", "KNOWN-FINDING")))[-1500:] + r.stderr[-300:]))
        if kind == "bug":
            return name, ("ok" if hit else "MISSED"), ("" if hit else str(bad)[:700]) if not hit else hit[0][1].strip().splitlines()[0][:160]
        return name, ("FALSE-ALARM" if bad else "ok"), "\n".join(f"{i}: {o}" for i, o in bad)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    vs = load()
    a = [x for x in sys.argv[1:] if not x.startswith("-")]
    flt = a[0] if a else None
    if flt:
        vs = [v for v in vs if flt in v[0] or flt in str(v[2])]
    verbose = "-v" in sys.argv
    n = 0
    with cf.ThreadPoolExecutor(8) as ex:
        for name, res, msg in ex.map(run, vs):
            if res != "ok" or verbose:
                print(name, res, msg, flush=True)
            n += res == "ok"
    print(f"{n}/{len(vs)} ok")
    sys.exit(0 if n == len(vs) else 1)
