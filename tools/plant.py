#!/usr/bin/env python3
"""Build and validate planted bugs: plant.py [--notest] NAME... reads tools/plants/NAME.py with PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new)]
and DEMO (python source using mxdemo); writes /verif/seeded/NAME and reports whether it is valid and which checks catch it."""
import glob
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def sh(cmd, cwd, timeout=600, env=None):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)


def tests(d):
    out = tempfile.mkdtemp(prefix="mxt_")
    e = dict(os.environ, PYTHONPATH=d, PYTHONDONTWRITEBYTECODE="1")
    sh(f"/opt/venv/bin/python -m pytest -q -p no:cacheprovider -o addopts= -o python_files='test_*.py text_*.py' --ignore-glob='*/__init__.py' --basetemp={out}/tmp "
       f"--timeout=300 --continue-on-collection-errors -o junit_family=xunit2 --junitxml={out}/j.xml mixtera", d, 800, e)
    ok = set()
    for tc in ET.parse(f"{out}/j.xml").iter("testcase"):
        if not [c for c in tc if c.tag in ("failure", "error", "skipped")]:
            ok.add(f"{tc.get('classname')}::{tc.get('name')}")
    shutil.rmtree(out, ignore_errors=True)
    return [t for t in BASE if t not in ok]


def plant(name, notest, demo_only=False):
    spec = importlib.util.spec_from_file_location(name, f"{HERE}/tools/plants/{name}.py")
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    tmp = tempfile.mkdtemp(prefix="mxp_")
    res = {}
    try:
        sh(f"git clone -q /repo {tmp}/r", "/")
        r = f"{tmp}/r"
        for f, old, new in m.EDITS:
            p = f"{r}/{f}"
            s = open(p).read()
            if s.count(old) != 1:
                return f"{name}: text found {s.count(old)} times in {f}: {old[:70]!r}"
            open(p, "w").write(s.replace(old, new))
        diff = sh("git diff", r).stdout
        # only original lines may be changed
        mine = []
        for line in sh("git blame -s HEAD -- " + " ".join({e[0] for e in m.EDITS}), r).stdout.splitlines() if False else []:
            mine.append(line)
        for f in {e[0] for e in m.EDITS}:
            bl = sh(f"git blame -s HEAD -- {f}", r).stdout.splitlines()
            base = sh("git rev-list --max-parents=0 HEAD", r).stdout.strip()[:8]
            hunk = sh(f"git diff -U0 -- {f}", r).stdout
            import re
            for h in re.finditer(r"^@@ -(\d+)(?:,(\d+))? ", hunk, re.M):
                a, n = int(h[1]), int(h[2] or 1)
                for k in range(a, a + n):
                    if not bl[k - 1].lstrip("^").startswith(base[:7]):
                        res["WARN"] = f"changes own line {f}:{k}"
        dst = f"{HERE}/seeded/{name}"
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        open(f"{dst}/patch.diff", "w").write(diff)
        for f in ("mxdemo.py",):
            shutil.copy(f"{HERE}/tools/{f}", dst)
        shutil.copy(f"{HERE}/tools/stubs/mxstub.py", dst)
        open(f"{dst}/demo.py", "w").write(m.DEMO.lstrip("\n"))
        open(f"{dst}/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves as stated; nonzero: the property is broken\nhere="$(cd "$(dirname "$0")" && pwd)"\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD:$here" exec /opt/venv/bin/python "$here/demo.py"\n')
        os.chmod(f"{dst}/demo.sh", 0o755)
        json.dump({"property": m.PROPERTY, "needs": m.NEEDS, "what_it_breaks": m.BREAKS}, open(f"{dst}/meta.json", "w"), indent=1)
        b = sh(f"bash {dst}/demo.sh", r, 300)
        res["demo_bug"] = b.returncode
        c = sh(f"bash {dst}/demo.sh", "/repo", 300)
        res["demo_clean"] = c.returncode
        if b.returncode == 0 or "FAILED" not in b.stdout:
            res["bugout"] = (b.stdout + b.stderr)[-600:]
        else:
            res["msg"] = b.stdout.strip()[-200:]
        if c.returncode:
            res["cleanout"] = (c.stdout + c.stderr)[-1200:]
        if not notest:
            res["tests_lost"] = tests(r)
        env = dict(os.environ, MXLINT_REPO=r, MXLINT_EVIDENCE=f"{tmp}/ev")
        hits = []
        for k in sorted(x[:-3].upper() for x in os.listdir(f"{HERE}/mxlint/checks") if x[0] == "c" and x[1:3].isdigit()):
            x = subprocess.run([sys.executable, f"{HERE}/run.py", k], env=env, capture_output=True, text=True)
            if x.returncode:
                hits.append(f"{k}:{x.returncode}")
                if k == m.PROPERTY:
                    res["check"] = x.stdout.strip().splitlines()[0][:220] if x.stdout.strip() else x.stderr[-200:]
        res["hits"] = hits
        res["CAUGHT"] = f"{m.PROPERTY}:1" in hits
        return f"{name} [{m.PROPERTY}]: " + json.dumps(res, indent=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    if not names:
        names = sorted(os.path.basename(x)[:-3] for x in glob.glob(f"{HERE}/tools/plants/*.py"))
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        for o in ex.map(lambda n: plant(n, "--notest" in sys.argv), names):
            print(o, flush=True)
