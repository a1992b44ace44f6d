"""Check runner support: findings, known findings, evidence, shared graph construction."""
from __future__ import annotations

import importlib
import json
import os
import sys
import time
import traceback

from .project import Project, AnchorError, FuncInfo, ClassInfo, dotted
from .ir import Builder
from .flow import Flow, Explorer, show, trace, alts, subterms, contains

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("MXLINT_EVIDENCE", os.path.join(HERE, "evidence"))
KNOWN = os.path.join(HERE, "known_findings.txt")


_SHARED = {}


class Ctx:
    def __init__(self, pid, tier, repo=None):
        self.pid, self.tier = pid, tier
        if os.environ.get("MXLINT_SHARE"):  # self tests: several checks on one tree in one process
            key = repo or os.environ.get("MXLINT_REPO")
            self.proj = _SHARED.get(key) or _SHARED.setdefault(key, Project(repo))
        else:
            self.proj = Project(repo)
        self.findings = []  # (key, message)
        self.counts = {}
        self.samples = []
        self.rules = []
        self.files = set()
        self.functions = set()
        self.assumptions = []
        self._flows = {}
        self.parts_ok = 0
        self.broken = []  # parts of the check that did not recognise their subject

    def part(self, f, *args):
        """Run one independent part of a check; a part that loses its anchor does not hide what the others find."""
        try:
            r = f(*args)
            self.parts_ok += 1
            return r
        except AnchorError as e:
            self.broken.append(str(e))
            return None

    # ---- evidence
    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s, cap=14):
        if len(self.samples) < cap:
            self.samples.append(s)

    def rule(self, text):
        self.rules.append(text)

    def saw(self, flow_or_func):
        g = getattr(flow_or_func, "g", None)
        if g is not None:
            for f in g.funcs_seen.values():
                self.functions.add(f.qual)
                self.files.add(f.module.rel)
        else:
            self.functions.add(flow_or_func.qual)
            self.files.add(flow_or_func.module.rel)

    def floor(self, name, n):
        """Instance-count floor: fewer instances than confirmed by hand means the rule no longer sees its subject."""
        if self.counts.get(name, 0) < n:
            raise AnchorError(f"{name}: found {self.counts.get(name, 0)} instances, expected at least {n}")

    # ---- findings
    def fail(self, key, msg, loc=None):
        self.findings.append((f"{self.pid}:{key}", (f"{loc}: " if loc else "") + msg))

    # ---- graphs
    def flow(self, func, inline=None, selfcls=None, key=None, **kw):
        """Flow for func with an inline policy. inline: callable or None (= same class hierarchy and module)."""
        k = (func.qual, selfcls.qual if selfcls else None, key)
        if key is not None and k in self._flows:
            return self._flows[k]
        if inline is None:
            inline = self.local_policy(func, selfcls)
        b = Builder(self.proj, inline, **kw)
        g = b.build(func, selfcls)
        f = Flow(g)
        self.saw(f)
        if key is not None:
            self._flows[k] = f
        return f

    def local_policy(self, func, selfcls=None, stop=()):
        cls = selfcls or func.cls
        mro = set(c.qual for c in self.proj.mro(cls)) if cls is not None else set()

        def pol(fi, call, frame):
            if fi.name in stop or fi.qual in stop:
                return False
            return fi.module is func.module or (fi.cls is not None and fi.cls.qual in mro)

        return pol


def load_known():
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known:"):
                # known: property=C01 key=<key> :: description
                head, _, desc = line[6:].partition("::")
                d = dict(x.split("=", 1) for x in head.split())
                known[(d["property"], d["key"])] = desc.strip()
    return known


def run_check(pid, tier="quick", repo=None, quiet=False):
    t0 = time.time()
    mod = importlib.import_module(f"mxlint.checks.{pid.lower()}")
    ctx = None
    try:
        ctx = Ctx(pid, tier, repo)
        mod.run(ctx)
        if ctx.broken and not ctx.parts_ok:
            raise AnchorError("; ".join(ctx.broken))
    except AnchorError as e:
        # "cannot tell" is only the answer if nothing wrong has been found either
        if ctx is None or not [k for k, _ in ctx.findings if (pid, k.split(":", 1)[1].replace(" ", "_")) not in load_known()]:
            print(f"ERROR property={pid} analysis broken: {e}")
            return 2
    except Exception:
        traceback.print_exc()
        print(f"ERROR property={pid} internal error")
        return 2
    known = load_known()
    seen, viol, kn = set(), [], []
    for key, msg in ctx.findings:
        if (key, msg) in seen:
            continue
        seen.add((key, msg))
        k = key.split(":", 1)[1].replace(" ", "_")
        if (pid, k) in known:
            kn.append((k, known[(pid, k)]))
        else:
            viol.append((k, msg))
    os.makedirs(EVID, exist_ok=True)
    cov = {
        "explanation": "Static analysis of the current source of /repo. Rules: " + " || ".join(ctx.rules),
        "files_analysed": sorted(ctx.files),
        "functions_analysed": len(ctx.functions),
        "functions": sorted(ctx.functions)[:60],
        **{k: v for k, v in sorted(ctx.counts.items())},
        "samples": ctx.samples or ["-"],
        "source_digest": ctx.proj.digest(),
    }
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "wall_s": round(time.time() - t0, 3)}
    if ctx.broken:
        # parts that do not recognise their subject decide nothing; the others were explored completely
        cov["undecided_parts"] = ctx.broken
        for b in ctx.broken:
            print(f"UNDECIDED property={pid} part: {b}")
    if ctx.assumptions:
        ev["assumptions"] = ctx.assumptions
    if viol:
        ev["violations"] = len(viol)
    with open(os.path.join(EVID, f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k, d in dict(kn).items():
        print(f"KNOWN-FINDING: property={pid} {k}: {d}")
    if viol:
        rp = os.path.join(EVID, f"{pid}.violations.txt")
        with open(rp, "w") as f:
            for k, m in viol:
                f.write(f"{k}\n    {m}\n")
        for k, m in viol:
            print(f"  [{k}] {m}")
        print(f"VIOLATION property={pid} replay={rp}")
        return 1
    if not quiet:
        print(f"OK property={pid} " + " ".join(f"{k}={v}" for k, v in sorted(ctx.counts.items())))
    return 0


def main(argv):
    tier = "quick"
    ids = []
    for a in argv:
        if a.startswith("--tier="):
            tier = a.split("=")[1]
        else:
            ids.append(a)
    rc = 0
    for i in ids:
        r = run_check(i, tier)
        rc = max(rc, r)
    return rc
