"""C09: catalog changes advance the persistent version."""
import ast

from ..core import *
from ..sql import *
from .util import *

MUT = {"insert", "update", "delete", "alter", "drop", "truncate"}


def mdc(ctx):
    return ctx.proj.cls("MixteraDataCollection")


def roots(ctx, c):
    """Entry points of the catalog: public methods, and private ones that other modules call."""
    p = ctx.proj
    names = {m for m in c.methods if not m.startswith("_")}
    for mod in p.modules.values():
        if "/tests/" in mod.rel or mod is c.module:
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Attribute) and n.attr in c.methods and n.attr.startswith("_") and not n.attr.startswith("__") and not (
                    isinstance(n.value, ast.Name) and n.value.id in ("self", "cls")):
                names.add(n.attr)
    return [c.methods[n] for n in sorted(names)]


def run(ctx):
    ctx.rule("Effect typestate over the recovered SQL of every catalog entry point (helpers inlined): a statement changing datasets, files or "
             "samples makes the path dirty, an increment of the persistent version makes it clean; no path may report success (or end without "
             "a database error) dirty; the version is incremented from the stored value and always read from the database; no other module "
             "changes the catalog tables.")
    c = mdc(ctx)
    for m in roots(ctx, c):
        typestate(ctx, c, m)
    ctx.floor("mutations", 5)
    ctx.floor("version_updates", 2)
    ctx.part(version, ctx, c)
    ctx.part(elsewhere, ctx, c)


def typestate(ctx, c, m):
    fl = ctx.flow(m, None, c, key="mdc")
    g = fl.g
    eff = {}
    for i in g.calls():
        e = effects(fl, i)
        if e:
            eff[i.id] = e
    mut = {i for i, e in eff.items() if any(v in MUT and t in TABLES for v, t in e)}
    ver = {i for i, e in eff.items() if any(v == "update" and t == "version" for v, t in e)}
    rb = {i for i, e in eff.items() if ("rollback", "*") in e}
    ctx.count("entry_points")
    if not mut:
        return
    ctx.count("mutating_entry_points")
    ctx.count("mutations", len(mut))
    ctx.count("version_updates", len(ver))
    fr = g.frames[0]
    ret = (fr.id, "$ret")

    def step(i, s):
        if i.id in mut:
            return [i.id]
        if i.id in ver or i.id in rb:
            return [0]
        return [s]

    def edge(ins, succ, lab, st):
        if lab in ("exc", "exc-base") and no_raise(ins):
            return False
        return st

    for exc in (False, True):
        ex = Explorer(fl, step, edge=edge, follow_exc=exc, watch_keys={ret}, hook=rows_hook(fl))
        vis = ex.run(0)
        ctx.count("explored_states", len(vis))
        for k in vis:
            if k[0] == g.exit.id and k[2]:
                v = ex.truth(dict(k[1]).get(ret))
                if exc and v is False:
                    continue  # reported as failure after an error
                mi = g.ins[k[2]]
                ctx.fail(f"version-not-advanced:{m.name}", f"{m.name} can end {'reporting success' if v is not False else 'without an error'} after "
                         f"{'/'.join(sorted(a + ' ' + b for a, b in eff[mi.id]))} at line {mi.line} without advancing the catalog version "
                         f"afterwards; path {trace(ex.path((g.exit, k[1], k[2])))}", mi.loc)
                break
    ctx.sample(f"{m.name}: {len(mut)} mutating statements, {len(ver)} version updates")


def version(ctx, c):
    seen = 0
    for m in c.methods.values():
        fl = ctx.flow(m, lambda *a: False, c, key="own")
        for i in fl.g.calls():
            for s in statements(fl, i):
                if ("update", "version") in s.effects():
                    seen += 1
                    if re.search(r"version_number\s*=\s*version_number\s*\+\s*[1-9]", s.text):
                        continue
                    f2 = ctx.flow(m, lambda fi, call, fr: False, c, key="own")
                    ok = False
                    if s.params is not None and s.params[0] in ("tuple", "list") and len(s.params) > 1:
                        v = s.params[1]
                        ok = v[0] == "bin" and v[1] == "Add" and any(
                            a[0] == "const" and isinstance(a[1], int) and a[1] > 0 and contains(b, lambda x: is_call_term(x, "get_db_version", "fetchone", "fetchall"))
                            for a, b in ((v[2], v[3]), (v[3], v[2])))
                    if not ok:
                        ctx.fail(f"not-incremented:{m.name}", f"the catalog version is set to {show(s.params) if s.params else s.text}, not to its stored value plus a "
                                 f"positive constant", i.loc)
                    if not re.search(r"where\s+id\s*=\s*1", s.text, re.I) and re.search(r"\bwhere\b", s.text, re.I):
                        ctx.fail(f"not-incremented:{m.name}", f"the version update '{s.text}' does not address the version row", i.loc)
    if not seen:
        ctx.fail("no-version-update", "nothing advances the catalog version", c.module.rel)
    g = ctx.proj.find_method(c, "get_db_version")
    fl = ctx.flow(g, None, c, key="mdc")
    for r in root_returns(fl):
        t = fl.term(r.args[0])
        for a in alts(t):
            ctx.count("version_reads")
            fetch = [x for x in subterms(a) if x[0] == "call" and last(x[1]).startswith("fetch")]
            if not fetch:
                ctx.fail("version-not-read", f"get_db_version can return {show(a)} instead of the value stored in the catalog", r.loc)
    reads = [i for i in fl.g.calls() if any(re.search(r"select\b.*\bversion_number\b.*\bfrom version\b", s.text, re.I) for s in statements(fl, i))]
    rets = {r.id for r in root_returns(fl)}
    bad, ex = must_pass(fl, fl.g.entry, lambda i: i.id in rets, lambda i: i in reads, follow_exc=False)
    if bad or not reads:
        ctx.fail("version-not-read", "get_db_version can return without reading the stored version", fl.g.func.module.rel)


def elsewhere(ctx, c):
    n = 0
    for f in ctx.proj.funcs.values() if hasattr(ctx.proj, "funcs") else all_funcs(ctx):
        if "/tests/" in f.module.rel or f.cls is c:
            continue
        if not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("execute", "executemany", "sql", "append")
                   for x in ast.walk(f.node)):
            continue
        fl = ctx.flow(f, lambda *a: False, key="own")
        for i in fl.g.calls():
            e = effects(fl, i)
            n += bool(statements(fl, i))
            if any(v in MUT and t in TABLES + ("version",) for v, t in e):
                ctx.fail(f"foreign-mutation:{f.name}", f"{f.name} changes the catalog tables outside the data collection: {e}", i.loc)
    ctx.count("foreign_statements", n)


def all_funcs(ctx):
    out = []
    for m in ctx.proj.modules.values():
        for f in m.funcs.values():
            out.append(f)
        for c in m.classes.values():
            out += list(c.methods.values())
    return out
