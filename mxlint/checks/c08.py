"""C08: cached results are served only for the same query text on the same catalog version."""
from ..core import *
from .util import *

LOADS = {"load", "loads"}
DUMPS = {"dump", "dumps"}


def cache_cls(ctx):
    return ctx.proj.cls("QueryCache")


def cache_flows(ctx):
    c = cache_cls(ctx)
    look = ctx.proj.find_method(c, "get_queryresults_if_cached")
    wr = ctx.proj.find_method(c, "cache_query")
    if look is None or wr is None:
        raise AnchorError("QueryCache lookup/writer not found")
    return ctx.flow(look, key="cache"), ctx.flow(wr, key="cache")


def is_version(t):
    return t[0] == "call" and callname(t) == "get_db_version"


def is_text(t):
    return (t[0] == "call" and t[1] == "str" and len(t[3]) == 1 and t[3][0][0] == "param") or \
        (t[0] == "call" and callname(t) == "__str__" and t[2] is not None and t[2][0] == "param") or \
        (t[0] == "fstr" and len(t) == 2 and t[1][0] == "param")


def meta_dump(fl):
    """(dump ins, {key: value term}) of the entry's metadata in the writer."""
    out = []
    for i in fl.g.calls():
        if last(i.fn) in DUMPS and (i.args or i.kw):
            t = arg_term(i, fl, 0, "obj")
            if t is None:
                continue
            d = {}
            if t[0] == "dict":
                d = {kv[0]: kv[1] for kv in t[1:]}
            elif t[0] == "dict0":
                pass
            elif t[0] in ("tuple", "list"):
                d = {("const", n): v for n, v in enumerate(t[1:])}
            elif t[0] == "call" and t[1] == "dict":
                d = {("const", k): v for k, v in t[4]}
            if t[0] in ("dict", "dict0"):
                for _, k, v in fl.items_set(t):
                    d[k] = v
            if d:
                out.append((i, d))
    return out


def roles(ctx, fl):
    ds = meta_dump(fl)
    if not ds:
        raise AnchorError("no metadata written by the cache writer")
    ctx.count("metadata_writes", len(ds))
    ver = text = None
    for i, d in ds:
        for k, v in d.items():
            if contains(v, is_version) or any(a[0] == "param" and "version" in a[1] for a in alts(v)):
                ver = k
            if is_text(v):
                text = k
    return ds, ver, text


def run(ctx):
    ctx.rule("Constant propagation through the lookup for each outcome of its comparisons: whenever the stored text differs from str(query), or the stored "
             "version is older or newer than the catalog's, only None can be returned; the result and path returned belong to the entry whose "
             "metadata was compared; the writer stores str(query) and the version read before the query was executed into a fresh directory; "
             "a cached result is bound to the mixture and job of the request; every operator attribute that influences the generated SQL is "
             "rendered unabridged into the query text, for every node of the plan and with its depth.")
    look, wr = cache_flows(ctx)
    ds, ver, text = roles(ctx, wr)
    if ver is None:
        ctx.fail("version-not-stored", "the cache entry does not record the catalog version", ds[0][0].loc)
    if text is None:
        ctx.fail("text-not-stored", "the cache entry does not record str(query)", ds[0][0].loc)
    ctx.part(lookup, ctx, look, ver, text)
    ctx.part(writer, ctx, wr, ds)
    ctx.part(callers, ctx)
    ctx.part(texts, ctx)


def meta_loads(fl):
    return [i for i in fl.g.calls() if last(i.fn) in LOADS and not (i.fn or "").startswith("dill") or last(i.fn) == "read_meta"]


def lookup(ctx, fl, ver, text):
    g = fl.g
    fr = g.frames[0]
    ret = (fr.id, "$ret")

    def hooker(sv, st):
        def hook(d):
            if d.op == "call" and last(d.fn) == "get_db_version":
                return ("c", 6)
            if d.op == "call" and is_text(fl.term(d.dst)):
                return ("c", "Q")
            k = None
            if d.op == "call" and d.data in ("get", "pop") and d.recv is not None and d.args and stored(fl.term(d.recv)):
                k = fl.term(d.args[0])
            elif d.op == "item" and stored(fl.term(d.args[0])):
                k = fl.term(d.args[1])
            elif d.op == "unpack" and stored(fl.term(d.args[0])):
                k = ("const", d.data)
            if k is not None:
                if k == ver:
                    return ("c", sv)
                if k == text:
                    return ("c", st)
            return None
        return hook

    for name, sv, st in (("older catalog version", 5, "Q"), ("newer catalog version", 7, "Q"), ("different query text", 6, "OTHER"),
                         ("no recorded version", None, "Q")):
        ex = Explorer(fl, lambda i, s: [s], follow_exc=True, hook=hooker(sv, st), watch_keys={ret})
        vis = ex.run(0)
        ctx.count("lookup_scenarios")
        ctx.count("explored_states", len(vis))
        for k in vis:
            if k[0] == g.exit.id:
                v = dict(k[1]).get(ret)
                if v != ("c", None):
                    ctx.fail(f"served:{name}", f"the lookup can return {v or 'a result'} for an entry with {name}; path "
                             f"{trace(ex.path((g.exit, k[1], k[2])))}", fl.g.func.module.rel)
                    break
    ex = Explorer(fl, lambda i, s: [s], follow_exc=False, hook=hooker(6, "Q"), watch_keys={ret})
    if any(k[0] == g.exit.id and dict(k[1]).get(ret) != ("c", None) for k in ex.run(0)):
        ctx.count("hits_possible")
    # what is returned
    n = 0
    for r in root_returns(fl):
        for t in alts(fl.term(r.args[0])) if r.args else []:
            if t == ("const", None):
                continue
            n += 1
            if t[0] != "tuple" or len(t) != 3:
                ctx.fail("returned", f"the lookup returns {show(t)}", r.loc)
                continue
            res, path = t[1], t[2]
            for a in alts(res):
                if not is_call_term(a, "from_cache") or not a[3]:
                    ctx.fail("returned", f"the result returned is {show(a)}, not loaded from the entry", r.loc)
                    continue
                if not same(a[3][0], path):
                    ctx.fail("returned-entry", f"the result is loaded from {show(a[3][0])} but reported as {show(path)}", r.loc)
                metas = [fl.term(i.dst) for i in meta_loads(fl)]
                ok = any(contains(m, lambda x: strip_ids(x) == strip_ids(a[3][0])) for m in metas)
                if not ok:
                    ctx.fail("returned-entry", f"the entry returned ({show(a[3][0])}) is not the one whose metadata was compared "
                             f"({', '.join(show(m) for m in metas)})", r.loc)
    ctx.count("returned_results", n)
    ctx.floor("returned_results", 1)


def stored(t):
    return t[0] == "call" and callname(t) in LOADS or (t[0] == "phi" and all(stored(x) for x in t[1]))


def writer(ctx, fl, ds):
    g = fl.g
    tc = [i for i in g.calls() if last(i.fn) == "to_cache"]
    ctx.count("result_writes", len(tc))
    ctx.floor("result_writes", 1)
    for i in tc:
        d = arg_term(i, fl, 0, "path")
        fresh = False
        for m in g.calls():
            if last(m.fn) in ("mkdir", "makedirs"):
                t = fl.term(m.recv) if m.recv is not None and not (m.fn or "").startswith("os.") else arg_term(m, fl, 0, "name")
                eo = const_arg(m, fl, 2 if m.recv is not None else None, "exist_ok", False)
                if same(t, d) and eo in (("const", False), ("const", None)):
                    bad, _ = must_pass(fl, g.entry, lambda x: x is i, lambda x: x is m, follow_exc=False)
                    fresh = fresh or not bad
        if not fresh and not contains(d, lambda x: is_call_term(x, "mkdtemp", "TemporaryDirectory")):
            ctx.fail("entry-not-fresh", f"results are written into {show(d)}, which is not a directory freshly created for this entry", i.loc)
        for di, dd in ds:
            f = arg_term(di, fl, 1, "file")
            if f is not None and not contains(f, lambda x: strip_ids(x) == strip_ids(d)):
                ctx.fail("metadata-elsewhere", f"metadata is written to {show(f)} but results to {show(d)}", di.loc)
        # the results written are those of the query whose text is recorded
        r = fl.term(i.recv) if i.recv is not None else None
        texts = {strip_ids(t[3][0]) for _, dd in ds for v in dd.values() for t in [v] if is_text(v) and t[0] == "call" and t[3]}
        if r is not None and texts and not any(contains(r, lambda x: strip_ids(x) in texts) for _ in (0,)):
            ctx.fail("foreign-results", f"the stored results {show(r)} are not those of the query whose text is recorded", i.loc)


def callers(ctx):
    """The version recorded must have been read before the query was executed."""
    p = ctx.proj
    stub = p.cls("LocalStub")
    cache = cache_cls(ctx)
    quals = {c.qual for c in p.mro(stub)} | {c.qual for c in p.mro(cache)}

    def pol(fi, call, frame):
        return fi.cls is not None and fi.cls.qual in quals

    n = 0
    for m in stub.methods.values():
        fl = ctx.flow(m, pol, stub, key="stubcache")
        g = fl.g
        dumps = meta_dump(fl)
        execs = [i for i in g.calls() if last(i.fn) == "execute" and i.recv is not None]
        if dumps and execs:
            n += 1
            feeding = set()
            for di, d in dumps:
                for v in d.values():
                    for x in subterms(v):
                        if is_version(x):
                            feeding.add(x[-1])
            ids = {i.id for i in execs}

            def hook(d):
                if d.op == "call" and last(d.fn) == "get_db_version":
                    return "truthy"
                return None

            ex = Explorer(fl, lambda i, s: [1 if i.id in ids else s], follow_exc=False, hook=hook)
            vis = ex.run(0)
            for k in vis:
                if k[0] in feeding and k[2] == 1:
                    i = g.ins[k[0]]
                    ctx.fail("version-read-late", f"{m.name}: the catalog version recorded for the cache entry is read after the query was "
                             f"executed; a change in between would be hidden; path {trace(ex.path((i, k[1], k[2])))}", i.loc)
                    break
            ctx.sample(f"{m.name}: version read before execute")
        looks = [i for i in g.calls() if last(i.fn) == "from_cache"]
        if looks and execs:
            bind(ctx, m, fl)
    ctx.count("executing_callers", n)
    ctx.floor("executing_callers", 1)


def bind(ctx, m, fl):
    """cached results get the mixture and log directory of this request before being registered."""
    g = fl.g
    mix = [i for i in g.calls() if last(i.fn) == "update_mixture"]
    regs = [i for i in g.calls() if last(i.fn) == "ChunkDistributor"]
    if not regs:
        return
    src = [i for i in g.calls() if last(i.fn) == "from_cache"]
    for s in src:
        for nm, via in (("mixture", lambda i: i in mix and from_args(fl, i.args[0] if i.args else None)),
                        ("log directory", lambda i: i.op == "setattr" and i.data == "_query_log_dir"),
                        ("key ids", lambda i: i.op == "setattr" and i.data == "_key_id_map")):
            # only paths on which the cached result is used: the query is not executed
            bad, ex = must_pass(fl, s, lambda i: i in regs, via, follow_exc=False,
                                via_edge=None, kill=None, hook=lambda d: "truthy" if d.op == "call" and last(d.fn) == "from_cache" else (
                                    "truthy" if d.op == "tuple" and any(contains(fl.term(a), lambda x: is_call_term(x, "from_cache")) for a in d.args) else None))
            ctx.count("binding_obligations")
            if bad:
                ctx.fail(f"cached-not-bound:{nm}", f"{m.name}: a cached result is registered without setting the {nm} of this request; path "
                         f"{trace(ex.path(bad[0]))}", s.loc)


def from_args(fl, t):
    return t is not None and contains(fl.term(t), lambda x: x[0] == "param")


# ------------------------------------------------------------------ canonical query text
def texts(ctx):
    p = ctx.proj
    base = p.cls("Operator")
    ops = [c for c in p.subclasses(base) if "/tests/" not in c.module.rel]
    ctx.count("operators", len(ops))
    ctx.floor("operators", 1)
    for c in ops:
        gen = p.find_method(c, "generate_sql")
        if gen is None:
            continue
        fl = ctx.flow(gen, None, c, key="sql")
        attrs = {}
        for i in fl.g.of("attr"):
            if i.data in fields_of(p, c) and not p.find_method(c, i.data):
                b = fl.term(i.args[0])
                if b == ("self",) or contains(b, lambda x: x[0] == "attr" and x[2] == "children"):
                    attrs.setdefault(i.data, i)
        st = p.find_method(c, "__str__")
        sfl = ctx.flow(st, None, c, key="str")
        rt = mkphi([sfl.term(r.args[0]) for r in root_returns(sfl) if r.args])
        string = p.find_method(c, "string")
        tfl = ctx.flow(string, lambda fi, call, fr: fi.name not in ("__str__", "string") and fi.cls is not None and fi.cls.qual in {k.qual for k in p.mro(c)}, c, key="string")
        tt = mkphi([tfl.term(r.args[0]) for r in root_returns(tfl) if r.args])
        for a, i in sorted(attrs.items()):
            ctx.count("sql_attributes")
            if a == "children":
                continue
            for alt in alts(rt):
                if not lossless(alt, ("attr", ("self",), a), sfl):
                    ctx.fail(f"text-omits:{c.name}.{a}", f"{c.name}.{a} influences the generated SQL (line {i.line}) but is not rendered unabridged "
                             f"into the query text: {show(alt)}", st.module.rel)
        node_string(ctx, c, tfl, tt)
    q = p.cls("Query")
    plan = p.cls("QueryPlan")
    for c, inner in ((q, "query_plan"), (plan, "root")):
        st = p.find_method(c, "__str__")
        fl = ctx.flow(st, lambda *a: False, c, key="str")
        fr = fl.g.frames[0]
        ex = Explorer(fl, lambda i, s: [s], follow_exc=False, track_fields=True,
                      hook=lambda d: "truthy" if d.op == "attr" and d.data == inner else None)
        vis = {k[0] for k in ex.run(0)}
        for r in root_returns(fl):
            if r.id not in vis:
                continue
            t = fl.term(r.args[0])
            ok = whole(t, lambda x: x[0] == "call" and (callname(x) == "string" and x[2] == ("attr", ("self",), inner)
                                                        or x[1] == "str" and x[3] == (("attr", ("self",), inner),)))
            ctx.count("text_levels")
            if not ok:
                ctx.fail(f"text:{c.name}", f"str({c.name}) is {show(t)}, which does not contain the complete text of its {inner}", r.loc)


def fields_of(p, c):
    out = set()
    for k in p.mro(c):
        init = k.methods.get("__init__")
        if init is None:
            continue
        import ast
        for n in ast.walk(init.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == "self":
                out.add(n.attr)
    return out


WRAP = {"str", "repr", "format", "ascii", "list", "tuple"}


def lossless(t, attr, fl, depth=0):
    """attr is rendered completely inside string term t."""
    if depth > 12 or t is None:
        return False
    if t == attr:
        return True
    if t[0] == "phi":
        return all(lossless(x, attr, fl, depth + 1) for x in t[1])
    if t[0] == "fstr":
        return any(lossless(x, attr, fl, depth + 1) for x in t[1:])
    if t[0] == "fmt":
        return t[2] in ("!r", "!a") and lossless(t[1], attr, fl, depth + 1)
    if t[0] in ("tuple", "list"):
        return any(lossless(x, attr, fl, depth + 1) for x in t[1:])
    if t[0] == "bin" and t[1] in ("Add", "Mod"):
        return lossless(t[2], attr, fl, depth + 1) or lossless(t[3], attr, fl, depth + 1)
    if t[0] == "call":
        if t[1] in WRAP and len(t[3]) == 1:
            return lossless(t[3][0], attr, fl, depth + 1)
        if callname(t) == "format" and t[2] is not None and t[2][0] == "const":
            return any(lossless(x, attr, fl, depth + 1) for x in t[3]) or any(lossless(x, attr, fl, depth + 1) for _, x in t[4])
        if callname(t) == "join" and t[3]:
            return lossless(t[3][0], attr, fl, depth + 1)
        if callname(t) == "dumps" and t[3]:
            return lossless(t[3][0], attr, fl, depth + 1)
        if t[1] == "map" and len(t[3]) == 2 and t[3][0] in (("global", "builtins.str"), ("global", "str"), ("global", "repr")):
            return lossless(t[3][1], attr, fl, depth + 1)
    if t[0] == "comp" and len(t) == 3:
        el = ("elem", attr)
        x = t[2]
        return whole(x, lambda y: y == el)
    return False


def whole(t, pred, depth=0):
    """Some sub-term satisfying pred reaches t through pure string composition only (no slicing, hashing, truncation)."""
    if depth > 14 or t is None:
        return False
    if pred(t):
        return True
    if t[0] == "phi":
        return all(whole(x, pred, depth + 1) for x in t[1])
    if t[0] in ("fstr", "list", "tuple"):
        return any(whole(x, pred, depth + 1) for x in t[1:])
    if t[0] == "fmt":
        return t[2] in ("!r", "!a") and whole(t[1], pred, depth + 1)
    if t[0] == "bin" and t[1] in ("Add", "Mod"):
        return whole(t[2], pred, depth + 1) or whole(t[3], pred, depth + 1)
    if t[0] == "comp" and len(t) == 3:
        return whole(t[2], pred, depth + 1)
    if t[0] == "call":
        if callname(t) in ("strip", "rstrip", "lstrip", "encode") and t[2] is not None:
            return whole(t[2], pred, depth + 1)
        if callname(t) in WRAP | {"join"} and t[3]:
            return whole(t[3][0], pred, depth + 1) or (t[2] is not None and callname(t) == "format" and any(whole(x, pred, depth + 1) for x in t[3]))
    return False


def node_string(ctx, c, fl, t):
    cont = list(contributions(fl, t))
    selftext = any((x[0] == "call" and (x[1] == "str" and x[3] == (("self",),) or callname(x) == "__str__" and x[2] == ("self",)))
                   or (x[0] == "fstr" and ("self",) in x[1:]) for x in cont)
    ctx.count("plan_nodes")
    if not selftext:
        ctx.fail(f"text-node:{c.name}", f"{c.name}.string does not contain str(self)", fl.g.func.module.rel)
    rec = [x for x in cont if x[0] == "call" and callname(x) == "string" and x[2] is not None
           and contains(x[2], lambda y: y == ("attr", ("self",), "children"))]
    el = ("elem", ("attr", ("self",), "children"))
    if not any(elem_of_children(x[2]) for x in rec):
        ctx.fail(f"text-children:{c.name}", f"{c.name}.string does not contain the text of every child", fl.g.func.module.rel)
    lvl = [p for p in fl.g.func.params()[1:2]]
    if lvl:
        L = ("param", lvl[0])
        deeper = any(any(contains(a, lambda y: y[0] == "bin" and y[1] == "Add" and L in (y[2], y[3])) for a in list(x[3]) + [v for _, v in x[4]]) for x in rec)
        marked = any(x[0] == "bin" and x[1] == "Mult" and L in (x[2], x[3]) for x in cont)
        if not deeper or not marked:
            ctx.fail(f"text-depth:{c.name}", f"{c.name}.string does not mark the depth of nodes (nested and sequential plans would share a text)",
                     fl.g.func.module.rel)
    # every iteration over the children adds the child's text
    for nx in fl.g.of("next"):
        it = fl.term(nx.args[0])
        if not contains(it, lambda y: y == ("attr", ("self",), "children")):
            continue
        ids = {x[-1] for x in rec}
        body = [s for s, l in nx.succ if l == "next"]
        for b in body:
            bad, ex = must_pass(fl, b, lambda i: i is nx, lambda i: i.id in ids, follow_exc=False)
            if bad:
                ctx.fail(f"text-children:{c.name}", f"{c.name}.string can skip a child; path {trace(ex.path(bad[0]))}", nx.loc)


def elem_of_children(t):
    return t[0] == "elem" and t[1] == ("attr", ("self",), "children") or (t[0] == "phi" and all(elem_of_children(x) for x in t[1]))
