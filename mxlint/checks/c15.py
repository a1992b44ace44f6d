"""C15: all nodes of a data-parallel group receive the same chunks, each exactly once."""
from ..core import *
from ..flow import Explorer, strip_ids
from .util import *

CC, CU, NX = "_chunk_cache", "_chunk_usage", "_next_chunk"


def run(ctx):
    ctx.rule("Path exploration of ChunkDistributor.next_chunk_for with the chunk in memory, missing, and no chunk left: exactly one chunk is taken from the job iff "
             "it is missing, it is stored under the asking worker's cursor for the asking group only, the usage count of that chunk grows by one, the cursor of exactly the asking "
             "node and worker advances by the number of workers, what is returned is that chunk, and a chunk leaves memory only when the next chunk of the same worker "
             "has been asked for by all nodes. Start cursors are the worker numbers. No other method changes this bookkeeping. Group, node and worker ids keep their roles at every call.")
    ctx.part(handout, ctx)
    ctx.part(start, ctx)
    ctx.part(others, ctx)
    ctx.part(stream, ctx)
    ctx.part(roles, ctx)
    ctx.part(shards, ctx)


def cls(ctx):
    return ctx.proj.cls("ChunkDistributor")


def base_of(t, roots=None):
    """('attr', self, X) at the root of a chain of subscripts -> (X, [keys]); roots: other names of these objects."""
    ks = []
    while t[0] == "item" or t[0] == "call" and callname(t) in ("get", "setdefault") and t[2] is not None and t[3]:
        if t[0] == "item":
            ks.append(t[2])
            t = t[1]
        else:
            ks.append(t[3][0])
            t = t[2]
    if t[0] == "attr" and t[1] == ("self",):
        return t[2], tuple(reversed(ks))
    if roots and t in roots:
        return roots[t], tuple(reversed(ks))
    return None, ()


def handout(ctx):
    c = cls(ctx)
    m = ctx.proj.find_method(c, "next_chunk_for")
    if m is None:
        raise AnchorError("next_chunk_for not found")
    fl = ctx.flow(m, None, c, key="hand")
    g = fl.g
    P = [("param", n) for n in m.params()[1:4]]
    DP, ND, WK = P
    W = ("attr", ("self",), "_num_workers")
    NPG = ("attr", ("self",), "_nodes_per_group")
    for i in g.live:
        if i.op in ("item", "setitem", "delitem"):
            t = ("item", fl.term(i.args[0]), fl.term(i.args[1]))
            b, ks = base_of(t)
            if b in (CC, CU, NX):
                ctx.count("bookkeeping_accesses")
                want = {1: DP, 2: ND, 3: WK} if b == NX else {1: DP}
                k = len(ks)
                if k in want and ks[k - 1] != want[k]:
                    ctx.fail("foreign-slot", f"the bookkeeping {b} is accessed under {show(ks[k - 1])} instead of {show(want[k])}", i.loc)
    ctx.floor("bookkeeping_accesses", 6)

    def N(t):
        return all(base_of(a) == (NX, (DP, ND, WK)) for a in alts(t))

    def slot(t, which):
        b, ks = base_of(t)
        return b == which and ks == (DP,)

    fetches = {i.id for i in g.calls() if (i.fn == "next" and i.args and fl.term(i.args[0]) == ("attr", ("self",), "_query_result")) or
               (last(i.fn) == "__next__" and i.recv is not None and fl.term(i.recv) == ("attr", ("self",), "_query_result"))}
    if not fetches:
        raise AnchorError("no chunk is taken from the job")

    def fetched(t):
        return t[0] == "call" and t[5] in fetches

    def ser(t):
        return t[0] == "call" and callname(t) == "dumps" and t[3] and fetched(t[3][0])

    def cached(t):
        b, ks = base_of(t)
        return b == CC and len(ks) == 2 and ks[0] == DP and N(ks[1])

    def usage_term(t):
        b, ks = base_of(t)
        return b == CU and len(ks) == 2 and ks[0] == DP and N(ks[1])

    def member(d):
        """(polarity) of a membership test of the cursor in the memory."""
        if d.op == "cmp" and d.data in ("In", "NotIn"):
            l, r = fl.term(d.args[0]), fl.term(d.args[1])
            if r[0] == "call" and callname(r) == "keys":
                r = r[2]
            if N(l) and (slot(r, CC) or slot(r, CU)):
                return d.data == "In"
        return None

    members = [i for i in g.of("cmp") if member(i) is not None]
    gets = [i for i in g.calls() if last(i.fn) == "get" and i.recv is not None and slot(fl.term(i.recv), CC) and i.args and N(fl.term(i.args[0]))]
    ctx.count("memory_tests", len(members) + len(gets))
    if not members and not gets:
        raise AnchorError("test whether the chunk is in memory not recognised")
    adv = []
    for i in g.of("setitem"):
        b, ks = base_of(("item", fl.term(i.args[0]), fl.term(i.args[1])))
        if b == NX and len(ks) == 3:
            adv.append(i)
            v = fl.term(i.args[2])
            ok = v[0] == "bin" and v[1] == "Add" and (N(v[2]) and v[3] == W or N(v[3]) and v[2] == W)
            if not ok:
                ctx.fail("cursor-step", f"the cursor is set to {show(v)} instead of being advanced by the number of workers", i.loc)
        elif b == NX:
            ctx.fail("cursor-step", f"cursors of other nodes or workers are changed ({show(fl.term(i.args[0]))})", i.loc)
        elif b == CC:
            if len(ks) != 2 or not N(ks[1]):
                ctx.fail("wrong-key", f"a chunk is stored under {show(ks[-1])} instead of the asking worker's cursor", i.loc)
            for a in alts(fl.term(i.args[2])):
                if not (ser(a) or fetched(a)):
                    ctx.fail("wrong-chunk", f"{show(a)} is stored instead of the chunk taken", i.loc)
        elif b == CU and (len(ks) != 2 or not N(ks[1])):
            ctx.fail("wrong-key", f"usage is counted under {show(ks[-1])} instead of the asking worker's cursor", i.loc)
    advid = {i.id for i in adv}
    cnt = {}

    def usage_effect(i):
        v = fl.term(i.args[2])
        if v[0] == "const" and isinstance(v[1], int):
            return ("set", v[1])
        if v[0] == "bin" and v[1] == "Add":
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if b[0] == "const" and isinstance(b[1], int):
                    if all(usage_term(x) or x == ("const", 0) for x in alts(a)):
                        df = any(x[0] == "call" or x == ("const", 0) for x in alts(a))
                        return ("addget" if df else "add", b[1])
        return None

    use = {}
    for i in g.of("setitem"):
        b, ks = base_of(("item", fl.term(i.args[0]), fl.term(i.args[1])))
        if b == CU and len(ks) == 2:
            e = usage_effect(i)
            if e is None:
                ctx.fail("usage", f"the usage count is set to {show(fl.term(i.args[2]))}", i.loc)
            else:
                use[i.id] = e
    # ---- removal from memory
    dels = []
    for i in g.live:
        if i.op == "delitem":
            b, ks = base_of(("item", fl.term(i.args[0]), fl.term(i.args[1])))
            if b in (CC, CU, NX):
                dels.append((i, b, ks))
        elif i.op == "call" and i.recv is not None and last(i.fn) in ("pop", "clear", "popitem"):
            b, ks = base_of(fl.term(i.recv))
            if b in (CC, CU, NX):
                dels.append((i, b, ks + ((fl.term(i.args[0]),) if last(i.fn) == "pop" and i.args else ())))

    def prev(t):
        return t[0] == "bin" and t[1] == "Sub" and N(t[2]) and (t[3] == W or t[3][0] == "bin" and t[3][1] == "Mult" and W in t[3][2:])

    def full(i, lab):
        t, d = fl.term(i.args[0]), None
        if t[0] == "un" and t[1] == "Not":
            t, lab = t[2], not lab
        if t[0] != "cmp":
            return False
        op, l, r = t[1], t[2], t[3]
        if not (NPG in list(subterms(r))):
            op, l, r = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op), r, l
        uses = lambda z: all(usage_term(x) or x[0] == "bin" and x[1] == "Add" and any(usage_term(y) for y in x[2:]) for x in alts(z))
        if not uses(l):
            return False
        if r == NPG:
            return lab is True and op in ("GtE", "Eq", "Gt") or lab is False and op == "Lt"
        if r[0] == "bin" and r[1] == "Sub" and r[2] == NPG and r[3] == ("const", 1):
            return lab is True and op == "Gt" or lab is False and op == "LtE"
        return False

    for i, b, ks in dels:
        ctx.count("removals")
        if b == NX or len(ks) != 2:
            ctx.fail("removal", f"bookkeeping {b} is cleared while handing out chunks", i.loc)
            continue
        if not all(prev(a) for a in alts(ks[1])):
            ctx.fail("removal-key", f"{show(ks[1])} leaves memory, which is not the chunk before the one all nodes have asked for", i.loc)
        bad, ex = must_pass(fl, g.entry, lambda z: z is i, lambda z: False, via_edge=full, follow_exc=False)
        for x in bad[:1]:
            ctx.fail("removal-early", f"a chunk leaves memory although not all nodes of the group have asked for the next one; path {trace(ex.path(x))}", i.loc)
    # ---- scenarios
    kinds = {}
    for scen in ("hit", "miss", "end"):
        def hook(d):
            mem = member(d)
            if mem is not None:
                return ("c", mem == (scen == "hit"))
            if d.id in {x.id for x in gets}:
                return "truthy" if scen == "hit" else ("c", None)
            if d.id in fetches:
                return ("c", None) if scen == "end" else "truthy"
            return None

        badreads = set()

        def step(i, st):
            f, ca, us, cur = st
            if i.id in fetches:
                f += 1
            if i.op == "setitem":
                b, ks = base_of(("item", fl.term(i.args[0]), fl.term(i.args[1])))
                if b == CC and len(ks) == 2:
                    ca += 1
                if i.id in use:
                    k, v = use[i.id]
                    if k == "set":
                        us = ("abs", v)
                    elif us is None:
                        us = ("abs", v) if k == "addget" else ("undef", 0)
                    else:
                        us = (us[0], us[1] + v)
            if i.op == "item" and cur and N(fl.term(i.dst)):
                badreads.add(i.id)
            if i.id in advid:
                cur += 1
            if f > 2 or ca > 2 or cur > 2:
                return []
            return [(f, ca, us, cur)]

        ex = Explorer(fl, step, follow_exc=False, hook=hook)
        init = (0, 0, ("u", 0) if scen == "hit" else None, 0)
        vis = ex.run(init)
        for r in badreads:
            ctx.fail("late-read", "the cursor is read again after it was advanced, so the bookkeeping of another chunk is used", g.ins[r].loc)
        want = {"hit": (0, 0, ("u", 1), 1), "miss": (1, 1, ("abs", 1), 1), "end": (1, 0, None, 0)}[scen]
        names = {"hit": "the chunk is in memory", "miss": "the chunk is not in memory", "end": "no chunk is left"}
        done = 0
        for k in vis:
            ins, st = g.ins[k[0]], k[2]
            if ins is g.exit or ins.op == "raise_exit":
                if st == init and ins is not g.exit and scen != "end":
                    continue  # refused requests
                it = (ins, k[1], st)
                if st[0] == 0 and ins is not g.exit:
                    continue
                done += 1
                ctx.count("exits_explored")
                if scen == "end" and ins is g.exit:
                    ctx.fail("end-hidden", f"no chunk is left but the request does not end the stream; path {trace(ex.path(it))}", m.loc)
                elif st != want:
                    what = []
                    if st[0] != want[0]:
                        what.append(f"{st[0]} chunks taken from the job (expected {want[0]})")
                    if st[1] != want[1]:
                        what.append(f"{st[1]} chunks put in memory (expected {want[1]})")
                    if st[2] != want[2]:
                        what.append("usage count " + ("not started at 0" if st[2] and st[2][0] == "undef" else f"{st[2]} instead of {want[2]}"))
                    if st[3] != want[3]:
                        what.append(f"cursor advanced {st[3]} times (expected {want[3]})")
                    ctx.fail("handout-" + scen, f"when {names[scen]}: {', '.join(what)}; path {trace(ex.path(it))}", m.loc)
        if not done:
            raise AnchorError(f"scenario '{names[scen]}' does not reach an end")
    for r in root_returns(fl):
        v = fl.term(r.args[0]) if r.args and r.args[0] is not None else ("const", None)
        ctx.count("returns")
        for a in alts(v):
            x = a[3][0] if a[0] == "call" and callname(a) == "loads" and a[3] else a
            if not (fetched(a) or ser(a) or all(cached(y) or ser(y) for y in alts(x))):
                ctx.fail("other-chunk", f"{show(a)} is handed out instead of the chunk at the worker's cursor", r.loc)
    ctx.floor("returns", 1)


def start(ctx):
    c = cls(ctx)
    m = ctx.proj.find_method(c, "__init__")
    fl = ctx.flow(m, None, c, key="init")
    g = fl.g
    dims = {}
    for i in g.of("setattr"):
        if fl.term(i.args[0]) == ("self",):
            dims[i.data] = fl.term(i.args[1])

    def over(t, attr, param):
        """t iterates range(<attr or its value>)."""
        if t[0] != "elem" or t[1][0] != "call" or t[1][1] != "range" or len(t[1][3]) != 1:
            return False
        a = t[1][3][0]
        return a == ("attr", ("self",), attr) or a == dims.get(attr) or a == ("param", param)

    roots = {dims[a]: a for a in (CC, CU, NX) if a in dims}
    n = 0
    for i in g.of("setitem"):
        b, ks = base_of(("item", fl.term(i.args[0]), fl.term(i.args[1])), roots)
        v = fl.term(i.args[2])
        if b == NX and len(ks) == 3:
            n += 1
            if v != ks[2]:
                ctx.fail("start-cursor", f"the first chunk of a worker is {show(v)} instead of its own number", i.loc)
            for k, (a, p) in zip(ks, (("_dp_groups", "dp_groups"), ("_nodes_per_group", "nodes_per_group"), ("_num_workers", "num_workers"))):
                if not over(k, a, p) and k[0] == "elem":
                    ctx.fail("start-range", f"cursors are created for {show(k)} instead of every one of {p}", i.loc)
        if b == NX and len(ks) == 2 and v[0] == "comp" and len(v) == 4:
            n += 1
            if v[2] != v[3]:
                ctx.fail("start-cursor", f"the first chunk of a worker is {show(v[3])} instead of its own number", i.loc)
            if not over(v[2], "_num_workers", "num_workers") and v[2][0] == "elem":
                ctx.fail("start-range", f"cursors are created for {show(v[2])} instead of every worker", i.loc)
        if b in (CC, CU) and len(ks) == 1 and not over(ks[0], "_dp_groups", "dp_groups"):
            ctx.fail("start-range", f"{b} is created for {show(ks[0])} instead of every group", i.loc)
        if b in (CC, CU, NX) and len(ks) < (3 if b == NX else 2):
            if v[0] not in ("dict0", "dict", "comp", "call"):
                ctx.fail("start-shared", f"{b} entries share {show(v)}", i.loc)
            else:
                ctx.count("start_containers")
                # a fresh container per group: created in the loop
                d = defining(fl, i.args[2])
                if d is not None and v[0] in ("dict0", "dict") and in_loop(fl, i) and not in_loop(fl, d):
                    ctx.fail("start-shared", f"all groups or nodes share one {b} container", i.loc)
    ctx.count("start_cursors", n)
    if not n:
        raise AnchorError("initial cursors not recognised")


def others(ctx):
    c = cls(ctx)
    hand = ctx.proj.find_method(c, "next_chunk_for")
    allowed = {i.loc for i in ctx.flow(hand, None, c, key="hand").g.live} | {i.loc for i in ctx.flow(ctx.proj.find_method(c, "__init__"), None, c, key="init").g.live}
    n = 0
    for m in c.methods.values():
        fl = ctx.flow(m, lambda *a: False, c, key="own")
        n += 1
        for i in fl.g.live:
            if i.op in ("setitem", "delitem"):
                b, ks = base_of(("item", fl.term(i.args[0]), fl.term(i.args[1])))
            elif i.op == "call" and i.recv is not None and last(i.fn) in ("clear", "pop", "popitem", "update", "setdefault"):
                b, ks = base_of(fl.term(i.recv))
            elif i.op == "setattr" and fl.term(i.args[0]) == ("self",) and m.name not in ("__init__", "__setstate__"):
                b = i.data
            else:
                continue
            if b in (CC, CU, NX) and i.loc not in allowed:
                ctx.fail("other-writer", f"{m.name} changes {b}", i.loc)
    ctx.count("methods_scanned", n)


def stream(ctx):
    c = cls(ctx)
    n = 0
    for m in c.methods.values():
        if not m.is_gen:
            continue
        fl = ctx.flow(m, lambda *a: False, c, key="own")
        calls = [i for i in fl.g.calls() if last(i.fn) == "next_chunk_for"]
        ids = {i.id for i in calls}
        if not calls:
            continue
        n += 1

        def step(i, st):
            if i.id in ids:
                if st == "held":
                    lost.add(i.id)
                return ["held"]
            if i.op == "yield":
                v = fl.term(i.args[0]) if i.args and i.args[0] is not None else ("none",)
                if not all(a[0] == "call" and a[5] in ids for a in alts(v)):
                    ctx.fail("stream-other", f"{m.name} yields {show(v)} instead of the chunk asked for", i.loc)
                if st != "held":
                    lost.add(i.id)
                return ["free"]
            return [st]

        lost = set()
        # a consumer that throws into the stream gives the chunk up itself
        ex = Explorer(fl, step, edge=lambda i, s, lab, st: "free" if i.op == "yield" and lab in ("exc", "exc-base") else st, follow_exc=True)
        vis = ex.run("free")
        for k in vis:
            if fl.g.ins[k[0]] is fl.g.exit and k[2] == "held":
                lost.add(fl.g.exit.id)
        for l in lost:
            ctx.fail("stream-lost", f"{m.name} drops or repeats a chunk it asked for", fl.g.ins[l].loc if fl.g.ins[l] is not fl.g.exit else m.loc)
    ctx.count("streams", n)


ROLE = {"dp_group": "dp", "dp_group_id": "dp", "node_id": "node", "node": "node", "worker_id": "worker", "worker": "worker",
        "dp_groups": "dps", "nodes_per_group": "nodes", "num_workers": "workers", "num_nodes_per_group": "nodes", "_dp_groups": "dps",
        "_nodes_per_group": "nodes", "_num_workers": "workers", "_og_num_workers": "workers", "_dp_group_id": "dp", "_node_id": "node",
        "num_dp_groups": "dps"}


def roles(ctx):
    """Group, node and worker numbers keep their role at every call between project functions."""
    p = ctx.proj
    by = {}
    for f in p.funcs.values():
        if "/tests/" not in "/" + f.module.rel:
            by.setdefault(f.name, []).append(f)
    for cl in [k for ks in p.classes.values() for k in ks]:
        init = p.find_method(cl, "__init__")
        if init is not None:
            by.setdefault(cl.name, []).append(init)
    import ast
    for f in p.funcs.values():
        if "/tests/" in "/" + f.module.rel or isinstance(f.node, ast.Lambda):
            continue
        from ..project import walk_scope
        for n in walk_scope(f.node):
            if not isinstance(n, ast.Call):
                continue
            name = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            cands = by.get(name, [])
            if not cands:
                continue
            sigs = set()
            for x in cands:
                ps = x.params()
                if x.cls is not None and not x.is_static and ps:
                    ps = ps[1:]
                sigs.add(tuple(ps))
            if len(sigs) != 1:
                continue
            ps = next(iter(sigs))
            prs = [ROLE.get(q) for q in ps]
            if not any(prs):
                continue
            for k, a in enumerate(n.args):
                if isinstance(a, ast.Starred):
                    break
                an = a.id if isinstance(a, ast.Name) else a.attr if isinstance(a, ast.Attribute) else None
                if an in ROLE and k < len(prs):
                    ctx.count("role_arguments")
                    if prs[k] is not None and prs[k] != ROLE[an]:
                        ctx.fail("role", f"{an} is passed to {name} as {ps[k]}", f"{f.module.rel}:{n.lineno} ({f.name})")
            for kw in n.keywords:
                an = kw.value.id if isinstance(kw.value, ast.Name) else kw.value.attr if isinstance(kw.value, ast.Attribute) else None
                if kw.arg in ROLE and an in ROLE:
                    ctx.count("role_arguments")
                    if ROLE[kw.arg] != ROLE[an]:
                        ctx.fail("role", f"{an} is passed to {name} as {kw.arg}", f"{f.module.rel}:{n.lineno} ({f.name})")
    ctx.floor("role_arguments", 10)


def shards(ctx):
    """Each shard of a sharded data set works under its own worker number."""
    ms = [(c, c.methods[n]) for ks in ctx.proj.classes.values() for c in ks for n in c.methods if n == "shard_data_sources" and "/tests/" not in "/" + c.module.rel]
    for c, m in ms:
        ps = m.params()
        if "index" in ps:
            idx = "index"
        elif len(ps) > 2:
            idx = ps[2]
        else:
            raise AnchorError("shard number not found")
        fl = ctx.flow(m, None, c, key="shards")
        sets = [i for i in fl.g.of("setattr") if i.data == "worker_id"]
        if not sets:
            raise AnchorError("worker number of a shard not found")
        for i in sets:
            ctx.count("shard_numbers")
            t = strip_ids(fl.term(i.args[1]))
            while t[0] == "call" and last(t[1]) == "int" and len(t[3]) == 1:
                t = t[3][0]
            if t != ("param", idx):
                ctx.fail("shard", f"a shard works under worker number {show(t)[:60]} instead of its own: another shard gets the same chunks or statuses", i.loc)
