"""C13: checkpoint identifiers are unique, checkpoints start when all nodes reported, completion is truthful."""
from ..core import *
from .util import *
from .dist import *
from . import c10


def run(ctx):
    ctx.rule("Path exploration of checkpoint(): the id is built from the counter after incrementing it, a node reporting twice is rejected before "
             "anything is recorded, the writer is started only on the edge where the number of reported nodes equals groups x nodes, the collected "
             "reports are reset on every exit (also exceptional) after that edge and nowhere else, the writer process is recorded under the "
             "returned id; restore continues the counter from the maximum over the checkpoints on disk; completion is decided by the "
             "exit code of the recorded writer.")
    ctx.part(identifiers, ctx)
    ctx.part(collecting, ctx)
    ctx.part(recorded, ctx)
    ctx.part(restored, ctx)
    ctx.part(c10.completion, ctx)
    ctx.part(unknown, ctx)


def anchors(ctx):
    """Names of the attributes used: counter, current id, set of reported nodes, statuses."""
    fl = ckpt_flow(ctx)
    counter = {b[2] for i in fl.g.of("setattr") if i.data == "value" for b in [fl.term(i.args[0])] if b[0] == "attr" and b[1] == ("self",)}
    nodes, stat = set(), set()
    for i in fl.g.live:
        if i.op == "call" and i.recv is not None and last(i.fn) in ("add", "append"):
            b = fl.term(i.recv)
            if b[0] == "attr" and b[1] == ("self",):
                nodes.add(b[2])
        if i.op == "setitem":
            b = fl.term(i.args[0])
            if b[0] == "attr" and b[1] == ("self",) and contains(fl.term(i.args[2]), lambda x: x == ("param", "worker_status")):
                stat.add(b[2])
    return fl, counter, nodes, stat


def identifiers(ctx):
    fl, counter, _, _ = anchors(ctx)
    g = fl.g
    if len(counter) != 1:
        raise AnchorError(f"checkpoint counter not recognised: {sorted(counter)}")
    cn = next(iter(counter))
    cv = ("attr", ("attr", ("self",), cn), "value")
    ids = []
    for i in g.of("setattr"):
        if fl.term(i.args[0]) != ("self",):
            continue
        v = fl.term(i.args[1])
        if v[0] in ("fstr", "call", "bin") and contains(v, lambda x: x == cv) and i.data != cn:
            ids.append(i)
    ctx.count("identifiers", len(ids))
    ctx.floor("identifiers", 1)
    incs = []
    for i in g.of("setattr"):
        if i.data == "value" and fl.term(i.args[0]) == ("attr", ("self",), cn):
            v = fl.term(i.args[1])
            ok = v[0] == "bin" and v[1] == "Add" and (v[2] == cv and v[3][0] == "const" and v[3][1] > 0 or v[3] == cv and v[2][0] == "const" and v[2][1] > 0)
            if ok:
                incs.append(i)
            else:
                ctx.fail("counter", f"the checkpoint counter is set to {show(v)}", i.loc)
    iid = {i.id for i in incs}
    for s in ids:
        # the text is computed after incrementing, and each id consumes one increment
        uses = [i for i in g.of("attr") if i.data == "value" and fl.term(i.dst) == cv and flows_into(fl, i, s)]
        for u in uses or [s]:
            bad, ex = must_pass(fl, g.entry, lambda i: i is u, lambda i: i.id in iid, follow_exc=False)
            for b in bad[:1]:
                ctx.fail("id-reused", f"a checkpoint id is formed without advancing the counter first; path {trace(ex.path(b))}", s.loc)
    # counters of other methods
    c = dist_cls(ctx)
    for m in c.methods.values():
        f2 = ctx.flow(m, lambda *a: False, c, key="own")
        for i in f2.g.of("setattr"):
            b = f2.term(i.args[0])
            if i.data == cn and m.name != "__init__":
                ctx.fail("counter", f"{m.name} replaces the checkpoint counter", i.loc)
            if i.data == "value" and b == ("attr", ("self",), cn) and i.loc not in {x.loc for x in g.of("setattr")}:
                ctx.fail("counter", f"{m.name} changes the checkpoint counter", i.loc)
    # id only assigned if none is in progress
    data = ids[0].data
    for s in ids:
        def free(i, lab):
            t = fl.term(i.args[0])
            return none_test(t, lambda x: contains(x, lambda y: y[0] == "attr" and y[2] == data), lab)
        bad, ex = must_pass(fl, g.entry, lambda i: i is s, lambda i: False, via_edge=free, follow_exc=False)
        for b in bad[:1]:
            ctx.fail("id-per-node", f"nodes reporting for the same checkpoint get different ids; path {trace(ex.path(b))}", s.loc)
    for r in root_returns(fl):
        v = fl.term(r.args[0]) if r.args and r.args[0] is not None else ("const", None)
        ctx.count("returned_ids")
        for a in alts(v):
            if not (contains(a, lambda x: x == cv) or contains(a, lambda x: x[0] == "attr" and x[1] == ("self",) and x[2] == data)):
                ctx.fail("wrong-id", f"checkpoint() returns {show(a)} instead of the id of the checkpoint", r.loc)
    ctx.floor("returned_ids", 1)


def flows_into(fl, u, s):
    seen, st = set(), [s.args[1]]
    while st:
        t = st.pop()
        if t in seen or t is None:
            continue
        seen.add(t)
        if t == u.dst:
            return True
        d = fl.g.tempdef.get(t)
        if d is None:
            continue
        if d.op == "load":
            st.extend(x.args[0] for x in fl.rdefs(d, d.data) if x is not None)
        st.extend(a for a in d.args if isinstance(a, (int, str)) or a is not None)
    return False


def none_test(t, pred, lab):
    """Branch on t with label lab implies that pred's subject is None/falsy."""
    neg = False
    while t[0] == "un" and t[1] == "Not":
        t, neg = t[2], not neg
    if t[0] == "cmp" and t[1] in ("Is", "IsNot", "Eq", "NotEq"):
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            if b == ("const", None) and pred(a):
                return ((t[1] in ("Is", "Eq")) != neg) == lab
        return False
    if pred(t) and t[0] in ("attr", "phi"):
        return lab == neg
    return False


def full_edge(fl, nodes):
    """Branch edge on which all nodes have reported."""
    def size(x):
        return x[0] == "call" and last(x[1]) == "len" and len(x[3]) == 1 and contains(x[3][0], lambda y: y[0] == "attr" and y[1] == ("self",) and y[2] in nodes)

    def total(x):
        if x[0] == "bin" and x[1] == "Mult":
            return {y[2] for y in (x[2], x[3]) if y[0] == "attr" and y[1] == ("self",)} == {"_dp_groups", "_nodes_per_group"}
        return False

    def f(i, lab):
        t = fl.term(i.args[0])
        neg = False
        while t[0] == "un" and t[1] == "Not":
            t, neg = t[2], not neg
        if t[0] != "cmp":
            return False
        op, a, b = t[1], t[2], t[3]
        if size(b) and total(a):
            a, b, op = b, a, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
        if not (size(a) and total(b)):
            return False
        good = {"Eq": True, "GtE": True, "NotEq": False, "Lt": False}.get(op)
        return good is not None and (good != neg) == lab
    return f


def collecting(ctx):
    fl, _, nodes, stat = anchors(ctx)
    g = fl.g
    nodes = {n for n in nodes if any(contains(fl.term(i.args[0]), lambda x: x[0] == "attr" and x[2] == n and x[1] == ("self",)) for i in g.of("branch"))}
    if not nodes or not stat:
        raise AnchorError("bookkeeping of reporting nodes not recognised")
    full = full_edge(fl, nodes)
    procs = [i for i in g.calls() if last(i.fn) in ("Process", "Thread") and arg_term(i, fl, 1, "target") is not None]
    if not procs:
        raise AnchorError("checkpoint() does not start a writer")
    key = ("tuple", ("param", "dp_group_id"), ("param", "node_id"))
    # start only when all reported
    bad, ex = must_pass(fl, g.entry, lambda i: i in procs, lambda i: False, via_edge=full, follow_exc=False)
    for b in bad[:1]:
        ctx.fail("started-early", f"a checkpoint is started although not all nodes may have reported; path {trace(ex.path(b))}", b[0].loc)
    adds = [i for i in g.calls() if i.recv is not None and last(i.fn) in ("add", "append") and fl.term(i.recv)[0] == "attr" and fl.term(i.recv)[2] in nodes]
    sets = [i for i in g.of("setitem") if fl.term(i.args[0])[0] == "attr" and fl.term(i.args[0])[2] in stat]
    ctx.count("reports_recorded", len(adds) + len(sets))
    ctx.floor("reports_recorded", 2)
    for i in adds:
        if fl.term(i.args[0]) != key:
            ctx.fail("wrong-node", f"a report is recorded for {show(fl.term(i.args[0]))}, not for (group, node)", i.loc)
    for i in sets:
        if fl.term(i.args[1]) != key:
            ctx.fail("wrong-node", f"a status is recorded for {show(fl.term(i.args[1]))}, not for (group, node)", i.loc)
    for what, lst in (("node", adds), ("status", sets)):
        ids = {i.id for i in lst}
        for p in procs + [g.exit]:
            bad, ex = must_pass(fl, g.entry, lambda i: i is p, lambda i: i.id in ids, follow_exc=False)
            for b in bad[:1]:
                ctx.fail("not-recorded", f"the {what} of a reporting node is not recorded; path {trace(ex.path(b))}", g.func.module.rel)
                break

    # duplicates
    def fresh(i, lab):
        t = fl.term(i.args[0])
        neg = False
        while t[0] == "un" and t[1] == "Not":
            t, neg = t[2], not neg
        if t[0] != "cmp" or t[1] not in ("In", "NotIn"):
            return False
        if t[2] != key or not contains(t[3], lambda x: x[0] == "attr" and x[2] in (nodes | stat)):
            return False
        return ((t[1] == "NotIn") != neg) == lab
    ids = {i.id for i in adds + sets}
    bad, ex = must_pass(fl, g.entry, lambda i: i.id in ids, lambda i: False, via_edge=fresh, follow_exc=False)
    for b in bad[:1]:
        ctx.fail("duplicate-report", f"a node that already reported is recorded again; path {trace(ex.path(b))}", b[0].loc)
    # resets
    need = nodes | stat | {"_current_checkpoint_id"}
    cur = {i.data for i in g.of("setattr") if fl.term(i.args[0]) == ("self",)}
    need &= cur | nodes | stat
    fulls = [(i, s) for i in g.of("branch") for s, lab in i.succ if lab in (True, False) and full(i, lab)]
    if not fulls:
        ctx.fail("started-early", "there is no test whether all nodes have reported", g.func.module.rel)
    for a in sorted(need):
        def reset(i, a=a):
            if i.op == "setattr" and i.data == a and fl.term(i.args[0]) == ("self",):
                v = fl.term(i.args[1])
                return v in (("const", None),) or v[0] in ("dict0", "list0") or v[0] == "set" and len(v) == 1 or v[0] == "call" and last(v[1]) in (
                    "set", "dict", "list", "defaultdict") and not v[3]
            return i.op == "call" and i.recv is not None and last(i.fn) == "clear" and fl.term(i.recv) == ("attr", ("self",), a)
        ctx.count("reset_fields")
        for br, s in fulls:
            bad, ex = must_pass(fl, s, lambda i: i is g.exit or i is g.raise_exit, reset)
            for b in bad[:1]:
                ctx.fail(f"not-reset:{a}", f"a checkpoint attempt can end without resetting {a}, which blocks or corrupts later checkpoints; path "
                         f"{trace(ex.path(b))}", br.loc)
        bad, ex = must_pass(fl, g.entry, reset, lambda i: False, via_edge=full)
        bad = [b for b in bad]
        for b in bad[:1]:
            ctx.fail(f"reset-early:{a}", f"{a} is reset although the checkpoint is still being collected; path {trace(ex.path(b))}", b[0].loc)
    ctx.floor("reset_fields", 3)
    # chunk positions of the nodes of a group are compared
    cmpd = False
    for i in g.of("branch"):
        t = fl.term(i.args[0])
        if contains(t, lambda x: x[0] == "call" and last(x[1]) == "len" and x[3] and contains(x[3][0], lambda y: y[0] == "call" and last(y[1]) == "set")) or contains(
                t, lambda x: x[0] == "call" and last(x[1]) in ("all", "any")):
            if any(any(y.op == "raise" for y in straight(s)) for s, l in i.succ if l in (True, False)):
                cmpd = True
    ctx.count("position_checks", int(cmpd))
    if not cmpd:
        ctx.fail("positions-unchecked", "a checkpoint is accepted although the nodes of a group are at different chunks", g.func.module.rel)


def straight(s):
    out = []
    while s is not None and len(out) < 60:
        out.append(s)
        if s.op == "branch" or s.op == "raise":
            break
        nx = [x for x, l in s.succ if l not in ("exc", "exc-base")]
        s = nx[0] if len(nx) == 1 else None
    return out


def recorded(ctx):
    """The started process is what completion looks at, under the id handed out."""
    fl = ckpt_flow(ctx)
    g = fl.g
    procs = {fl.term(i.dst) for i in g.calls() if last(i.fn) in ("Process", "Thread") and arg_term(i, fl, 1, "target") is not None}
    starts = [i for i in g.calls() if last(i.fn) == "start" and i.recv is not None and any(a in procs for a in alts(fl.term(i.recv)))]
    ctx.count("writer_starts", len(starts))
    if not starts:
        ctx.fail("not-started", "the checkpoint writer is never started", g.func.module.rel)
    puts = []
    rets = [alts(fl.term(r.args[0])) for r in root_returns(fl) if r.args and r.args[0] is not None]
    idt = {strip_ids(a) for r in rets for a in r}
    for i in g.of("setitem"):
        b, k, v = (fl.term(x) for x in i.args)
        if not any(a in procs for a in alts(v)) and not (v[0] == "dict" and any(kv[1] in procs for kv in v[1:])):
            continue
        puts.append(i)
        key = k if b[0] == "attr" else (b[2] if b[0] == "item" else None)
        if key is not None and not ({strip_ids(a) for a in alts(key)} & idt):
            ctx.fail("wrong-entry", f"the checkpoint writer is recorded under {show(key)}, not under the returned id", i.loc)
    for s in starts:
        ids = {i.id for i in puts}
        a1, _ = must_pass(fl, g.entry, lambda i: i is s, lambda i: i.id in ids, follow_exc=False)
        a2, ex = must_pass(fl, s, lambda i: i is g.exit, lambda i: i.id in ids, follow_exc=False)
        if a1 and a2:
            ctx.fail("not-recorded", f"the started checkpoint writer is not recorded, so its completion cannot be reported; path {trace(ex.path(a2[0]))}", s.loc)
        # the recorded process must not be overwritten by nothing
        after = reach([x for x, l in s.succ if l not in ("exc", "exc-base")], exc=False)
        for i in g.of("setitem"):
            if i in after and i not in puts and fl.term(i.args[1]) == ("const", "process"):
                ctx.fail("not-recorded", "the recorded checkpoint writer is overwritten", i.loc)
    # created by somebody else: a daemon dies silently with its parent? exit code is still reported
    c = dist_cls(ctx)
    m = ctx.proj.find_method(c, "checkpoint_completed")
    if m is None:
        raise AnchorError("checkpoint_completed not found")
    f2 = ctx.flow(m, None, c, key="completed")
    for i in f2.g.live:
        t = None
        if i.op == "item":
            t = (f2.term(i.args[0]), f2.term(i.args[1]))
        elif i.op == "call" and last(i.fn) == "get" and i.recv is not None and i.args:
            t = (f2.term(i.recv), f2.term(i.args[0]))
        if t and t[0] == ("attr", ("self",), "_checkpoint_info"):
            ctx.count("status_lookups")
            if t[1] != ("param", "checkpoint_id") and t[1] != ("param", m.params()[1]):
                ctx.fail("wrong-entry", f"completion of a checkpoint is looked up under {show(t[1])}", i.loc)


def restored(ctx):
    fl = restore_flow(ctx)
    g = fl.g
    _, counter, _, _ = anchors(ctx)
    cn = next(iter(counter)) if counter else "_checkpoint_id_counter"
    sets = [i for i in g.of("setattr") if i.data == "value" and fl.term(i.args[0])[0] == "attr" and fl.term(i.args[0])[2] == cn]
    ctx.count("counter_restores", len(sets))
    if not sets:
        ctx.fail("counter-restart", "a restored job starts numbering checkpoints from the beginning", g.func.module.rel)
        return

    def globs(x):
        return x[0] == "call" and last(x[1]) in ("glob", "rglob", "iterdir", "listdir", "scandir")

    ids = set()
    for i in sets:
        v = fl.term(i.args[1])
        con = list(contributions(fl, v))
        mx = [x for x in con if x[0] == "call" and last(x[1]) in ("max", "sorted")]
        gl = [x for x in con if globs(x)]
        if mx and gl:
            ids.add(i.id)
            own = any(loaded(x) is not None and "counter" in str(loaded(x)[1]) or x[0] == "attr" and x[2] == "value" and x[1][0] == "attr" and x[1][2] == cn for x in con)
            if not own:
                ctx.fail("counter-saved", "the counter stored in the checkpoint is not considered on restore", i.loc)
            for x in gl:
                d = x[2] if x[1].startswith(".") else (x[3][0] if x[3] else None)
                k = norm(d)
                if k is not None and k != ("param", g.func.params()[1] if g.func.is_classmethod else "chkpnt_dir"):
                    ctx.fail("counter-directory", f"existing checkpoints are looked for in {show(d)}, not where they are written", i.loc)
        elif not contains(v, lambda x: loaded(x) is not None):
            ctx.fail("counter", f"restore sets the checkpoint counter to {show(v)}", i.loc)

    def empty(i, lab):
        """the branch taken when no numbers were collected"""
        t = fl.term(i.args[0])
        return lab is False and any(globs(x) for x in contributions(fl, t))
    bad, ex = must_pass(fl, g.entry, lambda i: i is g.exit, lambda i: i.id in ids, via_edge=empty, follow_exc=False)
    for b in bad[:1]:
        ctx.fail("counter-restart", f"a restored job can reuse the id of an existing checkpoint; path {trace(ex.path(b))}", g.func.module.rel)
    for i in sets:
        if i.id in ids:
            after = reach([x for x, l in i.succ if l not in ("exc", "exc-base")], exc=False)
            for j in sets:
                if j in after and j.id not in ids:
                    ctx.fail("counter-restart", "the counter is set back after the existing checkpoints were considered", j.loc)
    # the pattern matches the ids written
    cf = ckpt_flow(ctx)
    pre = set()
    for i in cf.g.of("setattr"):
        v = cf.term(i.args[1])
        if v[0] == "fstr" and contains(v, lambda x: x[0] == "attr" and x[2] == "value"):
            pre |= {x[1] for x in v[1:] if x[0] == "const" and x[1]}
    pats = [x[1] for i in g.of("const") for x in [fl.term(i.dst)] if isinstance(x[1], str) and ("*" in x[1] or "(" in x[1] or "\\d" in x[1])]
    for p in pre:
        ctx.count("id_prefixes")
        for q in pats:
            if p not in q:
                ctx.fail("id-pattern", f"ids are formed with {p!r} but searched with {q!r}", g.func.module.rel)


def norm(t):
    """Directory term, with X / name .parent folded."""
    if t is None:
        return None
    if t[0] == "call" and last(t[1]) in ("Path", "str", "resolve", "absolute"):
        return norm(t[3][0] if t[3] else t[2])
    if t[0] == "attr" and t[2] == "parent":
        b = norm(t[1])
        if b is not None and b[0] == "join":
            return b[1]
        return ("parent", b)
    if t[0] == "bin" and t[1] == "Div":
        return ("join", norm(t[2]), t[3])
    return t


def unknown(ctx):
    """A checkpoint without a recorded writer is not reported as completed."""
    c = dist_cls(ctx)
    m = ctx.proj.find_method(c, "checkpoint_completed")
    fl = ctx.flow(m, None, c, key="completed")
    g = fl.g
    ret = (g.frames[0].id, "$ret")

    def noproc(d):
        if d.op in ("item", "call"):
            t = fl.term(d.dst)
            if t[0] == "item" and t[2] == ("const", "process") or t[0] == "call" and last(t[1]) in ("get", "pop") and t[3] and t[3][0] == ("const", "process"):
                return ("c", None)
            if t[0] == "call" and last(t[1]) in ("get", "pop") and t[2] == ("attr", ("self",), "_checkpoint_info"):
                return "truthy"
        return None

    def noinfo(d):
        if d.op in ("item", "call"):
            t = fl.term(d.dst)
            if t[0] == "call" and last(t[1]) in ("get", "pop") and t[2] == ("attr", ("self",), "_checkpoint_info"):
                return ("c", None)
        if d.op == "cmp" and d.data in ("In", "NotIn") and fl.term(d.args[1]) == ("attr", ("self",), "_checkpoint_info"):
            return ("c", d.data == "NotIn")
        return None

    for name, h in (("not started", noproc), ("unknown", noinfo)):
        def edge(ins, succ, lab, st):
            if lab in ("exc", "exc-base") and ins.op not in ("raise", "reraise", "dispatch", "assertfail"):
                return False
            # attribute of nothing
            if ins.op == "call" and ins.recv is not None and last(ins.fn) in ("is_alive", "join"):
                return False
            return st
        ex = Explorer(fl, lambda i, s: [s], edge=edge, hook=h, watch_keys={ret})
        ctx.count("completion_scenarios")
        for k in ex.run(0):
            if k[0] == g.exit.id and ex.truth(dict(k[1]).get(ret)) is not False:
                ctx.fail(f"completed-early:{name.replace(' ', '-')}", f"a checkpoint that is {name} can be reported as completed; path "
                         f"{trace(ex.path((g.exit, k[1], k[2])))}", m.module.rel)
                break
