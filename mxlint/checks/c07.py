"""C07: reported status = outcome of that very operation."""
import ast

from ..core import *
from ..wire import *
from .util import *

ST = ("attr", ("self",), "_local_stub")


def op_calls(fl):
    """Calls of operations of the local stub (not inlined)."""
    out = []
    for i in fl.g.live:
        if i.op == "call" and i.recv is not None and fl.term(i.recv) == ST:
            out.append(i)
        elif i.op == "call" and (i.fn or "").endswith("to_thread") and i.args:
            t = fl.term(i.args[0])
            if t[0] == "attr" and t[1] == ST:
                out.append(i)
    return out


def op_name(fl, i):
    return i.data if not (i.fn or "").endswith("to_thread") else fl.term(i.args[0])[2]


def run(ctx):
    p = ctx.proj
    ctx.rule("(A) constant propagation through every handler and client method: operation result True/False must arrive as True/False at "
             "the caller; (B) every background task records the outcome of its operation on all paths, success never before the operation "
             "completed and failure on exceptions; (C) an outcome stored under a caller-chosen id is cleared before the request is "
             "acknowledged; (D) stored outcome -> status code -> client verdict maps only success to success; (E) local operations report "
             "success only after their effect.")
    cs = client_sessions(ctx)
    stasks = set()
    for task in sorted(cs):
        (sd, evs, fl, nfa, ex0) = server_session(ctx, task)
        writes = [e for e in evs if codec_of(e)[0] == "write"]
        if len(writes) == 1 and codec_of(writes[0])[1] == "int":
            w = writes[0]
            data = bound_args(w)["data"]
            t = fl.term(data)
            tables = [x for x in subterms(t) if x[0] == "attr" and x[1] == ("self",) and x[2].endswith("_registration")]
            ops = [i for i in op_calls(fl) if reaches(ctx, fl, task, i)]
            if ops:
                polarity(ctx, fl, task, w, data, ops)
                client_bool(ctx, task, cs[task])
            else:
                stasks.add(task)
                status(ctx, fl, task, w, data)
    ctx.count("status_requests", len(stasks))
    ctx.floor("status_requests", 2)
    ctx.floor("boolean_replies", 6)
    ctx.part(background, ctx, cs)
    ctx.part(stub, ctx)
    ctx.part(local, ctx)
    ctx.part(client_status, ctx, cs)
    ctx.part(query_ack, ctx, cs)
    ctx.part(dataset_wait, ctx)


def reaches(ctx, fl, task, ins):
    k = ("c07vis", task)
    if k not in ctx._flows:
        ex = Explorer(fl, lambda i, s: [s], follow_exc=False, hook=task_hook(fl, task))
        ctx._flows[k] = {x[0] for x in ex.run(0)}
    return ins.id in ctx._flows[k]


def polarity(ctx, fl, task, w, data, ops):
    ctx.count("boolean_replies")
    last = ops[-1]
    th = task_hook(fl, task)
    for val in (True, False):
        def hook(d):
            if any(d is o for o in ops):
                return ("c", val)
            return th(d)

        ids = {o.id for o in ops}
        ex = Explorer(fl, lambda i, s: [1 if i.id in ids else s], follow_exc=True, hook=hook, watch=[data],
                      edge=lambda i, s, l, st: ("x" if l == "exc" and i.id in ids else st))
        vis = ex.run(0)
        got = False
        for k in vis:
            if k[0] != w.id:
                continue
            got = True
            v = ex.aval(data, dict(k[1]))
            tv = ex.truth(v)
            if k[2] == "x":
                if tv is not False:
                    ctx.fail(f"failure-as-success:{task}", f"request {task}: the reply can be {v} after {op_name(fl, last)} raised", w.loc)
            elif k[2] == 0:
                if tv is not False:
                    ctx.fail(f"reply-without-operation:{task}", f"request {task}: replies {v} on a path on which "
                             f"{op_name(fl, last)} was not executed; path {trace(ex.path((w, k[1], k[2])))}", w.loc)
            elif tv is not val:
                ctx.fail(f"wrong-status:{task}", f"request {task}: when {op_name(fl, last)} returns {val} the reply is "
                         f"{v if v is not None else 'independent of it (' + show(fl.term(data)) + ')'}", w.loc)
        if not got:
            ctx.fail(f"no-reply:{task}", f"request {task} sends no reply", w.loc)
    ctx.sample(f"{task}: reply = outcome of {op_name(fl, last)}")


def client_bool(ctx, task, sess):
    for (name, sid), (dfa, evs, fl, nfa) in sess.items():
        reads = [e for e in evs if codec_of(e) == ("read", "int")]
        if not reads:
            continue
        check_client(ctx, task, name, fl, reads[-1], ((1, True), (0, False), (None, False)))


def check_client(ctx, task, name, fl, rd, table, sidfilter=None):
    g = fl.g
    fr = g.frames[0]
    keys = {i.data for i in g.live if i.op == "store" and i.data[1] == "$ret"}
    for val, want in table:
        def hook(d):
            if d is rd:
                return ("c", val)
            if d.op in ("unpack", "item") and is_conn_elem(fl.term(d.dst)):
                return "truthy"
            return None

        ex = Explorer(fl, lambda i, s: [1 if i is rd else s], follow_exc=False, hook=hook, watch_keys=keys)
        vis = ex.run(0)
        ctx.count("client_verdicts")
        for k in vis:
            if k[0] == g.exit.id and k[2] == 1:
                v = dict(k[1]).get((fr.id, "$ret"))
                tv = ex.truth(v)
                if v is None and keys:
                    d = [i for i in root_returns(fl) if i.args]
                    if d:
                        tv = ex.truth(ex.aval(d[-1].args[0], dict(k[1])))
                if tv is not want:
                    ctx.fail(f"client-verdict:{task}:{val}", f"{name}: a reply of {val} makes the client report {v}", rd.loc)


def status(ctx, fl, task, w, data):
    """server: stored outcome -> status code"""
    th = task_hook(fl, task)
    for val, want in ((True, 1), (False, 2), ("missing", 0)):
        def table(t):
            return t is not None and t[0] == "attr" and t[1] == ("self",) and t[2] in tables_of(ctx)

        def hook(d):
            if d.op == "call" and d.data == "get" and d.recv is not None and table(fl.term(d.recv)):
                if val == "missing":
                    if len(d.args) > 1:
                        t = fl.term(d.args[1])
                        return ("c", t[1]) if t[0] == "const" else None
                    return ("c", None)
                return ("c", val)
            if d.op == "item" and table(fl.term(d.args[0])):
                return ("c", val) if val != "missing" else None
            if d.op == "cmp" and d.data in ("In", "NotIn") and table(fl.term(d.args[1])):
                return ("c", (val != "missing") == (d.data == "In"))
            return th(d)

        ex = Explorer(fl, lambda i, s: [s], follow_exc=False, hook=hook, watch=[data])
        vis = ex.run(0)
        for k in vis:
            if k[0] == w.id:
                v = ex.aval(data, dict(k[1]))
                ctx.count("status_codes")
                if v != ("c", want):
                    ctx.fail(f"status-code:{task}:{val}", f"request {task}: a stored outcome {val} is reported as {v[1] if isinstance(v, tuple) else show(fl.term(data))} "
                             f"instead of {want}", w.loc)


def tables_of(ctx):
    """status tables: attributes of the server object keyed by id and written by background tasks"""
    if "tables" in ctx._flows:
        return ctx._flows["tables"]
    out = set()
    for b in bg_funcs(ctx):
        fl = ctx.flow(b, server_policy(ctx), key="bg")
        for i in fl.g.of("setitem"):
            t = fl.term(i.args[0])
            if t[0] == "attr" and t[1] == ("self",) and t[2] != "_chunk_distributor_map":
                v = fl.term(i.args[2])
                if any(x == ("const", True) or x == ("const", False) for x in alts(v)) or contains(v, lambda x: x[0] == "call" and contains(x, lambda y: y == ST)):
                    out.add(t[2])
    ctx._flows["tables"] = out
    return out


def bg_funcs(ctx):
    """Coroutines of the server class started in the background (create_task / ensure_future)."""
    if "bg" in ctx._flows:
        return ctx._flows["bg"]
    cls = server_cls(ctx)
    out = []
    for m in cls.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id
                if nm in ("create_task", "ensure_future", "run_coroutine_threadsafe") and n.args and isinstance(n.args[0], ast.Call):
                    c = n.args[0].func
                    if isinstance(c, ast.Attribute):
                        f = ctx.proj.find_method(cls, c.attr)
                        if f and f not in out:
                            out.append(f)
    ctx._flows["bg"] = out
    return out


def background(ctx, cs):
    bgs = bg_funcs(ctx)
    ctx.count("background_tasks", len(bgs))
    ctx.floor("background_tasks", 2)
    tabs = tables_of(ctx)
    for b in bgs:
        fl = ctx.flow(b, server_policy(ctx), key="bg")
        g = fl.g
        ops = op_calls(fl)
        main = [o for o in ops if (o.fn or "").endswith("to_thread")] or ops
        if not main:
            ctx.fail(f"no-operation:{b.name}", f"{b.name} performs no operation", b.module.rel)
            continue
        mids = {o.id for o in main}
        oids = {o.id for o in ops}
        allops = oids
        sets = {}
        for i in g.of("setitem"):
            t = fl.term(i.args[0])
            if t[0] == "attr" and t[1] == ("self",) and t[2] in tabs:
                sets[i.id] = i
        if not sets:
            ctx.fail(f"outcome-lost:{b.name}", f"{b.name} never records the outcome of its operation", b.module.rel)
            continue
        # every call in the try region counts as part of the operation
        def is_result(t):
            return t[0] == "call" and t[-1] in mids or (t[0] == "call" and t[1] in ("bool",) and t[3] and is_result(t[3][0]))

        vals = [i.args[2] for i in sets.values()]

        # state: (done ops frozenset, failed, recorded)
        def step(ins, st):
            done, failed, rec = st
            if ins.id in oids:
                return [(done | {ins.id}, failed, rec)]
            if ins.id in sets:
                return [(done, failed, (ins.id, done, failed))]
            return [st]

        def edge(ins, succ, lab, st):
            if lab in ("exc", "exc-base"):
                if no_raise(ins) or ins.id in sets or (ins.op == "call" and ins.id not in oids and harmless_sync(fl, ins)):
                    return False
                return (st[0], True, st[2])
            return st

        for val in (True, False):
            def hook(d):
                if d.op == "call" and d.id in mids and fl.term(d.dst) and returns_bool(ctx, op_name(fl, d)):
                    return ("c", val)
                return None

            ex = Explorer(fl, step, edge=edge, follow_exc=True, hook=hook, watch=vals)
            vis = ex.run((frozenset(), False, None))
            ctx.count("background_paths", len(vis))
            for k in vis:
                ins = g.ins[k[0]]
                done, failed, rec = k[2]
                pth = lambda: trace(ex.path((ins, k[1], k[2])))
                if ins.id in sets:
                    tv = ex.truth(ex.aval(ins.args[2], dict(k[1])))
                    rt = fl.term(ins.args[2])
                    if failed:
                        if tv is not False:
                            ctx.fail(f"failure-as-success:{b.name}", f"{b.name} records {show(rt)} after its operation raised; path {pth()}", ins.loc)
                    elif not mids <= done:
                        if tv is not False or True:
                            ctx.fail(f"early-outcome:{b.name}", f"{b.name} records an outcome ({show(rt)}) before the operation has completed; "
                                     f"path {pth()}", ins.loc)
                    else:
                        bool_ops = [o for o in main if returns_bool(ctx, op_name(fl, o))]
                        if bool_ops and tv is not val:
                            ctx.fail(f"wrong-outcome:{b.name}", f"{b.name} records {show(rt)} when the operation returned {val}; path {pth()}", ins.loc)
                        if not bool_ops:
                            if tv is not True:
                                ctx.fail(f"wrong-outcome:{b.name}", f"{b.name} records {show(rt)} although the operation completed; path {pth()}", ins.loc)
                            elif not oids <= done and val:
                                missing = [op_name(fl, g.ins[o]) for o in oids - done]
                                ctx.fail(f"early-outcome:{b.name}", f"{b.name} records success before {missing} completed; path {pth()}", ins.loc)
                if ins in (g.exit, g.raise_exit) and rec is None:
                    ctx.fail(f"outcome-lost:{b.name}", f"{b.name} can end without recording an outcome (the client would wait forever); path {pth()}",
                             b.module.rel)
        ctx.sample(f"{b.name}: outcome of {[op_name(fl, o) for o in main]} recorded on all paths")
    # (C) + id agreement
    f = dispatch_func(ctx)
    fl = ctx.flow(f, server_policy(ctx), key="server")
    g = fl.g
    bgq = {b.qual: b for b in bgs}
    started = {}
    for i in g.calls():
        if getattr(i.target, "qual", None) in bgq:
            started[i.id] = bgq[i.target.qual]
    for task in sorted(cs):
        th = task_hook(fl, task)
        ex0 = Explorer(fl, lambda i, s: [s], follow_exc=False, hook=th)
        ids = {k[0] for k in ex0.run(0)}
        starts = [g.ins[i] for i in ids if i in started]
        if not starts:
            continue
        ctx.count("background_requests")
        replies = [g.ins[i] for i in ids if codec_of(g.ins[i]) and codec_of(g.ins[i])[0] == "write"]
        keys, tabnames = set(), set()
        for c in starts:
            bfl = ctx.flow(started[c.id], server_policy(ctx), key="bg")
            m = {("param", k): fl.term(v) for k, v in bound_args(c).items()}
            for i in bfl.g.of("setitem"):
                t = bfl.term(i.args[0])
                if t[0] == "attr" and t[1] == ("self",) and t[2] in tabs:
                    tabnames.add(t[2])
                    keys.add(strip_ids(subst(bfl.term(i.args[1]), m)))
        for r in replies:
            ba = bound_args(r)
            t = fl.term(next((ba[x] for x in ("string", "data", "obj") if x in ba), None))
            if strip_ids(t) not in keys:
                ctx.fail(f"ack-id:{task}", f"request {task} is acknowledged with {show(t)} but its outcome is stored under "
                         f"{[show(k) for k in keys][:1]}", r.loc)
        # status requests read the same tables
        want = {"REGISTER_DATASET": "DATASET_REGISTRATION_STATUS", "REGISTER_QUERY": "QUERY_EXEC_STATUS",
                "RESTORE_CHECKPOINT": "QUERY_EXEC_STATUS"}.get(task)
        if want:
            ex1 = Explorer(fl, lambda i, s: [s], follow_exc=False, hook=task_hook(fl, want))
            read = set()
            for i in {k[0] for k in ex1.run(0)}:
                i = g.ins[i]
                if i.op == "call" and i.data == "get" and i.recv is not None and i.args:
                    t, kk = fl.term(i.recv), fl.term(i.args[0])
                elif i.op == "item":
                    t, kk = fl.term(i.args[0]), fl.term(i.args[1])
                else:
                    continue
                if t[0] == "attr" and t[1] == ("self",) and t[2] in tabs:
                    read.add(t[2])
                    ctx.count("status_lookups")
                    if not (kk[0] == "call" and kk[1] == "read_utf8_string"):
                        ctx.fail(f"status-key:{want}", f"request {want} looks up {show(kk)}, not the id sent by the client", i.loc)
            if not read & tabnames or read - tabnames:
                ctx.fail(f"status-table:{want}", f"request {want} reports from {sorted(read)} but the outcome of {task} is stored in "
                         f"{sorted(tabnames)}", starts[0].loc)
        if not any(contains(k, lambda x: x[0] == "call" and (x[1] or "").startswith("read_")) for k in keys):
            continue  # fresh id

        def resets(i):
            if i.op == "call" and i.data in ("pop", "__delitem__") and i.recv is not None and on_table(fl.term(i.recv)):
                return i.args and strip_ids(fl.term(i.args[0])) in keys
            if i.op == "delitem" and on_table(fl.term(i.args[0])):
                return strip_ids(fl.term(i.args[1])) in keys
            if i.op == "setitem" and on_table(fl.term(i.args[0])):
                return fl.term(i.args[2]) == ("const", None) and strip_ids(fl.term(i.args[1])) in keys
            return False

        def on_table(t):
            return t[0] == "attr" and t[1] == ("self",) and t[2] in tabnames

        def absent(br, lab):
            """branch outcome that implies the key is not in the table"""
            d = g.tempdef.get(br.args[0])
            if d is not None and d.op == "cmp" and d.data in ("In", "NotIn") and on_table(fl.term(d.args[1])) and strip_ids(
                    fl.term(d.args[0])) in keys:
                return (d.data == "NotIn") == lab
            return False

        ex = Explorer(fl, lambda i, s: [1 if resets(i) else s], follow_exc=False, hook=th,
                      edge=lambda i, s, l, st: 1 if i.op == "branch" and l in (True, False) and absent(i, l) else st)
        vis = ex.run(0)
        rid = {r.id for r in replies}
        for k in vis:
            if k[0] in rid and k[2] == 0:
                ctx.fail(f"stale-outcome:{task}", f"request {task} is acknowledged while self.{sorted(tabnames)[0]} may still hold the outcome "
                         f"of an earlier operation on the same id: a client waiting for completion is told the earlier outcome", g.ins[k[0]].loc)
                break


def subst(t, m):
    if t in m:
        return m[t]
    if isinstance(t, frozenset):
        return frozenset(subst(x, m) for x in t)
    if isinstance(t, tuple):
        r = tuple(subst(x, m) if isinstance(x, (tuple, frozenset)) else x for x in t)
        if r and r[0] == "item":
            return mkitem(r[1], r[2])
        return r
    return t


def harmless_sync(fl, ins):
    return ins.data in ("get",) or (ins.fn or "").startswith("asyncio.Lock")


def returns_bool(ctx, name):
    f = ctx.proj.find_method(ctx.proj.cls("LocalStub"), name)
    if f is None:
        return True
    r = f.node.returns
    return r is None or (isinstance(r, ast.Name) and r.id == "bool")


def client_status(ctx, cs):
    for task in sorted(cs):
        if not task.endswith("STATUS"):
            continue
        for (name, sid), (dfa, evs, fl, nfa) in cs[task].items():
            reads = [e for e in evs if codec_of(e) == ("read", "int")]
            if not reads:
                continue
            roots = name
            if name == "check_query_exec_status":
                continue  # verdict is taken by the stub
            check_client(ctx, task, name, fl, reads[-1], ((1, True), (2, False), (None, False)))
            check_never(ctx, task, name, fl, reads[-1], 0)
    # verdict of the stub on the status of a query
    cls = ctx.proj.cls("ServerStub")
    m = ctx.proj.find_method(cls, "wait_for_execution")
    fl = ctx.flow(m, ctx.local_policy(m, cls), selfcls=cls, key="wfe")
    g = fl.g
    calls = [i for i in g.calls(lambda i: i.data == "check_query_exec_status")]
    if not calls:
        raise AnchorError("wait_for_execution does not ask for the status")
    fr = g.frames[0]
    for seq, want in (((1,), True), ((2,), False), ((None,), False), ((0,), False), ((0, 1), None)):
        def hook(d):
            if d in calls:
                return ("c", seq[-1])
            return None

        ex = Explorer(fl, lambda i, s: [s], follow_exc=False, hook=hook, watch_keys={(fr.id, "$ret")})
        vis = ex.run(0)
        ctx.count("client_verdicts")
        for k in vis:
            if k[0] == g.exit.id and want is not None:
                v = ex.truth(dict(k[1]).get((fr.id, "$ret")))
                if v is not want:
                    ctx.fail(f"stub-verdict:{seq[-1]}", f"wait_for_execution reports {dict(k[1]).get((fr.id, '$ret'))} for status {seq[-1]}", calls[0].loc)


def check_never(ctx, task, name, fl, rd, val):
    g = fl.g
    fr = g.frames[0]
    keys = {i.data for i in g.live if i.op == "store" and i.data[1] == "$ret"}

    def hook(d):
        if d is rd:
            return ("c", val)
        if d.op in ("unpack", "item") and is_conn_elem(fl.term(d.dst)):
            return "truthy"
        return None

    ex = Explorer(fl, lambda i, s: [1 if i is rd else s], follow_exc=False, hook=hook, watch_keys=keys)
    vis = ex.run(0)
    for k in vis:
        if k[0] == g.exit.id and k[2] == 1 and ex.truth(dict(k[1]).get((fr.id, "$ret"))) is not False:
            ctx.fail(f"pending-as-success:{task}", f"{name} reports {dict(k[1]).get((fr.id, '$ret'))} while the operation is still running", rd.loc)


def query_ack(ctx, cs):
    """Requests acknowledged with their own identifier: success only if the identifier matches what was sent."""
    for task in sorted(cs):
        for (name, sid), (dfa, evs, fl, nfa) in cs[task].items():
            g = fl.g
            rd = [e for e in evs if codec_of(e) == ("read", "utf8_string")]
            fr = g.frames[0]
            if not rd or name not in ("execute_query",):
                continue
            keys = {i.data for i in g.live if i.op == "store" and i.data[1] == "$ret"}

            def hook(d):
                if d is rd[-1]:
                    return ("c", None)
                if d.op in ("unpack", "item") and is_conn_elem(fl.term(d.dst)):
                    return "truthy"
                if d.op == "cmp" and d.data in ("Eq", "NotEq"):
                    for a in d.args:
                        t = fl.term(a)
                        if t[0] == "call" and t[-1] == rd[-1].id:
                            return ("c", d.data == "NotEq")
                return None

            ex = Explorer(fl, lambda i, s: [1 if i is rd[-1] else s], follow_exc=False, hook=hook, watch_keys=keys)
            for k in ex.run(0):
                if k[0] == g.exit.id and k[2] == 1 and ex.truth(dict(k[1]).get((fr.id, "$ret"))) is not False:
                    ctx.fail(f"ack-unchecked:{task}", f"{name} reports success although the server did not acknowledge this job", rd[-1].loc)
            ctx.count("acknowledgements")


def stub(ctx):
    """The remote client hands the verdict through unchanged."""
    cls = ctx.proj.cls("ServerStub")
    for m in cls.methods.values():
        if not (isinstance(m.node.returns, ast.Name) and m.node.returns.id == "bool"):
            continue
        fl = ctx.flow(m, ctx.local_policy(m, cls), selfcls=cls, key="stub")
        g = fl.g
        calls = [i for i in g.calls(lambda i: i.recv is not None and fl.term(i.recv) == ("attr", ("self",), "server_connection"))]
        if not calls or m.name == "wait_for_execution":
            continue
        fr = g.frames[0]
        ids = {c.id for c in calls}
        for val in (True, False):
            def hook(d):
                return ("c", val) if d in calls else None

            ex = Explorer(fl, lambda i, s: [1 if i.id in ids else s], follow_exc=False, hook=hook, watch_keys={(fr.id, "$ret")})
            ctx.count("stub_verdicts")
            for k in ex.run(0):
                if k[0] == g.exit.id:
                    v = ex.truth(dict(k[1]).get((fr.id, "$ret")))
                    if (k[2] == 1 and v is not val) or (k[2] == 0 and v is not False):
                        ctx.fail(f"stub-verdict:{m.name}", f"ServerStub.{m.name} returns {dict(k[1]).get((fr.id, '$ret'))} when the server "
                                 f"reported {val if k[2] else 'nothing'}", calls[0].loc)


EFFECTS = {
    "execute_query": (lambda fl, i: i.op == "setitem" and fl.term(i.args[0]) == ("attr", ("self",), "_training_query_map"), "the job being registered"),
    "process_feedback": (lambda fl, i: i.op == "call" and i.data == "process_client_feedback", "the mixture having processed the feedback"),
}


def local(ctx):
    cls = ctx.proj.cls("LocalStub")
    for name, (eff, what) in EFFECTS.items():
        m = ctx.proj.find_method(cls, name)
        fl = ctx.flow(m, ctx.local_policy(m, cls), selfcls=cls, key="lstub")
        g = fl.g
        fr = g.frames[0]
        if not any(eff(fl, i) for i in g.live):
            ctx.fail(f"no-effect:{name}", f"LocalStub.{name} never leads to {what}", m.module.rel)
            continue
        ctx.count("local_operations")
        ex = Explorer(fl, lambda i, s: [1 if eff(fl, i) else s], follow_exc=True, watch_keys={i.data for i in g.live if i.op == "store" and i.data[1] == "$ret"})
        for k in ex.run(0):
            if k[0] == g.exit.id and k[2] == 0:
                v = ex.truth(dict(k[1]).get((fr.id, "$ret")))
                if v is not False:
                    ctx.fail(f"success-without-effect:{name}", f"LocalStub.{name} returns {dict(k[1]).get((fr.id, '$ret'))} without {what}; path "
                             f"{trace(ex.path((g.exit, k[1], k[2])))}", m.module.rel)
            if k[0] == g.exit.id and k[2] == 1:
                v = ex.truth(dict(k[1]).get((fr.id, "$ret")))
                if v is False:
                    ctx.fail(f"failure-after-effect:{name}", f"LocalStub.{name} returns a failure after {what}", m.module.rel)
    # restoring: the distributor is installed before returning
    m = ctx.proj.find_method(cls, "restore_checkpoint")
    fl = ctx.flow(m, ctx.local_policy(m, cls), selfcls=cls, key="lstub")
    bad, ex = must_pass(fl, fl.g.entry, lambda i: i is fl.g.exit,
                        lambda i: i.op == "setitem" and fl.term(i.args[0]) == ("attr", ("self",), "_training_query_map"), follow_exc=True)
    if bad:
        ctx.fail("restore-not-installed", f"restore_checkpoint can return without having installed the restored job; path {trace(ex.path(bad[0]))}", m.module.rel)
    # remaining operations: the result of the delegate is returned
    for name in ("register_dataset", "remove_dataset", "add_property", "check_dataset_exists", "checkpoint_completed", "register_metadata_parser", "wait_for_execution"):
        m = ctx.proj.find_method(cls, name)
        if m is None:
            continue
        fl = ctx.flow(m, lambda *a: False, selfcls=cls, key="shallow")
        g = fl.g
        rts = root_returns(fl)
        for r in rts:
            t = fl.term(r.args[0]) if r.args else ("const", None)
            for x in alts(t):
                if x[0] == "const" and x[1] is True:
                    ctx.fail(f"constant-success:{name}", f"LocalStub.{name} reports success unconditionally", r.loc)
                if x == ("const", None):
                    ctx.fail(f"result-dropped:{name}", f"LocalStub.{name} does not return the outcome of its operation", r.loc)


def dataset_wait(ctx):
    """A data set can be constructed on any node only if the execution (or restoration) of its query was reported successful."""
    c = ctx.proj.cls("MixteraTorchDataset")
    m = ctx.proj.find_method(c, "__init__")
    fl = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="wait")
    ws = {strip_ids(fl.term(i.dst)) for i in fl.g.calls() if last(i.fn) == "wait_for_execution" and i.dst is not None}
    if not ws:
        raise AnchorError("the data set does not wait for its query")

    def said(b, lab):
        t = strip_ids(fl.term(b.args[0]))
        while t[0] == "un" and t[1] == "Not" or t[0] == "not":
            t, lab = t[-1], not lab
        if t[0] == "cmp" and t[3][0] == "const" and isinstance(t[3][1], bool) and t[1] in ("Is", "Eq", "IsNot", "NotEq"):
            if (t[1] in ("IsNot", "NotEq")) == t[3][1]:
                lab = not lab
            t = t[2]
        return lab and t in ws
    bad, ex = must_pass(fl, fl.g.entry, lambda i: i is fl.g.exit, lambda i: False, via_edge=said)
    ctx.count("dataset_waits")
    if bad:
        ctx.fail("unreported-failure", "a data set can be constructed although its query was not reported executed", bad[0][0].loc if bad[0][0].loc else m.loc)
