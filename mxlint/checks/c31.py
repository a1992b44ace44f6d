"""C31: only the designated rank stores the checkpoint id and sends feedback; every rank takes part in and waits for the checkpoint; the
stored id is the one used for restoring."""
from .util import *

RANKS = [(0, 0), (0, 1), (1, 0), (1, 1), (2, 3)]


def run(ctx):
    ctx.rule("Path exploration per rank (constant propagation of the two rank numbers, one case per combination of zero / non-zero): the id file "
             "is written on every successful path of rank (0,0) and on no path of another rank; every rank calls checkpoint() once and can return "
             "only over the branch on which checkpoint_completed() of that id was true; feedback is sent once by rank (0,0) and by no other; a "
             "job is executed or restored by rank (0,0) only, restoring uses the contents of the file that was written, and every rank waits.")
    ctx.part(checkpoint, ctx)
    ctx.part(feedback, ctx)
    ctx.part(start, ctx)


def written_name(fl, i):
    """Last path component constant of a file that is written/read by call i, or None."""
    def const_of(t):
        ks = [x[1] for x in subterms(t) if x[0] == "const" and isinstance(x[1], str) and x[1] not in ("r", "w", "w+", "utf-8", "a", "rt", "wt")]
        return ks[-1] if len(ks) == 1 else None
    t = fl.term(i.recv)
    for x in subterms(t):
        if x[0] == "call" and callname(x) == "open":
            p = x[3][0] if x[3] and x[2] is None else (x[2] if x[2] is not None else None)
            if p is not None:
                return const_of(p)
    return const_of(t)


def param_hook(fl, names, vals):
    root = fl.g.frames[0]

    def hook(d):
        if d.op == "param":
            n = d.data[1] if isinstance(d.data, tuple) else d.data
            if n in names and d.frame is root:
                return ("c", vals[names[n]])
        if d.op == "attr" and d.data in names:
            return ("c", vals[names[d.data]])
        return None
    return hook


def result_branch(fl, i, name):
    """Polarity of branch i as a test of the result of call `name`, or None. A variable may also hold False before the first call."""
    t, pol = fl.term(i.args[0]), True
    while t[0] == "un" and t[1] == "Not":
        t, pol = t[2], not pol
    ts = list(t[1]) if t[0] == "phi" else [t]
    if ts and all(is_call_term(x, name) or x in (("const", False), ("const", None)) for x in ts) and any(is_call_term(x, name) for x in ts):
        return pol
    if t[0] == "cmp" and is_call_term(t[2], name) and t[3] in (("const", True), ("const", False)):
        return pol == ((t[1] in ("Is", "Eq")) == t[3][1])
    return None


def expect(ctx, i, fl, pos, kw, ok, what):
    t = arg_term(i, fl, pos, kw)
    ctx.count("argument_obligations")
    if t is None or not ok(strip_ids(t)):
        ctx.fail("wrong-arg", f"{last(i.fn)} gets {show(t)[:70] if t is not None else 'nothing'} as {what}", i.loc)


def mentions_param(n):
    return lambda t: t == ("param", n)


def job(t):
    return t[0] == "attr" and t[2] == "job_id"


# ------------------------------------------------------------------ checkpoint
def checkpoint(ctx):
    m = ctx.proj.func("handle_mixtera_checkpoint")
    fl = ctx.flow(m, ctx.local_policy(m, None, stop=("_recover_mixtera_dataset",)), key="chk")
    g = fl.g
    cks = [i for i in g.calls() if last(i.fn) == "checkpoint"]
    cds = [i for i in g.calls() if last(i.fn) == "checkpoint_completed"]
    wr = [i for i in g.calls() if last(i.fn) in ("write", "write_text", "dump", "writelines") and i.args]
    if not cks:
        raise AnchorError("no call of checkpoint()")
    cid, wid = {i.id for i in cks}, {i.id for i in wr}
    ids = {strip_ids(fl.term(i.dst)) for i in cks if i.dst is not None}
    for i in cks:
        expect(ctx, i, fl, 0, "job_id", job, "job id")
        expect(ctx, i, fl, 1, "dp_group_id", mentions_param("dp_group_id"), "data parallel group")
        expect(ctx, i, fl, 2, "node_id", mentions_param("node_id"), "node")
        expect(ctx, i, fl, 3, "worker_status", lambda t: t[0] == "attr" and t[2] == "worker_status", "worker status")
    for i in cds:
        expect(ctx, i, fl, 0, "job_id", job, "job id")
        expect(ctx, i, fl, 1, "chkpnt_id", lambda t: t in ids, "checkpoint id")
        expect(ctx, i, fl, 2, "on_disk", mentions_param("wait_for_disk"), "wait mode")
    for i in wr:
        t = strip_ids(fl.term(i.args[0]))
        ctx.count("id_writes")
        if t not in ids:
            ctx.fail("wrong-id", f"stores {show(t)[:60]} instead of the id of the checkpoint", i.loc)
        modes = [x for y in subterms(fl.term(i.recv)) if y[0] == "call" and callname(y) == "open" for x in
                 (list(y[3][1:2]) + [v for k, v in y[4] if k == "mode"])]
        if any(x[0] == "const" and "a" in str(x[1]) for x in modes):
            ctx.fail("wrong-id", "the id is appended to the one of an earlier checkpoint", i.loc)
    tests = {i.id: p for i in g.of("branch") for p in [result_branch(fl, i, "checkpoint_completed")] if p is not None}
    seen = set()

    def bad(k, msg, i):
        if (k, i.id) not in seen:
            seen.add((k, i.id))
            ctx.fail(k, msg, i.loc)

    for node, dp in RANKS:
        first = (node, dp) == (0, 0)

        def step(i, st):
            ck, w, done, none = st
            if i.id in cid:
                if ck:
                    bad("twice", "a rank can report to the same checkpoint twice", i)
                return (1, w, done, none)
            if i.id in wid:
                if not first:
                    bad("other-rank", f"the checkpoint id is stored by rank node={node} dp={dp} as well", i)
                return (ck, 1, done, none)
            return st

        def edge(i, s, lab, st):
            if lab in ("exc", "exc-base") and no_raise(i):
                return False
            if i.op == "branch" and lab in (True, False) and tests.get(i.id) == lab:
                return (st[0], st[1], 1, st[3])
            if no_dataset(fl, i, lab):
                return st[:3] + (1,)
            return st

        ex = Explorer(fl, lambda i, st: [step(i, st)], edge=edge, fold=True,
                      hook=param_hook(fl, {"node_id": 0, "dp_group_id": 1}, (node, dp)))
        vis = ex.run((0, 0, 0, 0))
        reported = False
        for k in vis:
            i, (ck, w, done, none) = g.ins[k[0]], k[2]
            if i.op != "exit":
                continue
            ctx.count("checkpoint_exits")
            if not ck:
                if none:
                    continue
                bad("not-taking-part", f"rank node={node} dp={dp} can return without taking part in the checkpoint; path {trace(ex.path((i, k[1], k[2])))}", i)
                continue
            reported = True
            if not done:
                bad("no-wait", f"rank node={node} dp={dp} can return before the checkpoint of all ranks is complete; path {trace(ex.path((i, k[1], k[2])))}", i)
            if first and not w:
                bad("not-stored", f"the checkpoint id may not be stored; path {trace(ex.path((i, k[1], k[2])))}", i)
        if not reported:
            bad("not-taking-part", f"rank node={node} dp={dp} never completes a checkpoint", g.entry)
        ctx.count("ranks")
    ctx.floor("checkpoint_exits", 5)


def no_dataset(fl, i, lab):
    """Edge on which no dataset of ours was found."""
    if i.op != "branch" or lab not in (True, False):
        return False
    t, pol = fl.term(i.args[0]), lab
    while t[0] == "un" and t[1] == "Not":
        t, pol = t[2], not pol
    if t[0] == "cmp" and t[1] in ("Is", "IsNot", "Eq", "NotEq") and is_call_term(t[2], "_recover_mixtera_dataset") and t[3] == ("const", None):
        return (t[1] in ("Is", "Eq")) == pol
    return is_call_term(t, "_recover_mixtera_dataset") and not pol


# ------------------------------------------------------------------ feedback
def feedback(ctx):
    m = ctx.proj.func("handle_mixtera_feedback")
    fl = ctx.flow(m, ctx.local_policy(m, None, stop=("_recover_mixtera_dataset", "to_numpy_array")), key="fb")
    g = fl.g
    pf = [i for i in g.calls() if last(i.fn) == "process_feedback"]
    if not pf:
        raise AnchorError("no call of process_feedback()")
    pid = {i.id for i in pf}

    def fields(t):
        c = ctx.proj.cls("ClientFeedback")
        names = [n.target.id for n in c.node.body if type(n).__name__ == "AnnAssign"]
        d = dict(zip(names, t[3]))
        d.update({k: v for k, v in t[4]})
        return d

    for i in pf:
        expect(ctx, i, fl, 0, "job_id", job, "job id")
        t = strip_ids(arg_term(i, fl, 1, "feedback"))
        if not is_call_term(t, "ClientFeedback"):
            raise AnchorError(f"{i.loc}: feedback message not recognised")
        d = fields(t)
        for k in ("training_steps", "losses", "counts"):
            ctx.count("argument_obligations")
            v = d.get(k)
            ps = {x[1] for x in subterms(v) if x[0] == "param"} if v is not None else set()
            if ps != {k}:
                ctx.fail("wrong-arg", f"the {k} sent are {show(v)[:60] if v is not None else 'missing'}", i.loc)
        v = d.get("mixture_id")
        ctx.count("argument_obligations")
        if v is None or not any(x[0] == "attr" and x[2] == "current_mixture_id" or is_call_term(x, "current_mixture_id") for x in subterms(v)):
            ctx.fail("wrong-arg", "the feedback does not name the mixture the client last received", i.loc)
    seen = set()

    def bad(k, msg, i):
        if (k, i.id) not in seen:
            seen.add((k, i.id))
            ctx.fail(k, msg, i.loc)

    for dp, tp in RANKS:
        first = (dp, tp) == (0, 0)

        def step(i, st):
            if i.id in pid:
                if not first:
                    bad("other-rank", f"feedback is sent by rank dp={dp} tp={tp} as well", i)
                elif st == 1:
                    bad("twice", "the same feedback can be sent twice", i)
                return [1]
            return [st]

        def edge(i, s, lab, st):
            if lab in ("exc", "exc-base") and no_raise(i):
                return False
            return 2 if not st and no_dataset(fl, i, lab) else st

        ex = Explorer(fl, step, edge=edge, fold=True,
                      hook=param_hook(fl, {"dp_rank": 0, "tp_rank": 1}, (dp, tp)))
        vis = ex.run(0)
        sent = False
        for k in vis:
            i, st = g.ins[k[0]], k[2]
            if i.op == "exit":
                ctx.count("feedback_exits")
                sent |= st == 1
                if first and not st:
                    bad("not-sent", f"the designated rank can return without sending its feedback; path {trace(ex.path((i, k[1], k[2])))}", i)
        if first and not sent:
            bad("not-sent", "the designated rank never sends feedback", g.entry)
    # a refused feedback is reported
    tests = {i.id: p for i in g.of("branch") for p in [result_branch(fl, i, "process_feedback")] if p is not None}
    ok = False
    for k, p in tests.items():
        s = [x for x, l in g.ins[k].succ if l is (not p)]
        ok |= any(x.op == "raise" or x.op == "assertfail" or x.op == "call" and last(x.fn) in ("error", "warning", "exception", "critical") for x in reach(s, exc=False))
    if not ok:
        ctx.fail("unreported", "a refused feedback is not reported", pf[0].loc)
    ctx.floor("feedback_exits", 5)


# ------------------------------------------------------------------ start / restore
def start(ctx):
    c = ctx.proj.cls("MixteraTorchDataset")
    m = ctx.proj.find_method(c, "__init__")
    fl = ctx.flow(m, ctx.local_policy(m, c, stop=("_init_status_shm",)), selfcls=c, key="init")
    g = fl.g
    ev = {i.id: last(i.fn) for i in g.calls() if last(i.fn) in ("execute_query", "restore_checkpoint") and i.recv is not None}
    if set(ev.values()) != {"execute_query", "restore_checkpoint"}:
        raise AnchorError("start of the query / restore not recognised")
    seen = set()

    def bad(k, msg, i):
        if (k, i.id) not in seen:
            seen.add((k, i.id))
            ctx.fail(k, msg, i.loc)

    for n in ("_dp_group_id", "_node_id"):
        pm = ctx.proj.find_method(c, n)
        if pm is None:
            continue
        pf = ctx.flow(pm, ctx.local_policy(pm, c), selfcls=c, key="p" + n)
        for i in root_returns(pf):
            t = pf.term(i.args[0])
            ctx.count("argument_obligations")
            if t[0] == "attr" and t[2] in ("dp_group_id", "node_id") and t[2] != n[1:]:
                bad("wrong-arg", f"{n} is {show(t)[:60]}", i)
    h = ctx.proj.func("handle_mixtera_checkpoint")
    hf = ctx.flow(h, ctx.local_policy(h, None, stop=("_recover_mixtera_dataset",)), key="chk")
    names = {written_name(hf, i) for i in hf.g.calls() if last(i.fn) in ("write", "write_text") and i.args}
    for i in g.calls():
        if ev.get(i.id) == "restore_checkpoint":
            expect(ctx, i, fl, 0, "job_id", job, "job id")
            t = arg_term(i, fl, 1, "chkpnt_id")
            rd = [x for x in subterms(t) if x[0] == "call" and callname(x) in ("read", "read_text", "readline")]
            if len(rd) != 1:
                bad("wrong-id", f"restores {show(t)[:60]}, which is not the stored id", i)
                continue
            for r in g.calls():
                if r.dst is not None and fl.term(r.dst) == rd[0]:
                    n = written_name(fl, r)
                    if None in names or n is None:
                        raise AnchorError("file of the checkpoint id not recognised")
                    if n not in names:
                        bad("wrong-file", f"the id is read from {n}, but stored in {', '.join(sorted(names))}", i)
                    ctx.count("id_reads")
    ctx.floor("id_reads", 1)
    execd = {i.id: p for i in g.of("branch") for p in [result_branch(fl, i, "execute_query")] if p is not None}
    waits = {i.id: p for i in g.of("branch") for p in [result_branch(fl, i, "wait_for_execution")] if p is not None}
    root = g.frames[0]
    for node, dp in RANKS:
        for leader in (True, False):
            for path in (None, "dir"):
                first = (node, dp) == (0, 0) and leader
                want = "execute_query" if path is None else "restore_checkpoint"

                def hook(d):
                    n = (d.data[1] if isinstance(d.data, tuple) else d.data) if d.op in ("param", "attr") else None
                    if n in ("_node_id", "node_id"):
                        return ("c", node)
                    if n in ("_dp_group_id", "dp_group_id"):
                        return ("c", dp)
                    if n == "execute_query" and d.op == "param" and d.frame is root:
                        return ("c", leader)
                    if n in ("checkpoint_path", "_checkpoint_path"):
                        return ("c", None) if path is None else "truthy"
                    return None

                def step(i, st):
                    if i.id in ev:
                        ctx.count("start_events")
                        if not first:
                            bad("other-rank", f"{ev[i.id]} is also called by rank node={node} dp={dp}" + ("" if leader else " for a copy of the dataset"), i)
                        elif ev[i.id] != want:
                            bad("wrong-start", f"{ev[i.id]} is called {'without' if path is None else 'with'} a checkpoint to restore", i)
                        elif st[0]:
                            bad("twice", "the job is started twice", i)
                        return [(1, st[1], ev[i.id] == "execute_query")]
                    return [st]

                def edge(i, s, lab, st):
                    if lab in ("exc", "exc-base") and no_raise(i):
                        return False
                    if i.op == "branch" and lab in (True, False):
                        if waits.get(i.id) == lab:
                            return (st[0], 1, st[2])
                        if execd.get(i.id) == lab:
                            return (st[0], st[1], False)
                    return st

                ex = Explorer(fl, step, edge=edge, fold=True, hook=hook)
                vis = ex.run((0, 0, False))
                for k in vis:
                    i, st = g.ins[k[0]], k[2]
                    if i.op == "exit":
                        ctx.count("start_exits")
                        if first and not st[0]:
                            bad("not-started", f"the designated rank can finish without {want}", i)
                        if not st[1]:
                            bad("no-wait", "a rank can start reading before the query has been executed", i)
                        if st[2]:
                            bad("unreported", "a failed start of the query is not noticed", i)
    ctx.floor("start_exits", 5)
