"""C30: progress and completion of data workers.

 - progress is published before the sample is handed over, every sample is handed over once;
 - a worker marks itself completed exactly when its stream is exhausted, under the lock, and the shared segments are destroyed only where
   all workers are known to have completed;
 - its own mapping is released on every way out;
 - what copies of the dataset need is handed to them."""
import ast

from .linear import *
from .c18 import loops_around
from ..project import walk_scope


def run(ctx):
    ctx.rule("Paths of the worker's iteration: between receiving a sample and yielding it its position is stored in the worker's own slot; each turn "
             "yields once; the worker's completion slot is set only after the stream's end, on every normal way out, while holding the shared lock; "
             "unlinking only on the branch on which all slots are 1, under the same lock after the own mark; closing on every way out (also "
             "GeneratorExit). Shared arrays: the same shape and element type at every place. Pickling and sharding keep every shared resource.")
    c = ctx.proj.cls("MixteraTorchDataset")
    m = ctx.proj.find_method(c, "__iter__")
    cl = cleanup_method(ctx, c)
    fl = ctx.flow(m, ctx.local_policy(m, c, stop=(cl.name, "num_workers", "worker_id")), selfcls=c, key="iter")
    ar = ctx.part(stream, ctx, c, fl)
    if ar is not None:
        ctx.part(completion, ctx, c, fl, cl, *ar)
        ctx.part(arrays, ctx, c, fl, *ar)
    ctx.part(release, ctx, c, fl, cl)
    ctx.part(cleaner, ctx, c, cl)
    ctx.part(pickling, ctx, c)
    ctx.part(creation, ctx, c)
    ctx.part(sharding, ctx)


def cleanup_method(ctx, c):
    ms = [m for m in c.methods.values() if {"unlink", "close"} <= {n.func.attr for n in ast.walk(m.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}]
    if len(ms) != 1:
        raise AnchorError("release of the shared memory not recognised")
    return ms[0]


def buf_field(t):
    """Field of self whose shared segment array term t is laid over."""
    if is_call_term(t, "ndarray") or is_call_term(t, "frombuffer"):
        for x in subterms(t):
            if x[0] == "attr" and x[2] == "buf" and x[1][0] == "attr" and x[1][1] == ("self",):
                return x[1][2]
    return None


def view_field(fl, t):
    f = buf_field(t)
    if f is None and is_call_term(t, "ndarray", "frombuffer"):
        for x in subterms(t):
            if x[0] == "attr" and x[2] == "buf":
                for i in fl.g.of("setattr"):
                    if fl.term(i.args[0]) == ("self",) and fl.term(i.args[1]) == x[1]:
                        return i.data
    return f


def layout(t):
    """(shape, element type) of an array term."""
    a, kw = t[3], dict(t[4])
    shape = strip_ids(a[0]) if a else strip_ids(kw.get("shape", ("?",)))
    dt = strip_ids(a[1]) if len(a) > 1 else strip_ids(kw.get("dtype", ("?",)))
    if shape[0] == "tuple" and len(shape) == 2:
        shape = shape[1]
    return shape, dt


def own(t):
    return t[0] == "attr" and t[2] == "worker_id" or is_call_term(t, "worker_id")


def sets(fl):
    """(instruction, array term, index term, value term) of item assignments to shared arrays."""
    out = []
    for i in fl.g.of("setitem"):
        a = fl.term(i.args[0])
        f = buf_field(a)
        if f is not None:
            out.append((i, f, a, strip_ids(fl.term(i.args[1])), fl.term(i.args[2])))
    return out


def report(ctx):
    seen = set()

    def bad(k, msg, i):
        if (k, i.id) not in seen:
            seen.add((k, i.id))
            ctx.fail(k, msg, i.loc)
    return bad


def stream(ctx, c, fl):
    g = fl.g
    bad = report(ctx)
    heads = [h for h in g.of("next") if any(is_call_term(x, "stream_results") for x in subterms(fl.term(h.args[0])))]
    if len(heads) != 1:
        raise AnchorError("stream of samples not recognised")
    h = heads[0]
    it = fl.term(h.args[0])
    src = it[-1] if it[0] == "iterof" else it
    if is_call_term(src, "islice", "filter", "takewhile") or src[0] == "item":
        ctx.fail("lost-sample", "only part of the stream is handed over", h.loc)
    el = [x for x in subterms(src) if is_call_term(x, "stream_results")][0]

    def part(t, n):
        t = strip_ids(t)
        return t == ("item", ("elem", strip_ids(el)), ("const", n))

    st = sets(fl)
    pub = [x for x in st if part(x[4], 0)]
    if not pub:
        ctx.fail("unpublished", "the position in the chunk is not published for the samples handed over", h.loc)
        return None
    S = pub[0][1]
    pid = {x[0].id for x in pub}
    for x in st:
        if not own(x[3]):
            bad("other-slot", f"writes slot {show(x[3])[:40]} of the shared state, which is not the worker's own", x[0])
        if x[1] == S and x[0].id not in pid and x[4] != ("const", 0) and any(y is x[0] for y in body_of(h)):
            bad("wrong-progress", f"publishes {show(x[4])[:60]} as the progress of the worker", x[0])
    # the yielded value is the sample (and its key) of the stream
    ys = {i.id for i in g.of("yield") if i.args and any(part(x, 2) for x in subterms(fl.term(i.args[0])))}
    for i in g.of("yield"):
        if i.id not in ys:
            raise AnchorError(f"{i.loc}: value handed over not recognised")
        t = fl.term(i.args[0])
        ps = [x for x in subterms(t) if part(x, 1) or part(x, 2)]
        if t[0] == "call" and len(t[3]) == 2 and not (part(t[3][0], 1) and part(t[3][1], 2)):
            bad("wrong-sample", "key and sample are mixed up", i)
        ctx.count("yields")
    # state: 0 no sample, 1 received, 2 published, 3 handed over
    def step(i, s):
        if i.id in pid:
            if s == 3:
                bad("late-status", "the position of a sample is published only after it was handed over: a checkpoint in between repeats it", i)
            return [2 if s in (1, 2) else s]
        if i.id in ys:
            if s == 1:
                bad("late-status", "a sample is handed over before its position is published", i)
            if s in (0, 3):
                bad("twice", "a sample is handed over twice", i)
            return [3]
        return [s]

    def edge(i, s, lab, st_):
        if lab in ("exc", "exc-base"):
            return False if no_raise(i) else st_
        if i is h:
            if st_ in (1, 2):
                bad("lost-sample", "a received sample is not handed over", i)
            return 1 if lab == "next" else 4
        return st_

    ex = Explorer(fl, step, edge=edge)
    vis = ex.run(0)
    for k in vis:
        i, s = g.ins[k[0]], k[2]
        if i.op == "exit":
            ctx.count("stream_exits")
            if s in (1, 2, 3):
                bad("early-end", "iteration can end normally although the stream is not exhausted", i)
    # the stream is that of the worker
    sw = {i.id for i in g.of("setattr") if i.data == "worker_id" and own(strip_ids(fl.term(i.args[1])))}
    calls = {i.id for i in g.calls() if last(i.fn) == "stream_results"}
    miss, ex = must_pass(fl, g.entry, lambda i: i.id in calls, lambda i: i.id in sw)
    for i, _, _ in miss:
        bad("other-worker", "the stream is requested without setting the worker it is for", i)
    ctx.count("worker_streams", len(calls))
    return h, S, st


# ------------------------------------------------------------------ completion
def all_done(fl, t, C, n=0):
    """True if the truth of t means all workers have completed, False if it means something weaker, None if unknown."""
    t = strip_ids(t)

    def arr(x):
        return buf_field(x) == C

    def flags(x):
        """per-worker truth values"""
        return arr(x) or x[0] == "cmp" and x[1] == "Eq" and arr(x[2]) and x[3] == ("const", 1) or \
            x[0] == "cmp" and x[1] in ("NotEq", "Gt") and arr(x[2]) and x[3] == ("const", 0)

    def args(x):
        return ([x[2]] if x[2] is not None else []) + list(x[3])
    if t[0] == "call" and callname(t) == "bool" and t[3]:
        return all_done(fl, t[3][0], C)
    if t[0] == "call" and callname(t) == "all" and args(t) and flags(args(t)[0]):
        return True
    if t[0] == "call" and callname(t) == "any" and args(t) and any(flags(x) for x in subterms(t)):
        return False
    if t[0] == "call" and callname(t) in ("all",) and args(t) and any(arr(x) for x in subterms(t)):
        if any(x[0] == "item" and arr(x[1]) for x in subterms(t)):
            return False
        return None
    if t[0] == "item" and arr(t[1]):
        return False
    if t[0] == "cmp":
        l, r, o = t[2], t[3], t[1]
        if l[0] == "item" and arr(l[1]) or r[0] == "item" and arr(r[1]):
            return False
        if r[0] == "call" and callname(r) in ("sum", "min", "count_nonzero"):
            l, r, o = r, l, {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(o, o)
        if l[0] == "call" and callname(l) in ("sum", "count_nonzero") and args(l) and flags(args(l)[0]):
            full = r[0] == "attr" and r[2] == "num_workers" or is_call_term(r, "len", "num_workers") or r[0] == "attr" and r[2] == "size"
            if o in ("Eq", "GtE") and full:
                return True
            return False
        if l[0] == "call" and callname(l) == "min" and args(l) and flags(args(l)[0]):
            return o in ("Eq", "GtE") and r == ("const", 1) or o in ("Gt", "NotEq") and r == ("const", 0)
        if l[0] == "call" and callname(l) == "max" and args(l) and flags(args(l)[0]):
            return False
    return None


def completion(ctx, c, fl, cl, h, S, st):
    g = fl.g
    bad = report(ctx)
    comp = [x for x in st if x[1] != S and x[4] != ("const", 0)]
    if not comp:
        ctx.fail("never-completed", "a worker never marks itself completed", h.loc)
        return
    C = comp[0][1]
    mark = {x[0].id for x in comp}
    for x in comp:
        if x[4] not in (("const", 1), ("const", True)):
            bad("wrong-mark", f"marks itself with {show(x[4])[:30]}", x[0])
    resets = {f: {x[0].id for x in st if x[1] == f and x[4] == ("const", 0)} for f in (S, C)}
    for f in (S, C):
        calls = {i.id for i in g.calls() if last(i.fn) == "stream_results"}
        miss, _ = must_pass(fl, g.entry, lambda i: i.id in calls, lambda i: i.id in resets[f])
        ctx.count("resets", len(resets[f]))
        for i, _, _ in miss:
            bad("stale", f"a new iteration starts without resetting the worker's slot in {f}: values of the last one are taken for its own", i)
    tests = {}
    for i in g.of("branch"):
        t, pol = fl.term(i.args[0]), True
        while t[0] == "un" and t[1] == "Not":
            t, pol = t[2], not pol
        if any(buf_field(x) == C for x in subterms(t)):
            a = all_done(fl, t, C)
            if a is None:
                raise AnchorError(f"{i.loc}: test for completion of all workers not recognised")
            if a:
                tests[i.id] = pol
    cls_ = {i.id: i for i in g.calls() if i.target is cl or last(i.fn) == cl.name}
    destroy = {}
    for i in cls_.values():
        t = arg_term(i, fl, 0, params(cl)[0] if params(cl) else None)
        destroy[i.id] = strip_ids(t) if t is not None else ("const", True)
    # one lock for all copies
    locks = {strip_ids(fl.term(i.args[0])) for i in g.of("with_enter")}

    def islock(i):
        t = strip_ids(fl.term(i.args[0]))
        return t[0] == "attr" and t[1] == ("self",) and "lock" in t[2].lower()

    # state: (stream ended, marked, lock held, all known complete, closed)
    def step(i, s):
        ended, marked, lock, alld = s
        if i.id in mark:
            if not ended:
                bad("early-mark", "a worker can be marked completed before its stream is exhausted", i)
            if not lock:
                bad("unlocked", "a worker marks itself completed without the lock: two workers finishing together may both (or neither) find all complete", i)
            return [(ended, 1, lock, alld)]
        if i.op == "with_enter" and islock(i):
            return [(ended, marked, 1, 0)]
        if i.op == "with_exit" and islock(i):
            return [(ended, marked, 0, alld)]
        if i.op == "call" and last(i.fn) in ("acquire", "release") and i.recv is not None and "lock" in show(fl.term(i.recv)).lower():
            return [(ended, marked, int(last(i.fn) == "acquire"), alld)]
        if i.id in destroy and destroy[i.id] != ("const", False):
            v = destroy[i.id]
            a = all_done(fl, v, C)
            ctx.count("destroy_sites")
            if v == ("const", True) and not alld or v != ("const", True) and a is False:
                bad("early-destroy", "the shared segments can be destroyed although not all workers have completed", i)
            elif v != ("const", True) and a is None:
                raise AnchorError(f"{i.loc}: when segments are destroyed is not recognised")
            elif not marked:
                bad("early-destroy", "the shared segments can be destroyed by a worker that has not completed itself", i)
            elif not lock:
                bad("unlocked", "the test for completion of all workers and the destruction are not under one lock", i)
        return [s]

    def edge(i, s, lab, x):
        if lab in ("exc", "exc-base"):
            if no_raise(i):
                return False
        if i is h and lab == "stop":
            return (1,) + x[1:]
        if i.op == "branch" and lab in (True, False) and tests.get(i.id) == lab:
            if not x[2]:
                bad("unlocked", "completion of all workers is tested without the lock", i)
            if not x[1]:
                bad("early-destroy", "completion of all workers is tested before the worker marked itself", i)
            return x[:3] + (1,)
        return x

    ex = Explorer(fl, step, edge=edge, follow_base=True)
    vis = ex.run((0, 0, 0, 0))
    for k in vis:
        i, s = g.ins[k[0]], k[2]
        if i.op == "exit":
            ctx.count("completion_exits")
            if s[0] and not s[1]:
                bad("never-completed", f"a worker can finish its stream without being marked completed; path {trace(ex.path((i, k[1], s)))}", i)
    ctx.floor("completion_exits", 1)
    if not any(v == ("const", True) or all_done(fl, v, C) for v in destroy.values()):
        ctx.count("destroyed_by_creator")


def params(m):
    ps = [a.arg for a in m.node.args.posonlyargs + m.node.args.args]
    return ps[1:] if ps and ps[0] == "self" else ps


# ------------------------------------------------------------------ release
def release(ctx, c, fl, cl):
    g = fl.g
    bad = report(ctx)
    calls = {i.id for i in g.calls() if i.target is cl or last(i.fn) == cl.name}
    if not calls:
        ctx.fail("not-released", "the shared memory is not released when iteration ends", g.entry.loc)
        return
    began = {i.id for i in g.calls() if last(i.fn) in ("ndarray", "stream_results")}

    def step(i, s):
        if i.id in calls:
            return [2]
        if i.id in began and s == 0:
            return [1]
        return [s]

    def edge(i, s, lab, st):
        if lab in ("exc", "exc-base"):
            if i.id in calls:
                return False
            if i.id in began:
                return max(st, 1)
            if no_raise(i):
                return False
        return st

    ex = Explorer(fl, step, edge=edge, follow_base=True)
    vis = ex.run(0)
    for k in vis:
        i, s = g.ins[k[0]], k[2]
        if i.op in ("exit", "raise_exit"):
            ctx.count("release_exits")
            if s == 1:
                bad("not-released", f"iteration can end without releasing the shared memory; path {trace(ex.path((i, k[1], s)))}", i)
    ctx.floor("release_exits", 2)


def cleaner(ctx, c, cl):
    fl = ctx.flow(cl, ctx.local_policy(cl, c), selfcls=c, key="clean")
    g = fl.g
    bad = report(ctx)
    segs = set()
    un = [i for i in g.calls() if last(i.fn) == "unlink" and i.recv is not None]
    co = [i for i in g.calls() if last(i.fn) == "close" and i.recv is not None]
    p = params(cl)[0] if params(cl) else None

    def seg(i):
        for x in subterms(fl.term(i.recv)):
            if x[0] == "attr" and x[1] == ("self",) and "shm" in x[2]:
                return x[2]
        return None
    segs = ({seg(i) for i in co + un} | {i.data for i in g.of("setattr") if fl.term(i.args[0]) == ("self",) and "shm" in i.data}) - {None}
    if not segs or p is None:
        raise AnchorError(f"{cl.qual}: released segments not recognised")

    for val in (True, False):
        def hook(d):
            if d.op == "param" and (d.data == p or isinstance(d.data, tuple) and d.data[1] == p) and d.frame is g.frames[0]:
                return ("c", val)
            if d.op == "attr" and d.data in segs:
                return "truthy"
            return None

        def step(i, s):
            if i in un:
                if not val:
                    bad("early-destroy", "a segment is destroyed although only this worker's mapping was to be closed", i)
                return [s | {("u", seg(i))}]
            if i in co:
                return [s | {("c", seg(i))}]
            return [s]

        ex = Explorer(fl, lambda i, s: [frozenset(x) for x in step(i, s)], hook=hook,
                      edge=lambda i, s, lab, st: False if lab in ("exc", "exc-base") and (no_raise(i) or i not in co and i not in un) else st)
        ex2 = Explorer(fl, lambda i, s: [frozenset(x) for x in step(i, s)], hook=hook, follow_exc=False)
        for k in ex.run(frozenset()):
            i, s = g.ins[k[0]], k[2]
            if i.op == "raise_exit":
                bad("raises", "a failure while releasing escapes and leaves other segments open", i)
        for k in ex2.run(frozenset()):
            i, s = g.ins[k[0]], k[2]
            if i.op == "exit":
                ctx.count("cleanup_exits")
                for f in sorted(segs):
                    if ("c", f) not in s:
                        bad("not-released", f"{f} is not closed", i)
                    if val and ("u", f) not in s:
                        bad("not-destroyed", f"{f} is not destroyed when all workers have completed", i)
    ctx.floor("cleanup_exits", 2)
    ctx.count("segments", len(segs))


# ------------------------------------------------------------------ arrays and creation
def arrays(ctx, c, fl, h, S, st):
    lay = {}
    for m in c.methods.values():
        f2 = ctx.flow(m, (lambda *a: False), selfcls=c, key="arr" + m.name)
        for i in f2.g.calls():
            if last(i.fn) in ("ndarray", "frombuffer") and i.dst is not None:
                f = view_field(f2, f2.term(i.dst))
                if f is not None:
                    l = layout(f2.term(i.dst))
                    ctx.count("array_views")
                    lay.setdefault(f, []).append((l, i, m))
    for f, ls in lay.items():
        kinds = {l[1] for l, _, _ in ls if l[1][0] not in ("?",)}
        shapes = {l[0] for l, _, _ in ls if not any(x[0] in ("param", "phi", "unknown", "?") for x in subterms(l[0]))}
        if len(kinds) > 1:
            ctx.fail("layout", f"{f} is accessed with different element types: {', '.join(sorted(show(x)[:20] for x in kinds))}", ls[-1][1].loc)
        if len(shapes) > 1:
            ctx.fail("layout", f"{f} is accessed with different shapes: {', '.join(sorted(show(x)[:30] for x in shapes))}", ls[-1][1].loc)
    # worker_status reports the published segment
    pm = ctx.proj.find_method(c, "worker_status")
    if pm is None:
        raise AnchorError("worker_status not found")
    pf = ctx.flow(pm, ctx.local_policy(pm, c), selfcls=c, key="status")
    bad = report(ctx)
    rets = []
    for i in root_returns(pf):
        for x in subterms(pf.term(i.args[0])):
            f = buf_field(x)
            if f is not None:
                rets.append(i)
                if f != S:
                    bad("wrong-status", f"worker_status reports {f}, the progress is published in {S}", i)
                # a closed segment has no buffer; numpy would allocate a fresh array
                guards = {}
                for b in pf.g.of("branch"):
                    t, pol = strip_ids(pf.term(b.args[0])), True
                    while t[0] == "un" and t[1] == "Not":
                        t, pol = t[2], not pol
                    if t[0] == "cmp" and t[1] in ("Is", "IsNot") and t[3] == ("const", None) and t[2][0] == "attr" and t[2][2] == "buf":
                        guards[b.id] = (t[1] == "IsNot") == pol
                    elif t[0] == "attr" and t[2] == "buf":
                        guards[b.id] = pol
                nd = {k.id for k in pf.g.calls() if last(k.fn) in ("ndarray",)}
                miss, _ = must_pass(pf, pf.g.entry, lambda k: k.id in nd, lambda k: False, via_edge=lambda k, lab: guards.get(k.id) == lab)
                if miss:
                    bad("garbage-status", "a closed segment is reported as status: numpy allocates uninitialised memory for it", miss[0][0])
                ctx.count("status_reads")
    ctx.floor("status_reads", 1)
    ctx.floor("array_views", 4)


def creation(ctx, c):
    made = [(m, n) for m in c.methods.values() for n in ast.walk(m.node) if isinstance(n, ast.Call) and last(ast.unparse(n.func)) == "SharedMemory"
            and any(k.arg == "create" for k in n.keywords)]
    if not made:
        raise AnchorError("creation of the shared segments not recognised")
    for m in {id(x): x for x, _ in made}.values():
        fl = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="create")
        g = fl.g
        for i in g.calls():
            if last(i.fn) != "SharedMemory":
                continue
            name = arg_term(i, fl, 0, "name")
            if name is None:
                raise AnchorError(f"{i.loc}: name of a shared segment not recognised")
            name = strip_ids(name)
            reg = {k.id for k in g.calls() if last(k.fn) in ("add", "append") and k.args and (strip_ids(fl.term(k.args[0])) == name
                   or strip_ids(fl.term(k.args[0]))[0] == "attr" and strip_ids(fl.term(k.args[0]))[2] == "name")}
            ctx.count("segments_created")
            miss, _ = must_pass(fl, i, lambda k: k.op == "exit", lambda k: k.id in reg, follow_exc=False)
            if miss:
                ctx.fail("leak", "a segment is created that the exit handler does not know: it is never destroyed if a worker stops early", i.loc)
            # named after job, group and node
            ps = {x[2] for x in subterms(name) if x[0] == "attr"} | {last(x[1]) for x in subterms(name) if x[0] == "call" and x[1]}
            for what, alts_ in (("the job", {"job_id"}), ("the data parallel group", {"_dp_group_id", "dp_group_id"}), ("the node", {"_node_id", "node_id"})):
                if not ps & alts_:
                    ctx.fail("collision", f"the name of a shared segment does not depend on {what}", i.loc)
    ctx.floor("segments_created", 2)


# ------------------------------------------------------------------ copies
def pickling(ctx, c):
    gs, ss = ctx.proj.find_method(c, "__getstate__"), ctx.proj.find_method(c, "__setstate__")
    if gs is None or ss is None:
        return
    gf = ctx.flow(gs, ctx.local_policy(gs, c), selfcls=c, key="getstate")
    sf = ctx.flow(ss, ctx.local_policy(ss, c), selfcls=c, key="setstate")
    rets = root_returns(gf)
    for i in rets:
        t = strip_ids(gf.term(i.args[0]))
        while t[0] == "call" and callname(t) in ("copy", "dict", "deepcopy"):
            t = t[2] if t[2] is not None else t[3][0]
        if t != ("attr", ("self",), "__dict__") and t[0] not in ("dict0", "comp"):
            raise AnchorError(f"{gs.qual}: pickled state not recognised")
        if strip_ids(gf.term(i.args[0])) == ("attr", ("self",), "__dict__"):
            ctx.fail("shared-state", "the object itself loses what is left out of its pickled form", i.loc)
    gone = {}
    for i in gf.g.live:
        if i.op == "delitem":
            t = gf.term(i.args[1])
            if t[0] == "const":
                gone[t[1]] = i
        if i.op == "call" and last(i.fn) == "pop" and i.args and gf.term(i.args[0])[0] == "const":
            gone[gf.term(i.args[0])[1]] = i
        if i.op == "setitem" and gf.term(i.args[1])[0] == "const":
            gone[gf.term(i.args[1])[1]] = i
    ctx.count("left_out", len(gone))
    upd = [i for i in sf.g.calls() if last(i.fn) == "update" or last(i.fn) == "__dict__"]
    if not any(any(x[0] == "param" for x in subterms(sf.term(i.args[0]))) for i in upd if i.args) and \
            not any(i.op == "setattr" and i.data == "__dict__" for i in sf.g.live):
        ctx.fail("lost-state", "the pickled state is not restored", sf.g.entry.loc)
    made = {i.data for i in sf.g.of("setattr")}
    for k, i in gone.items():
        if k not in made:
            ctx.fail("lost-state", f"copies in worker processes lack {k}", i.loc)
    # attributes read while restoring must be restored before
    for i in sf.g.of("setattr"):
        if i.data in gone:
            miss, _ = must_pass(sf, sf.g.entry, lambda k: k is i, lambda k: k in upd, follow_exc=False)
            if miss:
                ctx.fail("lost-state", f"{i.data} is set up before the state it depends on is restored", i.loc)
            miss, _ = must_pass(sf, sf.g.entry, lambda k: k.op == "exit", lambda k: k.op == "setattr" and k.data == i.data, follow_exc=False)
            if miss:
                ctx.fail("lost-state", f"copies in worker processes may lack {i.data}", i.loc)


def sharding(ctx):
    ks = ctx.proj.classes.get("_MixteraHFIterable")
    if not ks:
        raise AnchorError("Hugging Face iterable not found")
    c = ks[0]
    m = ctx.proj.find_method(c, "shard_data_sources")
    fl = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="shard")
    bad = report(ctx)
    made = [i for i in fl.g.calls() if last(i.fn) == c.name or i.op == "call" and last(i.fn) == "__class__"]
    if not made:
        raise AnchorError("copies for shards not recognised")
    base = ctx.proj.find_method(c, "__init__")
    names = [a.arg for a in base.node.args.args][1:]
    want = {"_status_shm": "_status_shm", "_comp_shm": "_comp_shm", "completion_lock": "completion_lock", "client": "_client", "query": "_query",
            "query_execution_args": "_query_execution_args"}
    for i in made:
        for p, f in want.items():
            if p not in names:
                continue
            t = arg_term(i, fl, names.index(p), p)
            t = strip_ids(t) if t is not None else None
            ctx.count("shared_with_shards")
            if t is None or t[0] == "const":
                bad("not-shared", f"a shard is created without the {p} of the dataset", i)
            elif t != ("attr", ("self",), f):
                bad("not-shared", f"a shard gets {show(t)[:50]} as {p}", i)
        t = arg_term(i, fl, names.index("result_streaming_args"), "result_streaming_args")
        t = strip_ids(t) if t is not None else ("?",)
        if t == ("attr", ("self",), "_res_str_args"):
            bad("shared-args", "all shards use the same streaming arguments: they take over each other's worker id", i)
        wid = [k for k in fl.g.of("setattr") if k.data == "worker_id"]

        def own_index(t):
            while t[0] == "call" and last(t[1]) == "int" and len(t[3]) == 1:
                t = t[3][0]
            return t == ("param", "index")
        if not wid or not all(own_index(strip_ids(fl.term(k.args[1]))) for k in wid):
            bad("other-worker", "a shard does not get its own index as worker id", i)
        t = arg_term(i, fl, names.index("_shard_call_count"), "_shard_call_count") if "_shard_call_count" in names else None
        if t is None or t[0] == "const" or t == ("attr", ("self",), "_shard_call_count"):
            bad("executed-again", "a shard is not marked as a copy: it starts the query again", i)
        for r in root_returns(fl):
            if not contains(fl.term(r.args[0]), lambda x: x[0] == "call" and last(x[1] or "") == c.name):
                bad("not-shared", "the copy is not what is returned", r)
    # constructor hands everything on
    inf = ctx.flow(base, (lambda *a: False), selfcls=c, key="hfinit")
    tb = ctx.proj.cls("MixteraTorchDataset")
    ti = ctx.proj.find_method(tb, "__init__")
    tn = [a.arg for a in ti.node.args.args]
    for i in inf.g.calls():
        if last(i.fn) == "__init__" and ("MixteraTorchDataset" in (i.fn or "") or "super" in (i.fn or "")):
            off = 0 if i.args and inf.term(i.args[0]) == ("self",) else 1
            for p in tn[1:]:
                if p not in names:
                    continue
                t = arg_term(i, inf, tn.index(p) - off, p)
                ctx.count("handed_on")
                if t is None:
                    bad("not-shared", f"{p} is not handed on to the data set implementation", i)
                elif strip_ids(t) != ("param", p):
                    bad("not-shared", f"{show(t)[:50]} is handed on as {p}", i)
            t = arg_term(i, inf, tn.index("execute_query") - off, "execute_query")
            if t is None or not (t[0] == "cmp" and t[1] in ("Eq", "Lt", "LtE") and contains(t, lambda x: x == ("param", "_shard_call_count"))
                                 or t[0] == "un" and t[2] == ("param", "_shard_call_count")):
                bad("executed-again", "copies of the dataset start the query again", i)
    # every sample is passed on
    it = ctx.proj.find_method(c, "__iter__")
    f3 = ctx.flow(it, (lambda *a: False), selfcls=c, key="hfiter")
    for h in f3.g.of("next"):
        t = f3.term(h.args[0])
        t = t[-1] if t[0] == "iterof" else t
        while is_call_term(t, "enumerate", "iter") and t[3]:
            t = t[3][0]
        if not is_call_term(t, "__iter__"):
            continue
        ys = {y.id for y in f3.g.of("yield")}
        for kind, p in loop_paths(f3, h):
            ctx.count("shard_turns")
            n = sum(1 for i, _ in p if i.id in ys)
            if kind in ("break", "return"):
                bad("lost-sample", "iteration stops before the stream is exhausted", p[-1][0])
            elif kind == "loop" and n != 1:
                bad("lost-sample" if not n else "twice", f"a sample is handed over {n} times", h)
    ctx.floor("shard_turns", 1)
