"""C16: shared distribution state is only modified under its lock."""
from ..core import *
from ..flow import strip_ids
from .util import *
from .locks import *

SELF = ("self",)


def A(n):
    return ("attr", SELF, n)


def GL(n):
    return ("getlock", A(n))


# class, lock, guarded attributes, methods that build or replace the object before it is shared
GUARDS = [
    ("QueryResult", A("_lock"), {"_mixture", "_generator", "_num_returns_gen"}, {"__init__", "__setstate__", "from_cache"}),
    ("QueryResult", GL("_index"), {"_index"}, {"__init__", "__setstate__", "from_cache"}),
    ("ChunkDistributor", A("_checkpoint_lock"), {"_worker_statuses", "_nodes_reported", "_current_checkpoint_id", "_checkpoint_id_counter", "_checkpoint_info"},
     {"__init__", "from_checkpoint", "checkpoint_completed"}),
    ("LocalStub", A("_training_query_map_lock"), {"_training_query_map"}, {"__init__"}),
    ("MixteraServer", A("_chunk_distributor_map_lock"), {"_chunk_distributor_map"}, {"__init__"}),
    ("MixteraClient", GL("current_mixture_id_val"), {"current_mixture_id_val"}, {"__init__"}),
    ("ThreadedTokenizingIterator", A("lock"), {"buffer", "eos", "chunk_index", "yielded_samples"}, {"__init__"}),
]
CLASSES = ["QueryResult", "ChunkDistributor", "LocalStub", "MixteraServer", "MixteraClient", "ThreadedTokenizingIterator", "MixteraTorchDataset"]


def run(ctx):
    ctx.rule("Lockset analysis of every method that can be entered without a lock held, with helpers inlined: each modification of guarded state "
             "(chunk generator and its count, mixture of a job, chunk index, checkpoint round, job maps, client mixture id, tokenizer buffer, worker completion) happens while its "
             "lock is certainly held; read-modify-write and check-then-create pairs happen in one critical section, and the chunk index is claimed in the same hold of the lock as the request to the generator; no lock is held at any exit, across a yield, "
             "or acquired again while held (unless re-entrant); the acquired-while-held graph has no cycle.")
    for gd in GUARDS:
        ctx.part(guard, ctx, *gd)
    ctx.part(drive, ctx)
    ctx.part(index_claim, ctx)
    ctx.part(client_max, ctx)
    ctx.part(feedback, ctx)
    ctx.part(create_once, ctx, "LocalStub", A("_training_query_map_lock"), "_training_query_map")
    ctx.part(create_once, ctx, "MixteraServer", A("_chunk_distributor_map_lock"), "_chunk_distributor_map")
    ctx.part(background, ctx)
    ctx.part(completion, ctx)
    ctx.part(discipline, ctx)


def flows(ctx, cname):
    c = ctx.proj.cls(cname)
    lf = lock_fields(ctx, c)
    out = []
    for m in entries(ctx, c):
        k = ("c16", cname, m.qual)
        if k not in ctx._flows:
            fl = ctx.flow(m, None, c)
            ctx._flows[k] = (m, fl, LockSets(fl, lf))
        out.append(ctx._flows[k])
    return out


def fname(m):
    return m.qual.split(".")[-1]


def reentrant_mp(l):
    return l[0] == "getlock"


def guard(ctx, cname, lock, attrs, exempt):
    n = 0
    for m, fl, ls in flows(ctx, cname):
        if fname(m) in exempt or m.is_classmethod:
            continue
        for i, a in writes(fl, attrs):
            n += 1
            if i.frame.func.name in exempt:
                continue
            ctx.count("guarded_writes")
            if not ls.held(i, lock):
                ctx.fail(f"unlocked:{cname}.{a}", f"{cname}.{a} is modified without holding {lname(lock)}", i.loc)
            else:
                ctx.sample(f"{cname}.{a} under {lname(lock)}: {i.loc}")
    if not n:
        raise AnchorError(f"no modification of {cname}.{sorted(attrs)} found")


def lname(l):
    return (show(l[1]) + ".get_lock()") if l[0] == "getlock" else show(l)


def is_gen_term(t):
    return any(a == A("_generator") or (a[0] == "call" and last(a[1]) == "_chunk_generator") for a in alts(t))


def drive(ctx):
    """The chunk generator is created and advanced only under the job's lock, with the mixture read under the lock."""
    n = 0
    lock = A("_lock")
    for m, fl, ls in flows(ctx, "QueryResult"):
        if fname(m) in ("__init__", "__setstate__", "from_cache"):
            continue
        for i in fl.g.live:
            tgt = None
            if i.op == "call" and last(i.fn) in ("send", "next", "__next__", "throw", "close"):
                tgt = fl.term(i.recv) if i.recv is not None else (fl.term(i.args[0]) if i.args else None)
            elif i.op == "next":
                tgt = fl.term(i.args[0])
            elif i.op == "attr" and i.data == "_generator" and fl.term(i.args[0]) == SELF:
                tgt = A("_generator")
            if tgt is None or not is_gen_term(tgt):
                continue
            n += 1
            ctx.count("generator_uses")
            if not ls.held(i, lock):
                ctx.fail("drive-unlocked", "the job's chunk generator is used without holding the job's lock", i.loc)
            if i.op == "call" and last(i.fn) == "send":
                # where the mixture that is sent was read
                for r in fl.g.of("attr"):
                    if r.data == "_mixture" and fl.term(r.args[0]) == SELF and not ls.same_region(r, i, lock) and r.frame is i.frame:
                        if i in reach([s for s, _ in r.succ], exc=False):
                            ctx.fail("stale-mixture", "the mixture used for the next chunk is read outside the critical section producing it", r.loc)
    if n < 3:
        raise AnchorError("uses of the chunk generator not found")


def value_sets(fl, name):
    for i in fl.g.of("setattr"):
        if i.data == "value" and root_attr(fl.term(i.args[0])) == name:
            yield i


def value_reads(fl, name):
    for i in fl.g.of("attr"):
        if i.data == "value" and root_attr(fl.term(i.args[0])) == name:
            yield i


def index_claim(ctx):
    """Reading the next chunk index and advancing it is one critical section."""
    lock = GL("_index")
    n = 0
    for m, fl, ls in flows(ctx, "QueryResult"):
        sets = list(value_sets(fl, "_index"))
        reads = list(value_reads(fl, "_index"))
        for s in sets:
            v = fl.term(s.args[1])
            src = [r for r in reads if s in reach([x for x, _ in r.succ], exc=False) and
                   contains(v, lambda x: x[0] == "attr" and x[2] == "value" and root_attr(x) == "_index")]
            if not src:
                continue
            n += 1
            ctx.count("index_updates")
            d = defining(fl, s.args[1])
            opreads = [defining(fl, a) for a in (d.args if d is not None and d.op == "bin" else ())]
            for r in [x for x in opreads if x is not None and x in reads] or src:
                if not ls.same_region(r, s, lock):
                    ctx.fail("index-torn", "the chunk index is read and written back in different critical sections", s.loc)
        # the claimed index is read in the critical section of the increment
        inc = [s for s in sets if (attr_delta(fl, s) or 0) > 0 or reads_plus(fl, s)]
        for i in fl.g.calls():
            if last(i.fn) == "send" and i.recv is not None and is_gen_term(fl.term(i.recv)):
                for r in reads:
                    if i in reach([x for x, _ in r.succ], exc=False) and r.frame is i.frame or feeds(fl, r, i):
                        if inc and not any(ls.same_region(r, s, lock) or ls.same_region(s, r, lock) for s in inc):
                            ctx.fail("index-claim", "the chunk index handed to the generator is not claimed (read and advanced) in one critical section", r.loc)
                # claimed in the same hold of the lock that serialises the generator: the generator never goes back to a chunk
                asked = [r for r in reads if feeds(fl, r, i)]
                for r in asked or [r for r in reads if i in reach([x for x, _ in r.succ], exc=False) and r.frame is i.frame]:
                    ctx.count("index_order")
                    if not ls.same_region(r, i, A("_lock")):
                        ctx.fail("index-order", "the chunk index is claimed outside the critical section in which the generator is asked for it, so two "
                                 "threads can reach the generator in another order than they claimed and one of the chunks is skipped for good", r.loc)
                if not inc:
                    ctx.fail("index-claim", "the chunk index is not advanced when a chunk is requested", i.loc)
    if n < 2:
        raise AnchorError("updates of the chunk index not found")


def reads_plus(fl, s):
    v = fl.term(s.args[1])
    return v[0] == "bin" and v[1] == "Add"


def feeds(fl, r, i):
    """Temp read by r reaches an argument of i through local variables only."""
    work = list(i.args)
    seen = set()
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        d = fl.g.tempdef.get(t)
        if d is None:
            continue
        if d is r:
            return True
        if d.op == "load":
            work += [x.args[0] for x in fl.rdefs(d, d.data) if x is not None]
        elif d.op in ("alias", "tuple", "list", "bin"):
            work += list(d.args)
    return False


def client_max(ctx):
    lock = GL("current_mixture_id_val")
    n = 0
    for m, fl, ls in flows(ctx, "MixteraClient"):
        for s in value_sets(fl, "current_mixture_id_val"):
            v = fl.term(s.args[1])
            if contains(v, lambda x: x[0] == "attr" and x[2] == "value" and root_attr(x) == "current_mixture_id_val"):
                n += 1
                ctx.count("mixture_id_updates")
                for r in value_reads(fl, "current_mixture_id_val"):
                    if feeds_any(fl, r, s.args[1]) and not ls.same_region(r, s, lock):
                        ctx.fail("mixture-id-torn", "the client's current mixture id is read and written back in different critical sections", s.loc)
    if not n:
        raise AnchorError("update of the client's mixture id not found")


def feeds_any(fl, r, t):
    work, seen = [t], set()
    while work:
        t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        d = fl.g.tempdef.get(t)
        if d is None:
            continue
        if d is r:
            return True
        if d.op == "load":
            work += [x.args[0] for x in fl.rdefs(d, d.data) if x is not None]
        else:
            work += [a for a in d.args if isinstance(a, int)] + [a for a in (d.kw or {}).values() if isinstance(a, int)]
            work += [a for a in d.args if not isinstance(a, (int, type(None)))]
    return False


def feedback(ctx):
    """Feedback changes a job's mixture only under the stub's map lock."""
    lock = A("_training_query_map_lock")
    n = 0
    for m, fl, ls in flows(ctx, "LocalStub"):
        for i in fl.g.calls():
            if last(i.fn) == "process_client_feedback":
                n += 1
                ctx.count("feedback_updates")
                if not ls.held(i, lock):
                    ctx.fail("feedback-unlocked", "a job's mixture is updated from feedback without holding the job map lock", i.loc)
    if not n:
        raise AnchorError("feedback processing not found in LocalStub")


def create_once(ctx, cname, lock, attr):
    """Per-job entries are created only after finding, in the same critical section, that there is none."""
    n = 0
    for m, fl, ls in flows(ctx, cname):
        for s in fl.g.of("setitem"):
            if A(attr) not in alts(fl.term(s.args[0])):
                continue
            if "restore" in s.frame.func.name or "restore" in m.name:
                continue  # restoring replaces the job's state on purpose
            n += 1
            ctx.count("job_creations")
            key = strip_ids(fl.term(s.args[1]))
            starts = [fl.g.ins[r] for r in ls.regions(s, lock)]
            if not starts:
                continue  # reported by the guard rule

            def absent(ins, lab):
                return lab in (True, False) and absence(fl, ins, lab, attr, key)

            for st in starts:
                bad, ex = must_pass(fl, st, lambda x: x is s, via=lambda x: False, via_edge=absent, follow_exc=True)
                if bad:
                    ctx.fail(f"created-twice:{attr}", f"an entry of {cname}.{attr} is created without checking, in the same critical section, that the job has none", s.loc)
        for i in fl.g.calls():
            if last(i.fn) == "setdefault" and i.recv is not None and fl.term(i.recv) == A(attr):
                n += 1
                ctx.count("job_creations")
                if last(i.fn) == "setdefault" and any(t[0] == "call" for t in alts(fl.term(i.args[1]))) and not ls.held(i, lock):
                    ctx.fail(f"created-twice:{attr}", f"an entry of {cname}.{attr} is created outside the critical section", i.loc)
    if not n:
        raise AnchorError(f"creation of {cname}.{attr} entries not found")


def absence(fl, ins, lab, attr, key):
    """Branch edge that establishes key not in self.attr."""
    if ins.op != "branch":
        return False
    t = strip_ids(fl.term(ins.args[0]))
    pol = lab
    while t[0] == "un" and t[1] == "Not":
        t, pol = t[2], not pol
    if t[0] == "cmp" and t[1] in ("In", "NotIn"):
        r = t[3]
        if r[0] == "call" and callname(r) == "keys":
            r = r[2]
        if r == A(attr) and t[2] == key:
            return pol == (t[1] == "NotIn")
    def got(x):
        return x[0] == "call" and callname(x) == "get" and x[2] == A(attr) and x[3] and x[3][0] == key
    if t[0] == "cmp" and t[1] in ("Is", "IsNot", "Eq", "NotEq") and got(t[2]) and t[3] == ("const", None):
        return pol == (t[1] in ("Is", "Eq"))
    if got(t):
        return not pol
    return False


def background(ctx):
    """Query execution and checkpoint restoration in the background exclude one another."""
    lock = A("_register_query_lock")
    n = 0
    for m, fl, ls in flows(ctx, "MixteraServer"):
        for i in fl.g.calls():
            nm = last(i.fn)
            hit = nm in ("execute_query", "restore_checkpoint") and i.recv is not None or (
                nm in ("to_thread", "run_in_executor") and any(
                    x[0] == "attr" and x[2] in ("execute_query", "restore_checkpoint") for a in i.args for x in [fl.term(a)]))
            if not hit:
                continue
            n += 1
            ctx.count("background_jobs")
            if not ls.held(i, lock):
                ctx.fail("background-unlocked", "a query is executed or a checkpoint restored in the background without holding the registration lock", i.loc)
    if n < 2:
        raise AnchorError("background execution not found")


def completion(ctx):
    """The last worker is determined and acts inside the critical section in which it marked itself."""
    lock = A("completion_lock")
    n = 0

    def comp(t):
        return contains(t, lambda x: x[0] == "attr" and "comp" in x[2] and "shm" in x[2])

    for m, fl, ls in flows(ctx, "MixteraTorchDataset"):
        marks = [i for i in fl.g.of("setitem") if comp(fl.term(i.args[0])) and fl.term(i.args[-1]) in (("const", 1), ("const", True))]
        tests = [i for i in fl.g.calls() if last(i.fn) in ("all", "sum", "count_nonzero", "any") and any(comp(fl.term(a)) for a in list(i.args) + ([i.recv] if i.recv is not None else []))]
        for i in marks:
            n += 1
            ctx.count("completion_marks")
            if not ls.held(i, lock):
                ctx.fail("completion-unlocked", "a worker marks itself completed without holding the completion lock", i.loc)
            for t in tests:
                if t in reach([s for s, _ in i.succ], exc=False) and not ls.same_region(i, t, lock) and decides(fl, t):
                    ctx.fail("completion-torn", "whether all workers are done is decided outside the critical section in which this worker marked itself", t.loc)
    if not n:
        raise AnchorError("completion marks not found")


def decides(fl, t):
    return any(b.op == "branch" and feeds_any(fl, t, b.args[0]) for b in fl.g.of("branch"))


def discipline(ctx):
    """No lock held at an exit, across yields, or re-acquired; acquired-while-held edges are acyclic."""
    edges = {}
    summ = {}

    def acquires(func, selfcls, depth=0):
        """Locks (class, attr) a call of func may acquire, transitively."""
        k = (func.qual, selfcls.qual if selfcls else None)
        if k in summ:
            return summ[k]
        summ[k] = {}
        if depth > 4:
            return {}
        c = selfcls or func.cls
        fl = ctx.flow(func, None, selfcls, key="locks")
        ls = LockSets(fl, lock_fields(ctx, c) if c is not None else {})
        out = {}
        for a, l in ls.acq.items():
            out.setdefault(canon(ctx, c, l), fl.g.ins[a].loc)
        for i in fl.g.calls():
            if i.target is not None:
                for f in targets(i):
                    for l, loc in acquires(f, f.cls, depth + 1).items():
                        out.setdefault(l, loc)
        summ[k] = out
        return out

    def targets(i):
        t = i.target
        ts = t if isinstance(t, (tuple, list)) else [t]
        out = [x for x in ts if isinstance(x, FuncInfo)]
        for x in ts:
            if isinstance(x, ClassInfo):
                k = ctx.proj.find_method(x, "__init__")
                if k is not None:
                    out.append(k)
        return out

    for cname in CLASSES:
        try:
            c = ctx.proj.cls(cname)
            fs = flows(ctx, cname)
        except AnchorError:
            continue
        lf = lock_fields(ctx, c)
        for m, fl, ls in fs:
            ctx.count("entry_methods")
            g = fl.g
            for ex in (g.exit, g.raise_exit):
                for l, r in ls.may.get(ex.id, ()) if ex is not None else ():
                    ctx.fail(f"leak:{cname}.{m.name}", f"{lname(l)} acquired here can still be held when {m.name} is left", g.ins[r].loc)
            for i in g.live:
                mh = ls.may.get(i.id, ())
                if i.op in ("yield", "await"):
                    for l, r in mh:
                        ctor = lf.get(l[2], ("", None))[0] if l[0] == "attr" else "Value"
                        if i.op == "yield" and not i.frame.func.is_contextmanager or (i.op == "await" and not is_async_lock(fl, g.ins[r])):
                            ctx.fail(f"held-over-{i.op}:{cname}.{m.name}", f"{lname(l)} is held while {m.name} is suspended", i.loc)
                if i.id in ls.acq:
                    ctx.count("acquisitions")
                    l = ls.acq[i.id]
                    kind = lf.get(l[2], ("Lock", None))[0] if l[0] == "attr" else "RLock"
                    for h, r in mh:
                        if h == l and kind not in RLOCKS:
                            ctx.fail(f"reacquired:{cname}.{m.name}", f"{lname(l)} is acquired while it is already held", i.loc)
                        elif h != l:
                            edges.setdefault((canon(ctx, c, h), canon(ctx, c, l)), i.loc)
                if i.op == "call" and mh and i.target is not None and not i.inl:
                    for f in targets(i):
                        for l2, loc in acquires(f, f.cls).items():
                            for h, r in mh:
                                hc = canon(ctx, c, h)
                                if hc == l2:
                                    if l2[0] != "getlock" and i.recv is not None and fl.term(i.recv) == SELF:
                                        ctx.fail(f"reacquired:{cname}.{m.name}", f"{lname(h)} is acquired again by {f.name}", i.loc)
                                else:
                                    edges.setdefault((hc, l2), i.loc)
    ctx.count("lock_order_edges", len(edges))
    adj = {}
    for a, b in edges:
        adj.setdefault(a, set()).add(b)
    for a, b in edges:
        seen, st = set(), [b]
        while st:
            x = st.pop()
            if x == a:
                ctx.fail(f"lock-order:{'/'.join(sorted([str(a[-1]), str(b[-1])]))}", f"{a[1]}.{a[-1]} is held while {b[1]}.{b[-1]} is acquired, and elsewhere in the opposite order", edges[(a, b)])
                break
            if x in seen:
                continue
            seen.add(x)
            st.extend(adj.get(x, ()))


def is_async_lock(fl, i):
    return type(i.node).__name__ == "AsyncWith" or i.op == "call" and any(a.args and defining(fl, a.args[0]) is i for a in fl.g.of("await"))


def canon(ctx, c, l):
    """Lock identity across classes: (kind, class defining it, attribute)."""
    kind, t = (l[0], l[1]) if l[0] == "getlock" else ("lock", l)
    attr = t[2] if t[0] == "attr" else show(t)
    owner = c
    if t[0] == "attr" and t[1] != SELF:
        owner = None
        for k in ("QueryResult", "ChunkDistributor", "LocalStub", "MixteraServer", "MixteraClient"):
            if ctx.proj.has_cls(k) and attr in lock_fields(ctx, ctx.proj.cls(k)):
                owner = ctx.proj.cls(k)
                break
    if owner is not None:
        for k in reversed(ctx.proj.mro(owner)):
            if attr in lock_fields(ctx, k):
                return (kind, k.name, attr)
    return (kind, owner.name if owner is not None else "?", attr)
