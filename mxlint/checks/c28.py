"""C28: parallel readers deliver every sample or fail.

 - workloads of a key are divided completely and without overlap among the started readers;
 - a reader reads every workload with the same dataset type, file, ranges and parsing function as single-process reading, puts every
   sample, and puts the end marker once, last, and never after a failure;
 - the end marker is not a value a sample can have, and the consumer recognises exactly it;
 - the consumer hands out everything it receives once, drops a reader only after its end marker, and fails if a reader has died."""
import ast

from ..project import walk_scope
from .linear import *
from .c18 import loops_around

RCH = "ResultChunk"
READ = "read_ranges_from_files"


def run(ctx):
    ctx.rule("Reader function (target of the Process): on every path each workload is read with the same arguments as in single-process reading and "
             "every sample is put on the queue; the end marker is put exactly once on every normal way out, after the loop over all workloads, and on "
             "no path with a failure. Marker: a type of its own, tested by type. Consumer: after each received value it is the marker or is yielded "
             "once; a reader is removed only after its marker; an empty queue leads to a failure unless the reader is alive; it ends only when no "
             "reader is left. Division: the slices handed to the readers are consecutive and cover the list of workloads, for every key.")
    c = ctx.proj.cls(RCH)
    spin, proc = spawner(ctx, c)
    for _ in range(3):
        sf = ctx.flow(spin, ctx.local_policy(spin, c), selfcls=c, key="spin" + spin.name)
        calls = [i for i in sf.g.calls() if last(i.fn) == "Process"]
        if len(calls) != 1:
            raise AnchorError("start of the reader processes not recognised")
        up = [m for m in c.methods.values() if m is not spin and any(isinstance(n, ast.Attribute) and n.attr == spin.name for n in ast.walk(m.node))]
        if len(up) != 1 or len(loops_around(sf, calls[0])) >= 2:
            break
        spin = up[0]
    rf = ctx.flow(proc, ctx.local_policy(proc, c), selfcls=c, key="reader")
    amap = process_args(ctx, sf, calls[0], proc)
    ctx.part(reader, ctx, c, rf, sf, amap)
    ctx.part(consumer, ctx, c, rf)
    ctx.part(division, ctx, c, sf, rf, calls[0], amap)


def spawner(ctx, c):
    for k in ctx.proj.mro(c):
        for m in k.methods.values():
            for n in ast.walk(m.node):
                if isinstance(n, ast.Call) and last(ast.unparse(n.func)) == "Process":
                    for kw in n.keywords:
                        if kw.arg == "target" and isinstance(kw.value, ast.Attribute):
                            t = ctx.proj.find_method(c, kw.value.attr)
                            if t is not None:
                                return m, t
    raise AnchorError("no reader process is started")


def process_args(ctx, sf, call, proc):
    """Parameter name of the reader -> term of the value passed."""
    t = arg_term(call, sf, 3, "args")
    if t is None or t[0] not in ("tuple", "list"):
        raise AnchorError(f"{call.loc}: arguments of the reader not recognised")
    ps = [a.arg for a in proc.node.args.posonlyargs + proc.node.args.args]
    if ps and ps[0] in ("self", "cls"):
        ps = ps[1:]
    if len(ps) < len(t) - 1:
        raise AnchorError(f"{call.loc}: more arguments than parameters")
    return {p: v for p, v in zip(ps, t[1:])}


def has_yield(m):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(m.node))


# ------------------------------------------------------------------ reader
def through(t, amap):
    """Reader-side term in terms of the spawner (parameters replaced, dumps/loads removed)."""
    t = strip_ids(t)
    if t[0] == "param" and t[1] in amap:
        return strip_ids(amap[t[1]])
    if t[0] == "call" and last(t[1]) == "loads" and t[3]:
        x = through(t[3][0], amap)
        if x[0] == "call" and last(x[1]) == "dumps" and x[3]:
            return strip_ids(x[3][0])
    return t


def roles(ctx, c):
    """Position of dataset id, file id and ranges in a workload."""
    for name in [m.name for m in c.methods.values() if "workload" in m.name or "prepare" in m.name]:
        m = ctx.proj.find_method(c, name)
        fl = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="w" + name)
        for i in fl.g.calls():
            if last(i.fn) != "append" or not i.args:
                continue
            t = strip_ids(fl.term(i.args[0]))
            if t[0] != "tuple" or len(t) != 4:
                continue
            v = [n for n, x in enumerate(t[1:]) if x[0] == "valof"]
            if len(v) != 1:
                continue
            files = t[1 + v[0]][1]
            f = [n for n, x in enumerate(t[1:]) if x[0] == "keyof" and x[1] == files]
            d = [n for n, x in enumerate(t[1:]) if x[0] == "keyof" and x[1] != files]
            if len(f) == 1 and len(d) == 1:
                return {"ds": d[0], "file": f[0], "ranges": v[0]}, fl, i
    raise AnchorError("construction of workloads not recognised")


def read_args(fl, i, amap):
    """(dataset types, position, file paths, position, ranges position, functions, position, connection) of a read call."""
    def pos(t, what):
        t = strip_ids(t)
        if t[0] == "item" and t[1][0] == "elem" and t[2][0] == "const":
            return t[2][1], through(t[1][1], amap)
        raise AnchorError(f"{i.loc}: {what} is not taken from a workload")

    def ix(t, what):
        t = strip_ids(t)
        if t[0] != "item":
            raise AnchorError(f"{i.loc}: {what} not recognised")
        return through(t[1], amap), pos(t[2], what)

    rt = fl.term(i.recv)
    types, d = ix(rt, "dataset type")
    a = arg_term(i, fl, 0, "ranges_per_file")
    if a is None:
        raise AnchorError(f"{i.loc}: ranges not recognised")
    a = strip_ids(a)
    if a[0] == "dict" and len(a) == 2:
        k, v = a[1]
    else:
        its = list(fl.items_set(arg_term(i, fl, 0, "ranges_per_file")))
        if a[0] != "dict0" or len(its) != 1:
            raise AnchorError(f"{i.loc}: ranges not recognised")
        k, v = its[0][1], its[0][2]
    paths, f = ix(k, "file")
    r = pos(v, "ranges")
    fn = arg_term(i, fl, 1, "parsing_func")
    funcs, f2 = ix(fn, "parsing function")
    conn = arg_term(i, fl, 2, "server_connection")
    return dict(types=types, ds=d, paths=paths, file=f, ranges=r, funcs=funcs, fds=f2, conn=None if conn is None else through(conn, amap))


def reads_of(fl):
    return [i for i in fl.g.calls() if last(i.fn) == READ and i.recv is not None]


def check_args(ctx, fl, i, amap, ro, ref):
    a = read_args(fl, i, amap)
    ctx.count("read_calls")
    for part, want in (("ds", "ds"), ("file", "file"), ("ranges", "ranges"), ("fds", "ds")):
        if a[part][0] != ro[want]:
            what = {"ds": "dataset type", "file": "file", "ranges": "ranges", "fds": "parsing function"}[part]
            ctx.fail("wrong-args", f"the {what} of a workload is looked up with the wrong part of it", i.loc)
    w = {a[p][1] for p in ("ds", "file", "ranges", "fds")}
    if len(w) != 1:
        ctx.fail("wrong-args", "parts of different workloads are combined", i.loc)
    if ref is not None:
        for k in ("types", "paths", "funcs", "conn"):
            if a[k] != ref[k]:
                ctx.fail("wrong-args", f"parallel reading uses {show(a[k])[:60] if a[k] else None} where single-process reading uses {show(ref[k])[:60] if ref[k] else None}", i.loc)
    return a


def puts(fl):
    return [i for i in fl.g.calls() if last(i.fn) in ("put", "put_nowait") and i.recv is not None]


def is_sample(fl, i, rd):
    """The put value is an element of what the read call returns."""
    t = fl.term(i.args[0])
    return any(x[0] == "elem" and x[1][0] == "call" and last(x[1][1]) == READ for x in subterms(t))


def reader(ctx, c, fl, sf, amap):
    g = fl.g
    ro, wf, wi = roles(ctx, c)
    ref = None
    for m in c.methods.values():
        if has_yield(m):
            f2 = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="st" + m.name)
            for i in reads_of(f2):
                ref = check_args(ctx, f2, i, {}, ro, None)
                single(ctx, f2, i)
    rd = reads_of(fl)
    if not rd:
        raise AnchorError("the reader reads no ranges")
    for i in rd:
        check_args(ctx, fl, i, amap, ro, ref)
    ps = puts(fl)
    sample = [i for i in ps if is_sample(fl, i, rd)]
    ends = {i.id for i in ps if i not in sample}
    if not sample:
        ctx.fail("lost-sample", "the reader puts no samples on its queue", g.func.module.rel)
        return
    for s in sample:
        t = fl.term(s.args[0])
        if t[0] not in ("elem", "tuple"):
            raise AnchorError(f"{s.loc}: value put on the queue not recognised")
    heads = every(ctx, fl, sample)
    # end marker
    T, F, E = range(3)

    def step(i, st):
        if i.id in ends:
            ctx.count("end_puts")
            if st[1] and not st[2]:
                bad("end-after-failure", "a reader that failed reports an ordinary end of its samples", i)
            if not st[0] and not st[2]:
                bad("early-end", "the reader can report its end before it has read all of its workloads", i)
            if st[3]:
                bad("double-end", "the end is reported more than once", i)
            return (st[0], st[1], st[2], 1, st[4])
        if st[3] and i in sample:
            bad("early-end", "samples are put on the queue after the end was reported", i)
        return st

    seen = set()

    def bad(k, msg, i):
        if (k, i.id) not in seen:
            seen.add((k, i.id))
            ctx.fail(k, msg, i.loc)

    def edge(i, s, lab, st):
        if lab in ("exc", "exc-base") and no_raise(i):
            return False
        if i.id in heads and lab == "stop":
            st = (1,) + st[1:]
        if i.id in heads and lab == "next":
            st = (0,) + st[1:]
        if s.op == "handler":
            st = (st[0], 1) + st[2:]
        if i.op == "branch" and lab in (True, False):
            k = known(fl, i, lab)
            if k is not None and k not in st[4]:
                st = st[:4] + (st[4] + (k,),)
            if gone(fl, i, lab, st[4]):
                st = st[:2] + (1,) + st[3:]
        return st

    ex = Explorer(fl, lambda i, st: [step(i, st)], edge=edge)
    vis = ex.run((0, 0, 0, 0, ()))
    for k in vis:
        i, st = g.ins[k[0]], k[2]
        if i.op == "exit":
            ctx.count("reader_exits")
            if not st[3] and not st[2] and not st[1]:
                bad("no-end", f"the reader can finish without reporting its end; path {trace(ex.path((i, k[1], st)))}", i)
    ctx.floor("reader_exits", 1)


def known(fl, i, lab):
    """Term known not to be None after this edge."""
    t = strip_ids(fl.term(i.args[0]))
    neg = False
    while t[0] == "un" and t[1] == "Not":
        t, neg = t[2], not neg
    if t[0] == "cmp" and t[1] in ("Is", "IsNot") and t[3] == ("const", None):
        return t[2] if (t[1] == "IsNot") == (lab != neg) else None
    return t if (lab != neg) and t[0] != "cmp" else None


def gone_on(fl, p):
    nn = []
    for i, lab in p:
        if i.op == "branch" and lab in (True, False):
            if gone(fl, i, lab, nn):
                return True
            k = known(fl, i, lab)
            if k is not None:
                nn.append(k)
    return False


def gone(fl, i, lab, notnone):
    """Edge on which the process that consumes the samples is known to be gone."""
    t = fl.term(i.args[0])
    neg = False
    while t[0] == "un" and t[1] == "Not":
        t, neg = t[2], not neg
    if t[0] == "cmp" and "getppid" in show(t) and all("getppid" in show(x) for x in t[2:4]):
        for x in map(strip_ids, t[2:4]):
            if x[0] == "phi" and ("const", None) in x[1] and x not in notnone:
                return False
        return (t[1] in ("NotEq", "IsNot")) == (lab != neg)
    return False


def every(ctx, fl, sample):
    """Each turn of the loop over samples puts one, each turn of the loop over workloads reads it completely; returns the heads of the
    outermost loops (over workloads)."""
    sid = {i.id for i in sample}
    outer = set()
    for s in sample:
        hs = loops_around(fl, s)
        if len(hs) < 2:
            raise AnchorError(f"{s.loc}: loops of the reader not recognised")
        inner, out = hs[-1], hs[0]
        outer.add(out.id)
        for h in hs:
            if h.op != "next":
                raise AnchorError(f"{s.loc}: loops of the reader not recognised")
            it = fl.term(h.args[0])
            src = it[-1] if it[0] == "iterof" else it
            if any(x[0] == "slice" or x[0] == "call" and last(x[1]) in ("islice", "filter", "takewhile", "set", "sample") for x in subterms(src)):
                ctx.fail("lost-sample", "only part of the workloads or samples is read", h.loc)
        for n, h in enumerate(hs):
            nxt = hs[n + 1] if n + 1 < len(hs) else None
            for kind, p in loop_paths(fl, h):
                if kind == "raise":
                    continue
                ctx.count("reader_turns")
                if gone_on(fl, p):
                    continue
                if kind in ("break", "return"):
                    if h.op == "next" and p and p[-1][0] is not h:
                        ctx.fail("lost-sample", f"the reader can leave the loop over its {'workloads' if n == 0 else 'samples'} before it has read all of them", p[-1][0].loc)
                    continue
                if kind == "loop":
                    hit = [i for i, _ in p if (i is nxt if nxt is not None else i.id in sid)]
                    if not hit:
                        ctx.fail("lost-sample", f"a turn of the loop over {'workloads' if nxt is not None else 'samples'} can skip {'one' if nxt is not None else 'putting one on the queue'}", h.loc)
                    elif nxt is None and len(hit) > 1:
                        ctx.fail("lost-sample", "a sample is put on the queue more than once", h.loc)
    return outer


def single(ctx, fl, i):
    """Single-process reading yields from every workload."""
    hs = loops_around(fl, i)
    if not hs:
        raise AnchorError(f"{i.loc}: loop over workloads not recognised")
    h = hs[0]
    for kind, p in loop_paths(fl, h):
        ctx.count("single_turns")
        if kind == "raise":
            continue
        if kind in ("break", "return"):
            ctx.fail("lost-sample", "reading stops before all workloads were read", p[-1][0].loc)
        elif not any(x is i for x, _ in p):
            ctx.fail("lost-sample", "a workload can be skipped", h.loc)


# ------------------------------------------------------------------ end marker and consumer
def marker_class(ctx, fl, t):
    """('inband', text) | ('instance', class) | ('class', class) of the end marker put by temp t."""
    d = defining(fl, t)
    if d is None:
        raise AnchorError("end marker not recognised")
    if d.op == "const":
        return "inband", repr(d.data)
    if d.op == "tuple":
        return "tuple", fl.term(t)
    if d.op in ("list", "dict", "fstr", "set"):
        return "inband", d.op
    if d.op == "call" and type(d.target).__name__ == "ClassInfo":
        return "instance", d.target
    if d.op == "global":
        kind = d.data[0]
        if kind == "class":
            return "class", d.data[1]
        if kind == "const":
            v, mod = d.data[1], d.data[2]
            if isinstance(v, (ast.Constant, ast.JoinedStr, ast.List, ast.Tuple, ast.Dict)):
                return "inband", ast.unparse(v)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name):
                for k in ctx.proj.classes.get(v.func.id, []):
                    return "instance", k
                if v.func.id == "object":
                    return "object", None
    if d.op == "enum":
        return "enum", d.data
    raise AnchorError(f"{d.loc}: end marker not recognised")


def end_test(fl, i, val, mk):
    """Polarity of branch i as a test of the received value (temp defining instructions val) for the end marker, or None."""
    d = defining(fl, i.args[0])
    pol = True
    while d is not None and d.op == "unary" and d.data == "Not":
        pol = not pol
        d = defining(fl, d.args[0])
    if d is None:
        return None

    def is_val(t):
        return defining(fl, t) in val

    def cls_of(t):
        x = defining(fl, t)
        return x.data[1] if x is not None and x.op == "global" and x.data[0] == "class" else None

    if d.op == "call" and d.fn == "isinstance" and len(d.args) == 2 and is_val(d.args[0]):
        return pol, "type", cls_of(d.args[1])
    if d.op == "cmp" and d.data in ("Is", "IsNot", "Eq", "NotEq"):
        p = pol == (d.data in ("Is", "Eq"))
        for a, b in ((0, 1), (1, 0)):
            x = defining(fl, d.args[a])
            if x is not None and x.op == "call" and x.fn == "type" and x.args and is_val(x.args[0]):
                return p, "type", cls_of(d.args[b])
            if is_val(d.args[a]):
                y = defining(fl, d.args[b])
                if y is None:
                    return None
                k = cls_of(d.args[b])
                if k is not None:
                    return p, "class", k
                return p, "is" if d.data in ("Is", "IsNot") else "eq", y
    return None


def consumer(ctx, c, rf):
    ps = puts(rf)
    ends = [i for i in ps if not is_sample(rf, i, None)]
    if not ends:
        return
    mks = set()
    for e in ends:
        k = marker_class(ctx, rf, e.args[0])
        mks.add((k[0], getattr(k[1], "qual", str(k[1]))))
    mk = marker_class(ctx, rf, ends[0].args[0])
    ctx.count("markers", len(mks))
    for e in ends:
        k = marker_class(ctx, rf, e.args[0])
        if k[0] == "inband":
            ctx.fail("inband-end", f"the end of a reader is signalled with {k[1]}, a value that a sample can have: such a sample ends the stream of its reader", e.loc)
    if len(mks) > 1:
        raise AnchorError("several end markers")
    # the generator that gets from the queues
    cons = []
    for m in c.methods.values():
        if has_yield(m):
            fl = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="mt" + m.name)
            gets = [i for i in fl.g.calls() if last(i.fn) in ("get", "get_nowait", "recv") and i.recv is not None and is_queue(fl, i)]
            if gets:
                cons.append((m, fl, gets))
    if len(cons) != 1:
        raise AnchorError("consumer of the readers' queues not recognised")
    m, fl, gets = cons[0]
    g = fl.g
    if mk[0] == "object":
        ctx.fail("lost-end", "the end marker is an anonymous object, which is not recognised after it went through a queue", ends[0].loc)
    gid = {i.id for i in gets}
    tests = {}
    for i in g.of("branch"):
        e = end_test(fl, i, gets, mk)
        if e is not None:
            tests[i.id] = e
    good = {}
    for k, (p, how, what) in tests.items():
        if mk[0] == "instance" and how == "type" and what is not None and what is mk[1]:
            good[k] = p
        elif mk[0] == "class" and how == "class" and what is mk[1]:
            good[k] = p
        elif mk[0] == "inband" and how in ("eq", "is"):
            good[k] = p
        elif mk[0] == "instance" and how in ("is", "eq"):
            ctx.fail("lost-end", "the end marker is compared by identity or equality, which does not survive the queue", g.ins[k].loc)
            good[k] = p
    if mk[0] in ("tuple", "enum"):
        raise AnchorError("end marker is part of a protocol that is not recognised")
    if not good:
        ctx.fail("lost-end", "the consumer does not test what it receives for the end marker the readers put", gets[0].loc)
        return
    ctx.count("gets", len(gets))
    for i in gets:
        to = arg_term(i, fl, 1, "timeout")
        bl = arg_term(i, fl, 0, "block")
        if last(i.fn) == "get" and (to is None or to == ("const", None)) and bl != ("const", False):
            ctx.fail("hang", "the consumer waits for a reader without a timeout: it waits for ever for a reader that died", i.loc)
    procs = {y for i in gets for x in subterms(fl.term(i.recv)) if x[0] == "elem" for y in bare(x[1])}
    if not procs:
        raise AnchorError("readers of a key not recognised")

    def about(t):
        return any(x[0] == "elem" and bare(x[1]) <= procs for x in subterms(t))

    drop, keep = set(), set()
    for i in g.calls():
        n = last(i.fn)
        if i.recv is None or not i.args:
            continue
        if n in ("append", "add") and about(fl.term(i.args[0])):
            (drop if removal_list(fl, i, procs) else keep).add(i.id)
        elif n in ("remove", "discard", "pop") and bare(fl.term(i.recv)) <= procs and about(fl.term(i.args[0])):
            drop.add(i.id)
    rebuilt = None
    if not drop and keep:
        if all(bare(fl.term(g.ins[k].recv)) <= procs for k in keep):
            rebuilt = {loops_around(fl, i)[-1].id for i in gets}
    if not drop and rebuilt is None:
        if keep:
            raise AnchorError("how the consumer drops a finished reader is not recognised")
        ctx.fail("never-ends", "a reader that has ended is never dropped", gets[0].loc)
        return
    seen = set()

    def bad(k, msg, i):
        if (k, i.id) not in seen:
            seen.add((k, i.id))
            ctx.fail(k, msg, i.loc)

    # state: 0 idle, 1 value in hand, 2 nothing received, 3 end marker received; second: no reader left
    def step(i, st):
        if rebuilt is not None:
            k = st[2]
            if i.id in keep:
                k = 2
            elif i.id in rebuilt:
                if k == 1:
                    bad("early-drop", "a reader is not kept although it has not reported its end: its remaining samples are silently missing", i)
                k = 0
            return [x + (k,) for x in step2(i, st[:2])]
        return step2(i, st)

    def step2(i, st):
        v, left = st
        if i.id in gid:
            if v == 1:
                bad("lost-sample", "a received sample is dropped", i)
            if v == 2:
                bad("dead-reader", "the consumer goes on after a reader sent nothing, without having found out that it is alive", i)
            return [(0, 0)]
        if i.op == "yield":
            if any(defining(fl, a) in gets for a in i.args if a is not None):
                if v != 1:
                    bad("lost-sample" if v != 3 else "end-as-sample", "a sample is handed out twice" if v == 0 else "something that was not received as a sample is handed out", i)
                return [(0, left)]
        if i.id in drop and v != 3:
            bad("dead-reader" if v == 2 else "early-drop", "a reader is dropped that has not reported its end: its remaining samples are silently missing", i)
        if i.op == "exit":
            if v == 1:
                bad("lost-sample", "a received sample is dropped", i)
            elif v == 2:
                bad("dead-reader", "the stream ends normally although a reader sent nothing", i)
            elif not left:
                bad("early-end", "the stream can end although there are readers left", i)
        return [(v, left)]

    def edge(i, s, lab, st):
        r = edge2(i, s, lab, st[:2])
        if rebuilt is None or r is False:
            return r
        k = st[2]
        if i.id in gid:
            k = 1
        elif r[0] == 3 and st[0] != 3:
            k = 3
        return r + (k,)

    def edge2(i, s, lab, st):
        v, left = st
        if lab in ("exc", "exc-base"):
            if i.id in gid:
                return (2, left)
            if no_raise(i):
                return False
            return st
        if i.id in gid:
            return (1, 0)
        if i.op == "branch" and lab in (True, False):
            if i.id in good and v in (1, 3):
                return (3 if good[i.id] == lab else 1, left)
            a = alive(fl, i)
            if a is not None and v == 2 and a == lab:
                return (0, left)
            p = nonempty(fl, i, procs)
            if p is not None and p != lab:
                return (v, 1)
        if i.op == "next" and bare(strip_ids(fl.term(i.args[0]))[-1]) <= procs and lab == "next":
            return (v, 0)
        return st

    ex = Explorer(fl, step, edge=edge)
    ex.exc_pre = True
    # effects of a call happen on its normal edge only
    vis = ex.run((0, 0) if rebuilt is None else (0, 0, 0))
    ctx.count("consumer_states", len(vis))


def removal_list(fl, i, procs):
    """What is appended to here is later taken out of the list of readers."""
    lst = strip_ids(fl.term(i.recv))
    for k in fl.g.calls():
        if last(k.fn) in ("remove", "discard", "pop", "difference_update") and k.recv is not None and bare(fl.term(k.recv)) <= procs:
            for a in k.args:
                if any(x[0] == "elem" and strip_ids(x[1]) == lst or strip_ids(x) == lst for x in subterms(fl.term(a))):
                    return True
    return False


def alive(fl, i):
    d = defining(fl, i.args[0])
    pol = True
    while d is not None and d.op == "unary" and d.data == "Not":
        pol = not pol
        d = defining(fl, d.args[0])
    if d is not None and d.op == "call" and last(d.fn) == "is_alive":
        return pol
    if d is not None and d.op == "cmp":
        a, b = defining(fl, d.args[0]), fl.term(d.args[1])
        if a is not None and a.op == "attr" and a.data == "exitcode" and b == ("const", None):
            return pol == (d.data in ("Is", "Eq"))
    return None


def nonempty(fl, i, procs):
    """Truth value of the branch that means there are readers left."""
    d = defining(fl, i.args[0])
    pol = True
    while d is not None and d.op == "unary" and d.data == "Not":
        pol = not pol
        d = defining(fl, d.args[0])
    t = strip_ids(fl.term(i.args[0]))
    while t[0] == "un":
        t = t[2]
    if t[0] == "call" and t[1] in ("len", "bool") and t[3] and bare(t[3][0]) <= procs:
        return pol
    if bare(t) <= procs:
        return pol
    if t[0] == "cmp" and t[2][0] == "call" and t[2][1] == "len" and bare(t[2][3][0]) <= procs and t[3] == ("const", 0):
        return pol == (t[1] in ("Gt", "NotEq"))
    return None


def bare(t):
    """The list itself (all it can be), without copies."""
    t = strip_ids(t)
    if t[0] == "phi":
        return frozenset(y for x in t[1] for y in bare(x))
    while t[0] == "call" and (t[1] in ("list", "tuple") and t[3] or t[1] and last(t[1]) == "copy" and t[2] is not None):
        t = t[3][0] if t[3] else t[2]
    if t[0] == "item" and t[2] == ("slice", ("const", None), ("const", None), ("const", None)):
        return bare(t[1])
    return frozenset([t])


def is_queue(fl, i):
    """Receiver is one of a list of (queue, process) pairs handed to the generator."""
    t = strip_ids(fl.term(i.recv))
    return any(x[0] == "elem" for x in subterms(t)) and any(x[0] == "param" for x in subterms(t))


# ------------------------------------------------------------------ division among readers
def division(ctx, c, fl, rf, call, amap):
    g = fl.g
    # which parameter of the reader are the workloads / the queue
    wl = None
    for i in reads_of(rf):
        a = strip_ids(rf.term(i.recv))
        for x in subterms(a):
            if x[0] == "elem" and x[1][0] == "param":
                wl = x[1][1]
    if wl is None or wl not in amap:
        raise AnchorError("workloads of the reader not recognised")
    t = strip_ids(amap[wl])
    if t[0] != "item" or t[2][0] != "slice":
        raise AnchorError(f"{call.loc}: share of a reader is not a slice of the workloads")
    X, sl = t[1], t[2]
    lo, hi, st = sl[1], sl[2], sl[3] if len(sl) > 3 else ("const", None)
    n = ("call", "len", None, (X,), ())

    def is_len(x):
        return x[0] == "call" and x[1] == "len" and x[3] and x[3][0] == X

    def rng(x):
        """range arguments (start, stop, step)"""
        if x[0] == "call" and x[1] == "range":
            a = x[3]
            return (("const", 0), a[0], ("const", 1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ("const", 1))
        return None

    def plus(x, k):
        """x + k as (base, constant)"""
        if x[0] == "bin" and x[1] in ("Add", "Sub"):
            for a, b in ((2, 3), (3, 2)):
                if x[b][0] == "const" and isinstance(x[b][1], int) and (x[1] == "Add" or b == 3):
                    base, c0 = plus(x[a], k)
                    return base, c0 + (x[b][1] if x[1] == "Add" else -x[b][1])
        return x, 0

    ctx.count("divisions")
    loc = call.loc
    for x in (lo, hi):
        base, k = plus(x, 0)
        if k and base[0] in ("elem", "item"):
            ctx.fail("division", "the shares of the readers do not cover the workloads of a key exactly once (bound of a share is shifted)", loc)
            return
    if st != ("const", None) and st != ("const", 1):
        r = rng(lo[1]) if lo[0] == "elem" else None
        if r is None or hi != ("const", None) and not is_len(hi):
            raise AnchorError(f"{loc}: strided division not recognised")
        if r[0] != ("const", 0) or r[1] != st or r[2] != ("const", 1):
            ctx.fail("division", "the shares of the readers do not cover the workloads of a key exactly once", loc)
    elif lo[0] == "elem" and rng(lo[1]) is not None and not (hi[0] == "item"):
        r = rng(lo[1])
        if hi[0] == "bin" and hi[1] == "Add" and lo in hi[2:4]:
            w = hi[3] if hi[2] == lo else hi[2]
            if r[0] != ("const", 0) or not is_len(r[1]) or w != r[2]:
                ctx.fail("division", "the shares of the readers do not cover the workloads of a key exactly once", loc)
        else:
            raise AnchorError(f"{loc}: division not recognised")
    elif lo[0] == "item" and hi[0] == "item" and lo[1] == hi[1]:
        R = lo[1]
        bl, cl = plus(lo[2], 0)
        bh, ch = plus(hi[2], 0)
        if bl != bh or bl[0] != "elem" or rng(bl[1]) is None:
            raise AnchorError(f"{loc}: division not recognised")
        r = rng(bl[1])
        eb, ec = plus(r[1], 0)
        rlen = eb[0] == "call" and eb[1] == "len" and eb[3][0] == R
        # indexes of lower bounds run from 0 to len(R) - 2
        if ch - cl != 1 or r[2] != ("const", 1) or r[0] != ("const", -cl) or not rlen or ec + cl != -1:
            ctx.fail("division", "the shares of the readers do not cover the workloads of a key exactly once (bounds of consecutive shares)", loc)
        bounds(ctx, R, is_len, rng, loc)
    elif lo[0] == "elem" and lo[1][0] == "call" and lo[1][1] in ("zip", "pairwise"):
        raise AnchorError(f"{loc}: division not recognised")
    elif lo[0] in ("elem", "item") and hi[0] in ("elem", "item"):
        pairs(ctx, lo, hi, is_len, rng, loc)
    else:
        raise AnchorError(f"{loc}: division not recognised")
    keys(ctx, c, fl, call, X)
    started(ctx, fl, call)


def pairs(ctx, lo, hi, is_len, rng, loc):
    """zip(R[:-1], R[1:]) / zip(R, R[1:])"""
    def of(x):
        t = x[1] if x[0] == "elem" else None
        if t is None:
            return None
        if t[0] == "item" and t[2][0] == "slice":
            return t[1], t[2][1], t[2][2]
        return t, ("const", None), ("const", None)
    a, b = of(lo), of(hi)
    if a is None or b is None or a[0] != b[0] or b[1] != ("const", 1) or a[1] not in (("const", None), ("const", 0)):
        raise AnchorError(f"{loc}: division not recognised")
    bounds(ctx, a[0], is_len, rng, loc)


def bounds(ctx, R, is_len, rng, loc):
    """list(range(0, len(X), p)) + [len(X)]"""
    ok = R[0] == "bin" and R[1] == "Add"
    if not ok:
        raise AnchorError(f"{loc}: bounds of the shares not recognised")
    a, b = R[2], R[3]
    r = rng(a[3][0]) if a[0] == "call" and a[1] == "list" and a[3] else rng(a)
    if r is None or b[0] not in ("list", "tuple") or len(b) != 2:
        raise AnchorError(f"{loc}: bounds of the shares not recognised")
    if r[0] != ("const", 0) or not is_len(r[1]) or not is_len(b[1]):
        ctx.fail("division", "the shares of the readers do not cover the workloads of a key exactly once (first or last bound)", loc)


def keys(ctx, c, fl, call, X):
    """Every key with workloads gets readers."""
    hs = loops_around(fl, call)
    if not hs or X[0] not in ("item", "valof"):
        raise AnchorError(f"{call.loc}: loop over keys not recognised")
    it = strip_ids(fl.term(hs[0].args[0]))
    src = it[-1] if it[0] == "iterof" else it
    while src[0] == "call" and src[1] and last(src[1]) in ("items", "keys", "list") and (src[2] is not None or src[3]):
        src = src[2] if src[2] is not None else src[3][0]
    for kind, p in loop_paths(fl, hs[0]):
        ctx.count("key_turns")
        if kind in ("break", "return"):
            ctx.fail("lost-key", "readers are not started for all keys", p[-1][0].loc)
        elif kind == "loop" and len(hs) > 1 and not any(i is hs[1] for i, _ in p):
            ctx.fail("lost-key", "a key can be left without readers although it has workloads", hs[0].loc)
    if len(hs) > 1:
        for kind, p in loop_paths(fl, hs[1]):
            if kind in ("break", "return"):
                ctx.fail("division", "not all shares of a key get a reader", p[-1][0].loc)
            elif kind == "loop" and not any(i is call for i, _ in p):
                ctx.fail("division", "a share of the workloads gets no reader", hs[1].loc)
    base = X[1]
    if src == base:
        return
    # keys come from the process counts: these must have the keys of the mixture, which must be those of the chunk
    if src[0] != "param":
        raise AnchorError(f"{call.loc}: keys that get readers not recognised")
    cnt = None
    for m in c.methods.values():
        f2 = ctx.flow(m, (lambda *a: False), selfcls=c, key="k" + m.name)
        for i in f2.g.calls():
            if i.target is fl.g.func or last(i.fn) == fl.g.func.name and i.recv is not None:
                ps = [a.arg for a in fl.g.func.node.args.args][1:]
                if src[1] in ps:
                    n = ps.index(src[1])
                    cnt = strip_ids(arg_term(i, f2, n, src[1]) or ("?",))
    if cnt is None or cnt[0] != "call" or cnt[2] != ("self",):
        raise AnchorError(f"{call.loc}: number of readers per key not recognised")
    m = ctx.proj.find_method(c, last(cnt[1]))
    if m is None:
        raise AnchorError(f"{call.loc}: number of readers per key not recognised")
    f3 = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="cnt")
    mix = None
    for i in root_returns(f3):
        for x in contributions(f3, f3.term(i.args[0])):
            if x[0] == "keyof":
                mix = strip_ids(x[1])
    for b in f3.g.of("elem"):
        for h in loops_around(f3, b):
            for kind, p in loop_paths(f3, h):
                if kind == "loop" and not any(i is b for i, _ in p):
                    ctx.fail("lost-key", "a key is left out when readers are assigned: its samples are never read", b.loc)
    if mix is None or mix[0] != "attr":
        raise AnchorError(f"{m.qual}: keys that get readers not recognised")
    guard = False
    for k in c.methods.values():
        f4 = ctx.flow(k, (lambda *a: False), selfcls=c, key="k" + k.name)
        for i in f4.g.of("branch"):
            t = strip_ids(f4.term(i.args[0]))
            neg = False
            while t[0] == "un" and t[1] == "Not":
                t, neg = t[2], not neg
            if t[0] == "cmp" and t[1] in ("Eq", "NotEq") and {a for x in t[2:4] for a in attrs(x)} >= {mix[2], "_result_index"} and all(callname(x) in ("keys", "set") for x in t[2:4]):
                differ = (t[1] == "NotEq") != neg
                s = [x for x, lab in i.succ if lab is differ]
                if s and not any(x.op in ("return", "exit") for x in reach(s, exc=False)):
                    guard = True
    ctx.count("key_guards", int(guard))
    if not guard:
        ctx.fail("lost-key", "readers are started for the keys of the mixture only, and nothing makes sure that these are the keys of the chunk", call.loc)


def attrs(t):
    return {x[2] for x in subterms(t) if x[0] == "attr"}


def started(ctx, fl, call):
    g = fl.g
    st = [i for i in g.calls() if last(i.fn) == "start" and i.recv is not None]
    ap = [i for i in g.calls() if last(i.fn) == "append" and i.args and any(x[0] == "call" and last(x[1]) == "Process" for x in subterms(fl.term(i.args[0])))]
    if not ap:
        raise AnchorError(f"{call.loc}: how started readers are remembered is not recognised")
    hs = loops_around(fl, call)
    ends = {g.entry.id} | {h.id for h in hs} | {i.id for i in g.live if i.op == "exit"}
    aid, sid = {i.id for i in ap}, {i.id for i in st}
    for what, ids in (("started", sid), ("handed to the consumer", aid)):
        bad, ex = must_pass(fl, call, lambda i: i.id in ends, lambda i: i.id in ids, follow_exc=False)
        if bad:
            ctx.fail("not-started", f"a reader process can be created without being {what}: its share is missing", call.loc)
        ctx.count("reader_starts")
    q = arg_term(call, fl, 3, "args")
    for i in ap:
        t = fl.term(i.args[0])
        if t[0] == "tuple" and len(t) == 3:
            if not any(x == t[1] for x in q[1:]):
                ctx.fail("wrong-queue", "the consumer gets another queue than the reader", i.loc)
