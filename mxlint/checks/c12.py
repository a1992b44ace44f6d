"""C12: what the background checkpoint writer gets is detached from the live job."""
from ..core import *
from .util import *
from .dist import *


def run(ctx):
    ctx.rule("Ownership: every object handed to the background checkpoint writer, including each entry of the containers, is a deep copy or an "
             "immutable value, never an object the live job also refers to; the writer itself reads no live state; nothing of the live state is "
             "changed and no chunk is produced between the first copy and the start of the writer; the copies are not changed behind the "
             "writer's back.")
    ctx.part(arguments, ctx)
    ctx.part(writer_reads, ctx)
    ctx.part(instant, ctx)


LIVE = {"_chunk_cache", "_chunk_usage", "_next_chunk", "_query_result"}


def arguments(ctx):
    c = dist_cls(ctx)
    fl = ckpt_flow(ctx)
    proc = [i for i in fl.g.calls() if last(i.fn) in ("Process", "Thread") and arg_term(i, fl, 1, "target") is not None]
    if not proc:
        raise AnchorError("checkpoint() does not start a writer")
    w = writer_func(ctx)
    args = process_args(fl, w, proc)
    for p, t in args.items():
        for path, sub in leaves(ctx, fl, c, t, p):
            ctx.count("writer_inputs")
            why = shared(ctx, fl, c, sub)
            if why:
                ctx.fail(f"shared:{path}", f"the checkpoint writer gets {path} = {why}, which the live job keeps changing while it is written", proc[0].loc)
            else:
                ctx.sample(f"{path}: {show(sub)[:80]}")
    ctx.floor("writer_inputs", 7)


def leaves(ctx, fl, c, t, path, depth=0):
    """Entries of locally built containers, other terms as they are."""
    for a in alts(t):
        if a[0] in ("dict", "dict0", "list0", "list", "tuple") and depth < 4:
            ent = dict_entries(fl, a)
            for k, vs in ent.items():
                if a[0] in ("dict0", "dict") or k[0] == "const":
                    for v in vs:
                        yield from leaves(ctx, fl, c, v, f"{path}[{k[1] if k[0] == 'const' else '…'}]", depth + 1)
            if a[0] in ("list0", "list"):
                for _, e in fl.appended(a):
                    if e is not None:
                        yield from leaves(ctx, fl, c, e, f"{path}[…]", depth + 1)
        else:
            yield path, a
            # items stored into the copy later must be copies as well
            if depth == 0:
                for i in fl.g.live:
                    if i.op == "setattr" or i.op == "setitem":
                        b = fl.term(i.args[0])
                        if b != a and rooted(b, a):
                            v = fl.term(i.args[-1])
                            yield f"{path}.{i.data if i.op == 'setattr' else '[]'}", v


def rooted(b, a):
    while b[0] in ("attr", "item", "elem", "valof"):
        b = b[1]
        if b == a:
            return True
    return False


def shared(ctx, fl, c, t):
    """Text describing the live object t shares, or None."""
    for a in alts(t):
        if a[0] == "call":
            n = last(a[1])
            if n == "deepcopy" or n in SCALAR_CALLS:
                continue
            if n == "loads":
                continue
            if n == "getattr" and len(a[3]) >= 2 and a[3][1][0] == "const":
                r = shared(ctx, fl, c, ("attr", a[3][0], a[3][1][1]))
                if r:
                    return r
                continue
            if n in ("dict", "list", "copy", "set") and (a[3] or a[2] is not None):
                inner = a[3][0] if a[3] else a[2]
                if live(inner) and nested(inner):
                    return f"only a shallow copy of {show(inner)}"
                continue
            if a[2] is not None and live(a[2]) or any(live(x) for x in a[3]):
                return show(a)
            continue
        if a[0] == "comp":
            inner = [x for x in subterms(a) if live(x) and x[0] == "attr"]
            dc = contains(a, lambda x: x[0] == "call" and last(x[1]) in ("deepcopy", "dumps"))
            if inner and not dc:
                return f"only a shallow copy of {show(inner[0])}"
            continue
        if live(a):
            if a[0] == "attr" and a[2] == "value":
                continue
            if a[0] == "attr" and a[1] == ("self",) and immutable_attr(ctx, c, a[2]):
                continue
            if a[0] == "attr" and a[1] == ("attr", ("self",), "_query_result") and immutable_attr(ctx, ctx.proj.cls("QueryResult"), a[2]):
                continue
            return f"the live object {show(a)}"
    return None


def nested(t):
    return contains(t, lambda x: x[0] == "attr" and x[2] in ("_chunk_cache", "_chunk_usage", "_next_chunk", "_mixture_log", "_mixture"))


def live(t):
    b = t
    while b[0] in ("attr", "item", "elem", "valof", "keyof"):
        if b[1] == ("self",):
            return True
        b = b[1]
    return b == ("self",)


def writer_reads(ctx):
    w = writer_func(ctx)
    fl = writer_flow(ctx)
    ctx.count("writer_functions")
    for i in fl.g.of("attr"):
        b = fl.term(i.args[0])
        if b == ("self",) and i.data not in dist_cls(ctx).methods:
            ctx.fail(f"live-read:{i.data}", f"the background writer reads self.{i.data}, which is not part of the snapshot", i.loc)
    free = {fl.term(i.dst) for i in fl.g.of("load")}
    for t in free:
        if t[0] == "free":
            # closure of the method starting it
            if not w.is_static and w.cls is None:
                ctx.fail(f"live-read:{t[1]}", f"the background writer reads the variable {t[1]} of its creator", fl.g.func.module.rel)


def instant(ctx):
    """No change of live state while the snapshot is being taken."""
    fl = ckpt_flow(ctx)
    c = dist_cls(ctx)
    qc = ctx.proj.cls("QueryResult")
    bad_calls = {"next_chunk_for", "update_mixture", "process_client_feedback", "_stream_chunks_for_worker", "replay", "process_index"}
    n = 0
    for i in fl.g.live:
        if i.op in ("setitem", "delitem"):
            b = fl.term(i.args[0])
            r = b
            while r[0] in ("item", "valof", "elem"):
                r = r[1]
            if r[0] == "attr" and (r[1] == ("self",) and r[2] in LIVE or r[1] == ("attr", ("self",), "_query_result")):
                ctx.fail("changed-live", f"taking a checkpoint changes the live {show(r)}", i.loc)
            n += 1
        if i.op == "setattr":
            b = fl.term(i.args[0])
            r = b
            while r[0] in ("item", "valof", "elem", "attr"):
                if r == ("attr", ("self",), "_query_result") or (r[0] == "attr" and r[1] == ("self",) and r[2] in LIVE):
                    ctx.fail("changed-live", f"taking a checkpoint changes {show(b)}.{i.data} of the live job", i.loc)
                    break
                r = r[1]
            n += 1
            if b == ("self",) and i.data in LIVE:
                ctx.fail("changed-live", f"taking a checkpoint replaces the live {i.data}", i.loc)
        if i.op == "call" and last(i.fn) in bad_calls:
            ctx.fail("changed-live", f"taking a checkpoint calls {i.fn}", i.loc)
        if i.op == "next" and live(fl.term(i.args[0])) and contains(fl.term(i.args[0]), lambda x: x[0] == "attr" and x[2] == "_query_result"):
            ctx.fail("changed-live", "taking a checkpoint produces chunks", i.loc)
        if i.op == "call" and i.fn == "next" and i.args and contains(fl.term(i.args[0]), lambda x: x[0] == "attr" and x[2] == "_query_result"):
            ctx.fail("changed-live", "taking a checkpoint produces chunks", i.loc)
        if i.op == "await":
            ctx.fail("interrupted", "taking a checkpoint can be interrupted by other requests", i.loc)
    ctx.count("snapshot_effects", n)
    # everything is copied before the writer is started
    starts = [i for i in fl.g.calls() if last(i.fn) == "start" and contains(fl.term(i.recv) if i.recv is not None else ("none",),
                                                                            lambda x: x[0] == "call" and last(x[1]) in ("Process", "Thread"))]
    ctx.count("writer_starts", len(starts))
    if not starts:
        raise AnchorError("start of the writer not found")
    for s in starts:
        after = reach([x for x, l in s.succ if l not in ("exc", "exc-base")], exc=False)
        if any(i.op == "call" and last(i.fn) == "deepcopy" for i in after):
            ctx.fail("late-copy", "state is copied after the writer was started", s.loc)
