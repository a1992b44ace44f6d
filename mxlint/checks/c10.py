"""C10: interrupted writes never leave something that looks complete."""
from ..core import *
from .util import *
from .c08 import cache_flows, meta_dump, meta_loads
from .dist import *


def run(ctx):
    ctx.rule("Order of file effects on all paths (failures included): the marker a cache lookup requires is published by a rename that follows the "
             "complete result and the closed metadata file and is followed by no further write; entries without marker are skipped by lookups; the "
             "checkpoint writer cannot swallow a failed write and ends normally only after every file a restore reads was written, a copied "
             "query result being published by rename; completion on disk is only reported for a finished process with exit code 0; a restore "
             "cannot continue after a failed read; the query result is marked as stored only after it was handed over.")
    look, wr = cache_flows(ctx)
    marker = cache_marker(ctx, look)
    ctx.part(publication, ctx, wr, marker)
    ctx.part(tolerant, ctx, look, marker)
    ctx.part(checkpoint_writer, ctx)
    ctx.part(completion, ctx)
    ctx.part(restore, ctx)
    ctx.part(stored_flag, ctx)


def cache_marker(ctx, look):
    """Constant name of the file a lookup reads metadata from."""
    out = set()
    ops = [o for o in file_ops(look) if o[0] == "read"]
    for kind, p, i, _ in ops:
        b, c = comps(p)
        if c and c[-1][0] == "const":
            out.add(c[-1][1])
    out -= {x for x in out if not str(x)}
    if not out:
        raise AnchorError("the lookup reads no metadata file")
    meta = set()
    for m in meta_loads(look):
        f = look.term(m.dst)
        for x in subterms(f):
            if x[0] == "const" and x[1] in out:
                meta.add(x[1])
    return meta or out


def is_prefix(a, b):
    return b[:len(a)] == a


def publication(ctx, fl, marker):
    g = fl.g
    ops = file_ops(fl)
    tc = [i for i in g.calls() if last(i.fn) == "to_cache"]
    ds = [i for i, _ in meta_dump(fl)]
    if not tc or not ds:
        raise AnchorError("writer stores no results or metadata")
    entry = [path_key(arg_term(i, fl, 0, "path")) for i in tc]
    pubs = []
    dirs = [o for o in ops if o[0] == "rename" and any(is_prefix(path_key(o[1]), e) for e in entry)]
    if dirs:
        pubs = [o[2] for o in dirs]
    else:
        named = [o for o in ops if o[0] == "rename" and comps(o[3])[1] and comps(o[3])[1][-1][0] == "const" and comps(o[3])[1][-1][1] in marker]
        with_name = [o for o in ops if o[0] == "rename" and o not in named and o[3][0] == "call" and last(o[3][1]) in ("with_name", "with_suffix")]
        pubs = [o[2] for o in named + with_name]
        for o in ops:
            if o[0] == "write" and comps(o[1])[1] and comps(o[1])[1][-1][0] == "const" and comps(o[1])[1][-1][1] in marker:
                ctx.fail("torn-marker", f"the marker {show(comps(o[1])[1][-1])} of a cache entry is written in place: a crash while writing leaves an entry "
                         f"that lookups take for complete", o[2].loc)
                pubs.append(o[2])
    if not pubs:
        ctx.fail("never-published", "the writer never publishes the marker that lookups require", g.func.module.rel)
        return
    ctx.count("publications", len(pubs))
    ids = {p.id for p in pubs}
    rid = {i.id for i in tc}
    bad, ex = must_pass(fl, g.entry, lambda i: i.id in ids, lambda i: i.id in rid)
    for b in bad[:1]:
        ctx.fail("published-early", f"the cache entry can become visible before its results are stored; path {trace(ex.path(b))}", b[0].loc)
    did = {i.id for i in ds}
    # the metadata must be written and flushed before it is renamed
    closes = set()
    files = {strip_ids(arg_term(d, fl, 1, "file")) for d in ds if arg_term(d, fl, 1, "file") is not None}
    bad, ex = must_pass(fl, g.entry, lambda i: i.id in ids and i not in [o[2] for o in ops if o[0] == "write"], lambda i: i.id in did)
    for b in bad[:1]:
        if not any(o[2] is b[0] for o in ops if o[0] == "write"):
            ctx.fail("published-empty", f"the marker can become visible before the metadata is written; path {trace(ex.path(b))}", b[0].loc)
    renames = {o[2].id for o in ops if o[0] == "rename"} & ids
    if renames:
        def closing(i):
            if i.op in ("with_exit", "with_leave", "exit_with"):
                return True
            return i.op == "call" and last(i.fn) in ("close", "flush", "fsync") and i.recv is not None
        for d in ds:
            bad, ex = must_pass(fl, d, lambda i: i.id in renames, closing, follow_exc=False)
            for b in bad[:1]:
                ctx.fail("published-unflushed", "the marker is renamed before the file holding its content is closed", b[0].loc)
    # nothing is written after publication
    for p in pubs:
        if p.id not in renames:
            continue
        for i in reach([s for s, l in p.succ if l not in ("exc", "exc-base")], exc=False):
            if i.id in rid or i.id in did or (any(o[2] is i and o[0] == "write" for o in ops)):
                ctx.fail("written-after-publication", "part of the cache entry is written after it became visible", i.loc)
                break


def tolerant(ctx, fl, marker):
    g = fl.g
    opens, exists = set(), set()

    def names_marker(t):
        b, c = comps(t)
        return bool(c) and c[-1][0] == "const" and c[-1][1] in marker

    for o in file_ops(fl):
        if o[0] == "read" and names_marker(o[1]):
            opens.add(o[2].id)
    for i in g.calls():
        if last(i.fn) in ("exists", "is_file", "isfile", "lexists"):
            t = fl.term(i.recv) if i.recv is not None and not (i.fn or "").startswith("os.") else arg_term(i, fl, 0, "path")
            if t is not None and names_marker(t):
                exists.add(i.id)
    if not opens:
        raise AnchorError("marker is never opened by the lookup")
    frame0 = g.frames[0]

    def hook(d):
        return ("c", False) if d.id in exists else None

    def step(i, s):
        return [s]

    def edge(ins, succ, lab, st):
        if ins.id in opens:
            if lab not in ("exc", "exc-base"):
                return False
            return 1 if lab == "exc" else False
        if lab in ("exc", "exc-base") and ins.op not in ("dispatch", "reraise", "raise"):
            return False
        if ins.op == "dispatch" and st == 1:
            if succ.id not in caught_by(ins, FileNotFoundError):
                return False
            return 0 if succ.op == "handler" else 1
        return st

    ex = Explorer(fl, step, edge=edge, hook=hook, watch_keys={(frame0.id, "$ret")})
    vis = ex.run(0)
    ctx.count("explored_states", len(vis))
    ctx.count("incomplete_entry_lookups")
    for k in vis:
        if k[0] == g.raise_exit.id and k[2] == 1:
            ctx.fail("incomplete-entry-raises", f"a lookup fails at an entry whose marker is missing; path {trace(ex.path((g.raise_exit, k[1], k[2])))}",
                     g.func.module.rel)
            break


def checkpoint_writer(ctx):
    fl = writer_flow(ctx)
    rst = restore_flow(ctx)
    g = fl.g
    ops = file_ops(fl)
    wid = {i.id for i in g.calls() if last(i.fn) in WRITERS} | {o[2].id for o in ops if o[0] in ("write", "rename", "mkdir", "copy")}
    ctx.count("checkpoint_writes", len(wid))

    def edge(ins, succ, lab, st):
        if lab in ("exc", "exc-base") and ins.op not in ("dispatch", "reraise", "raise"):
            if no_raise(ins) or ins.id not in wid:
                return False
            return 1
        return st

    ex = Explorer(fl, lambda i, s: [s], edge=edge)
    vis = ex.run(0)
    ctx.count("explored_states", len(vis))
    for k in vis:
        if k[0] == g.exit.id and k[2] == 1:
            ctx.fail("failure-swallowed", f"the checkpoint writer can end normally after a failed write; path {trace(ex.path((g.exit, k[1], k[2])))}",
                     g.func.module.rel)
            break
    # every file read on restore is written before the writer ends
    need = {}
    for kind, p, i, _ in file_ops(rst):
        if kind != "read":
            continue
        b, c = comps(p)
        if c and c[-1][0] == "const":
            need[c[-1][1]] = i
    cache_reads = set()
    fc = ctx.proj.find_method(ctx.proj.cls("QueryResult"), "from_cache")
    if fc is not None:
        for kind, p, i, _ in file_ops(ctx.flow(fc, key="fc")):
            b, c = comps(p)
            if kind == "read" and c and c[-1][0] == "const":
                cache_reads.add(c[-1][1])
    need = {n: i for n, i in need.items() if n not in cache_reads}
    ctx.count("restored_files", len(need))
    ctx.floor("restored_files", 1)
    for n, i in need.items():
        w = [o for o in ops if (o[0] == "write" and last_const(o[1]) == n) or (o[0] == "rename" and last_const(o[3]) == n)]
        wi = {o[2].id for o in w}
        # a file opened for writing only counts once something was written to it
        fills = set()
        for o in w:
            if o[0] == "rename" or last(o[2].fn) in ("write_text", "write_bytes"):
                fills.add(o[2].id)
        for d in g.calls():
            if last(d.fn) in ("dump", "write"):
                f = arg_term(d, fl, 1, "file") if last(d.fn) == "dump" else (fl.term(d.recv) if d.recv is not None else None)
                if f is not None and contains(f, lambda x: x[0] == "call" and len(x) == 6 and x[5] in wi):
                    fills.add(d.id)
        if not w:
            ctx.fail(f"not-written:{n}", f"a restore reads {n}, but the checkpoint writer never writes it", i.loc)
            continue
        bad, ex = must_pass(fl, g.entry, lambda x: x is g.exit, lambda x: x.id in fills, follow_exc=False)
        for b in bad[:1]:
            ctx.fail(f"not-written:{n}", f"the checkpoint writer can end normally without writing {n}; path {trace(ex.path(b))}", g.func.module.rel)
    # the query result: copies are published by rename
    qd = result_dir(ctx)
    for o in ops:
        if o[0] == "copy" and o[3] is not None and last_const(o[3]) == qd:
            ctx.fail("copied-in-place", f"the query result is copied in place to '{qd}': if the copy is interrupted, later checkpoints accept the partial "
                     f"result", o[2].loc)
        if o[0] == "rename" and last_const(o[3]) == qd:
            ctx.count("published_copies")
            cps = [c for c in ops if c[0] == "copy" and c[3] is not None and path_key(c[3]) == path_key(o[1])]
            ci = {c[2].id for c in cps}
            bad, ex = must_pass(fl, g.entry, lambda x: x is o[2], lambda x: x.id in ci)
            for b in bad[:1]:
                ctx.fail("published-early", f"the query result can be published before it is copied; path {trace(ex.path(b))}", o[2].loc)


def completion(ctx):
    c = dist_cls(ctx)
    m = ctx.proj.find_method(c, "checkpoint_completed")
    if m is None:
        raise AnchorError("checkpoint_completed not found")
    fl = ctx.flow(m, None, c, key="completed")
    g = fl.g
    ret = (g.frames[0].id, "$ret")
    pdisk = [p for p in m.all_params() if "disk" in p]
    disk = pdisk[0] if pdisk else m.params()[-1]

    def hook(alive, code, missing=False):
        def h(d):
            if d.op == "call" and last(d.fn) == "is_alive":
                return ("c", alive)
            if d.op == "attr" and d.data == "exitcode":
                return ("c", code)
            if d.op == "param" and d.data == disk:
                return ("c", True)
            return None
        return h

    for name, alive, code in (("is still running", True, None), ("was killed", False, -9), ("failed", False, 1)):
        def edge(ins, succ, lab, st):
            if lab in ("exc", "exc-base") and ins.op not in ("raise", "reraise", "dispatch", "assertfail"):
                return False
            if alive and ins.op == "call" and last(ins.fn) == "join" and not ins.args and not ins.kw and ins.recv is not None:
                return False
            return st
        ex = Explorer(fl, lambda i, s: [s], edge=edge, hook=hook(alive, code), watch_keys={ret}, track_fields=True)
        vis = ex.run(0)
        ctx.count("completion_scenarios")
        ctx.count("explored_states", len(vis))
        for k in vis:
            if k[0] == g.exit.id and ex.truth(dict(k[1]).get(ret)) is not False:
                ctx.fail(f"completed-early:{name.replace(' ', '-')}", f"a checkpoint whose writer {name} can be reported as being on disk; path "
                         f"{trace(ex.path((g.exit, k[1], k[2])))}", m.module.rel)
                break
    ex = Explorer(fl, lambda i, s: [s], follow_exc=False, hook=hook(False, 0), watch_keys={ret})
    if any(k[0] == g.exit.id and ex.truth(dict(k[1]).get(ret)) is True for k in ex.run(0)):
        ctx.count("completion_scenarios")


def restore(ctx):
    fl = restore_flow(ctx)
    g = fl.g
    ops = file_ops(fl)
    rid = {o[2].id for o in ops if o[0] == "read"} | {i.id for i in g.calls() if last(i.fn) in ("load", "loads", "from_cache", "replay")}
    ctx.count("restore_reads", len(rid))

    def edge(ins, succ, lab, st):
        if lab in ("exc", "exc-base") and ins.op not in ("dispatch", "reraise", "raise", "assertfail"):
            if ins.id not in rid:
                return False
            return 1
        return st

    ex = Explorer(fl, lambda i, s: [s], edge=edge)
    vis = ex.run(0)
    ctx.count("explored_states", len(vis))
    for k in vis:
        if k[0] == g.exit.id and k[2] == 1:
            ctx.fail("restore-tolerates-failure", f"a restore can succeed although reading the checkpoint failed; path {trace(ex.path((g.exit, k[1], k[2])))}",
                     g.func.module.rel)
            break


def stored_flag(ctx):
    """The marker that the query result has been stored is set only after it was handed over."""
    fl = start_flow(ctx)
    g = fl.g
    tc = [i for i in g.calls() if last(i.fn) == "to_cache"]
    starts = {i.id for i in g.calls() if last(i.fn) == "start"}
    if not tc or not starts:
        raise AnchorError("checkpointing neither stores the result nor starts a writer")
    flags = set()
    for b in g.of("branch"):
        t = fl.term(b.args[0])
        for x in subterms(t):
            if x[0] == "attr" and x[1] == ("self",):
                dom, _ = must_pass(fl, g.entry, lambda i: i in tc, lambda i: i is b, follow_exc=False)
                if not dom:
                    flags.add(x[2])
    sets = [i for i in g.of("setattr") if i.data in flags and fl.term(i.args[0]) == ("self",)]
    ctx.count("stored_flags", len(sets))
    for s in sets:
        bad, ex = must_pass(fl, g.entry, lambda i: i is s, lambda i: i.id in starts)
        for b in bad[:1]:
            ctx.fail("stored-early", f"the query result is marked as stored before the writer was started; a failure in between leaves later checkpoints "
                     f"without it; path {trace(ex.path(b))}", s.loc)
    bad, ex = must_pass(fl, g.entry, lambda i: i.id in starts, lambda i: i in tc or storing_arg(fl, i),
                        via_edge=lambda i, lab: any(x == ("attr", ("self",), f) for f in flags for x in subterms(fl.term(i.args[0]))) and not reaches(i, lab, tc))
    for b in bad[:1]:
        if not dir_argument(fl, b[0]):
            ctx.fail("not-stored", f"a first checkpoint can be taken without storing the query result; path {trace(ex.path(b))}", b[0].loc)


def reaches(br, lab, tc):
    ss = [s for s, l in br.succ if l == lab]
    r = reach(ss, exc=False)
    return any(i in r for i in tc)


def storing_arg(fl, i):
    """Assignment selecting the cached directory to be copied by the writer."""
    return i.op == "store" and contains(fl.term(i.args[0]), lambda x: x[0] == "attr" and x[1] == ("self",) and "cache" in x[2] and "chunk" not in x[2])


def dir_argument(fl, start):
    return False
