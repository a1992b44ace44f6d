"""C11: a checkpoint contains and restores the complete distribution state."""
import ast

from ..core import *
from .util import *
from .dist import *


def run(ctx):
    ctx.rule("Field accounting between the checkpoint writer and the restore: every entry dumped is the whole (copied) attribute it stands for and is "
             "put back into that same attribute; every attribute that chunk hand-out or generation reads or changes is covered; history and ids "
             "are in place before, the current mixture after the replay of the recorded number of chunks; every worker is rewound to its "
             "current chunk with the consumed samples of its own group and worker; attributes left out of the cached result are re-created when "
             "loading and nothing loaded is overwritten; chunk iteration skips exactly the consumed samples.")
    sfl, wfl, sv = saved(ctx)
    ctx.part(fields, ctx, sfl, wfl, sv)
    ctx.part(rewinding, ctx, sfl, wfl, sv)
    ctx.part(query_result_state, ctx)
    ctx.part(skipping, ctx)
    ctx.part(directories, ctx)


def ctor_map(ctx, c):
    """Constructor parameter -> attributes computed from it; attributes -> parameters."""
    m = ctx.proj.find_method(c, "__init__")
    fl = ctx.flow(m, None, c, key="init")
    by = {}
    for i in fl.g.of("setattr"):
        if fl.term(i.args[0]) != ("self",):
            continue
        v = fl.term(i.args[1])
        for x in subterms(v):
            if x[0] == "param":
                by.setdefault(x[1], set()).add(i.data)
    required = [p for p, d in zip(m.params()[1:], defaults(m)[1:]) if d is None]
    return by, required


def defaults(m):
    a = m.node.args
    ps = a.posonlyargs + a.args
    ds = [None] * (len(ps) - len(a.defaults)) + list(a.defaults)
    return ds


def restored(ctx):
    fl = restore_flow(ctx)
    g = fl.g
    c = dist_cls(ctx)
    out = []  # (target path, file, key, ins, extra)
    qr = [i for i in g.calls() if last(i.fn) == "from_cache"]
    qrt = {fl.term(i.dst) for i in qr}
    cts = [i for i in g.calls() if i.target is not None and type(i.target).__name__ == "ClassInfo" and i.target.qual == c.qual]
    ct = {fl.term(i.dst) for i in cts}
    by, req = ctor_map(ctx, c)

    def owner(t):
        if t in ct:
            return ()
        if t in qrt:
            return ("_query_result",)
        if t[0] == "attr":
            o = owner(t[1])
            return o + (t[2],) if o is not None else None
        if t[0] == "call" and last(t[1]) == "get_obj" and t[2] is not None:
            return owner(t[2])
        return None

    for i in g.of("setattr"):
        o = owner(fl.term(i.args[0]))
        if o is None:
            continue
        v = fl.term(i.args[1])
        hit = False
        for a in alts(v):
            l = loaded(a)
            if l:
                hit = True
                out.append((o + (i.data,), l[0], l[1], i, "set"))
        if not hit:
            out.append((o + (i.data,), None, v, i, "other"))
    for i in cts:
        m = ctx.proj.find_method(c, "__init__")
        ps = m.params()[1:]
        pairs = list(zip(ps, i.args)) + list((i.kw or {}).items())
        for p, a in pairs:
            l = loaded(fl.term(a))
            if l:
                out.append((("ctor", p), l[0], l[1], i, "ctor"))
    for i in g.calls():
        if last(i.fn) == "replay" and i.recv is not None and owner(fl.term(i.recv)) == ("_query_result",) and (i.args or i.kw):
            l = loaded(arg_term(i, fl, 0, "num_chunks_replay") or ("none",))
            if l:
                out.append((("_query_result", "_num_returns_gen"), l[0], l[1], i, "replay"))
    return fl, out, by, req, cts, qr


def strip_value(p):
    return p[:-1] if p and p[-1] == "value" else p


def fields(ctx, sfl, wfl, sv):
    fl, rs, by, req, cts, qr = restored(ctx)
    src = {}
    for n, d in sv.items():
        for k, vs in d.items():
            ctx.count("saved_fields")
            ps = {source(v) for v in vs}
            src[(n, k)] = ps
            if None in ps:
                bad = [v for v in vs if source(v) is None][0]
                ctx.fail(f"not-whole:{show(k)}", f"the checkpoint entry {show(k)} is {show(bad)}, not the (copied) content of an attribute", sfl.g.func.module.rel)
    ctx.floor("saved_fields", 6)
    covered = set()
    used = set()
    for tgt, n, k, i, kind in rs:
        if kind == "other":
            continue
        ctx.count("restored_fields")
        if (n, k) not in src:
            ctx.fail(f"unsaved:{show(k)}", f"restore reads {show(k)} from {n}, which the checkpoint writer never stores", i.loc)
            continue
        used.add((n, k))
        for s in src[(n, k)]:
            if s is None:
                continue
            if kind == "ctor":
                if strip_value(s)[-1] not in by.get(tgt[1], ()):
                    ctx.fail(f"exchanged:{show(k)}", f"{show(k)} stores {'.'.join(s)}, but is restored as constructor argument {tgt[1]}", i.loc)
                else:
                    covered.add(strip_value(s))
                    rest = by[tgt[1]] - {s[-1]}
                    if not rest:
                        covered.update((x,) for x in by[tgt[1]])
            elif strip_value(s) != strip_value(tgt):
                ctx.fail(f"exchanged:{show(k)}", f"{show(k)} stores {'.'.join(s)}, but is restored into {'.'.join(tgt)}", i.loc)
            else:
                covered.add(strip_value(tgt))
    for (n, k), ps in src.items():
        if (n, k) not in used and None not in ps:
            ctx.fail(f"ignored:{show(k)}", f"the checkpoint stores {show(k)}, but restore never puts it back", fl.g.func.module.rel)
    # everything the hand-out depends on
    c = dist_cls(ctx)
    need = set()
    nx = ctx.proj.find_method(c, "next_chunk_for")
    nfl = ctx.flow(nx, None, c, key="next")
    for i in nfl.g.of("attr"):
        if nfl.term(i.args[0]) == ("self",):
            need.add(i.data)
    init = ctx.flow(ctx.proj.find_method(c, "__init__"), None, c, key="init")
    transient = set()
    for i in init.g.of("setattr"):
        if init.term(i.args[0]) == ("self",):
            v = init.term(i.args[1])
            if contains(v, lambda x: x[0] == "call" and last(x[1]) in ("getpid", "Lock", "RLock", "Condition")):
                transient.add(i.data)
    for p in req:
        need |= by.get(p, set())
    need -= transient | {"_query_result"} | set(c.methods)
    assigned = {i.data for i in init.g.of("setattr")}
    need &= assigned
    for a in sorted(need):
        ctx.count("required_attributes")
        if (a,) not in covered:
            ctx.fail(f"missing:{a}", f"ChunkDistributor.{a} determines which chunks are handed out, but a restore does not put it back from the checkpoint",
                     fl.g.func.module.rel)
    # query result state changed while producing chunks
    qc = ctx.proj.cls("QueryResult")
    qneed = set()
    for name in ("__next__", "_chunk_generator", "update_mixture", "_update_key_id_map"):
        m = ctx.proj.find_method(qc, name)
        if m is None:
            continue
        f2 = ctx.flow(m, lambda *a: False, qc, key="own")
        for i in f2.g.live:
            if i.op == "setattr" and f2.term(i.args[0]) == ("self",):
                qneed.add(i.data)
            if i.op == "setitem":
                b = f2.term(i.args[0])
                if b[0] == "attr" and b[1] == ("self",):
                    qneed.add(b[2])
            if i.op == "call" and i.recv is not None and last(i.fn) in ("append", "add", "update", "insert", "extend"):
                b = f2.term(i.recv)
                if b[0] == "attr" and b[1] == ("self",):
                    qneed.add(b[2])
    qneed -= excluded(ctx)[0]
    qneed -= {"_is_replay", "stop_on_none"}
    for a in sorted(qneed):
        ctx.count("required_attributes")
        if ("_query_result", a) not in covered:
            ctx.fail(f"missing:{a}", f"QueryResult.{a} changes while chunks are produced, but a restore does not put the job's value back from the checkpoint",
                     fl.g.func.module.rel)
    # order with respect to the replay, and later overwrites
    replays = [i for i in fl.g.calls() if last(i.fn) == "replay"]
    for tgt, n, k, i, kind in rs:
        if kind != "set":
            continue
        after = reach([s for s, l in i.succ if l not in ("exc", "exc-base")], exc=False)
        if tgt in (("_query_result", "_mixture_log"), ("_query_result", "_key_id_map")):
            for r in replays:
                if i in reach([s for s, l in r.succ], exc=False) or r not in after:
                    ctx.fail(f"late:{tgt[-1]}", f"{tgt[-1]} is only put back after the recorded chunks were replayed without it", i.loc)
        if tgt == ("_query_result", "_mixture"):
            for r in replays:
                if r in after:
                    ctx.fail(f"early:{tgt[-1]}", "the current mixture is put back before the replay, which replaces it", i.loc)
        for t2, n2, v2, j, k2 in rs:
            if k2 == "other" and t2 == tgt and j in after and not contains(v2, lambda x: loaded(x) is not None or x[0] == "attr" and x[2] == tgt[-1]):
                if tgt[-1] == "value":
                    continue
                ctx.fail(f"overwritten:{tgt[-1]}", f"{'.'.join(tgt)} is overwritten with {show(v2)} after it was restored", j.loc)
        if kind == "set" and len(tgt) == 1:
            for j in cts:
                if j in after:
                    ctx.fail(f"overwritten:{tgt[-1]}", f"{tgt[-1]} is set before the object is constructed", i.loc)
    if not replays:
        ctx.fail("not-replayed", "restore does not bring the query result to the recorded number of chunks", fl.g.func.module.rel)
    for r in replays:
        bad, ex = must_pass(fl, fl.g.entry, lambda i: i is fl.g.exit, lambda i: i is r, follow_exc=False)
        for b in bad[:1]:
            ctx.fail("not-replayed", f"restore can finish without replaying the recorded chunks; path {trace(ex.path(b))}", r.loc)
    for i in qr:
        rp = arg_term(i, fl, 1, "replay")
        if rp != ("const", False):
            ctx.fail("double-replay", "the cached query result is replayed on load in addition to the checkpoint's own record", i.loc)
    # the restored distributor uses the restored query result
    for i in cts:
        q = arg_term(i, fl, 3, "query_result")
        if q is not None and q not in {fl.term(x.dst) for x in qr}:
            ctx.fail("foreign-result", f"the restored distributor works on {show(q)}", i.loc)


# ------------------------------------------------------------------------------------------------ rewinding
def rewinding(ctx, sfl, fl, sv):
    key = {}
    P = None
    for n, d in sv.items():
        for k, vs in d.items():
            for v in vs:
                s = source(v)
                if s:
                    key.setdefault(strip_value(s)[-1], k)
    _, w, args = writer_args(ctx)
    for p, t in args.items():
        if any(k == key.get("_next_chunk") for k in dict_entries(sfl, t)):
            P = p
    if P is None or not all(k in key for k in ("_next_chunk", "_chunk_cache", "_chunk_usage", "_num_workers")):
        raise AnchorError("distributor state passed to the writer not recognised")
    NX, CC, CU = (("S", key[k]) for k in ("_next_chunk", "_chunk_cache", "_chunk_usage"))
    dims = {("S", key.get("_dp_groups")): "dp", ("S", key.get("_nodes_per_group")): "node", ("S", key.get("_num_workers")): "worker"}
    AX = ("dp", "node", "worker")
    # the argument holding consumed samples
    wsp = [p for p, t in args.items() if t[0] == "param" or is_call_term(t, "_validate_checkpoint_state")]

    def nrm(t):
        if t[0] == "item" and t[1] == ("param", P):
            return ("S", t[2])
        if t[0] == "call" and last(t[1]) in ("get", "setdefault") and t[2] is not None and t[3]:
            if t[2] == ("param", P):
                return ("S", t[3][0])
            b = nrm(t[2])
            return b + (nrm(t[3][0]),) if b and b[0] == "S" else ("?", t)
        if t[0] == "elem":
            c = t[1]
            if c[0] == "call" and last(c[1]) == "range" and len(c[3]) == 1:
                return dims.get(nrm(c[3][0]), ("?", t))
            b = nrm(c)
            if b[0] == "S":
                return axis(b)
        if t[0] == "keyof":
            b = nrm(t[1])
            if b[0] == "S":
                return axis(b)
        if t[0] == "valof":
            b = nrm(t[1])
            if b[0] == "S":
                return b + (axis(b),)
        if t[0] == "item":
            b = nrm(t[1])
            if b[0] == "S":
                return b + (nrm(t[2]),)
            return ("item", b, nrm(t[2]))
        if t[0] == "bin":
            return ("bin", t[1], nrm(t[2]), nrm(t[3]))
        if t[0] in ("tuple",):
            return ("tuple",) + tuple(nrm(x) for x in t[1:])
        if t[0] == "call" and last(t[1]) in ("loads", "dumps", "deepcopy") and t[3]:
            return nrm(t[3][0])
        if t[0] == "phi":
            s = {nrm(x) for x in t[1]}
            return next(iter(s)) if len(s) == 1 else ("phi", frozenset(s))
        if t[0] == "call" and last(t[1]) == "max" and len(t[3]) == 2:
            return ("max",) + tuple(nrm(x) for x in t[3])
        return t

    def axis(b):
        n = len(b) - 2
        if b[:2] == NX and n < 3:
            return AX[n]
        if b[:2] in (CC, CU) and n == 0:
            return "dp"
        return ("?", b)

    cur = NX + ("dp", "node", "worker")
    back = ("bin", "Sub", cur, ("S", key["_num_workers"]))
    seen = {"next": 0, "usage": 0, "cache": 0, "skip": 0}
    skips = []
    for i in fl.g.of("setitem"):
        b, k, v = (fl.term(x) for x in i.args)
        nb = nrm(b)
        if nb[0] != "S":
            continue
        at = nb + (nrm(k),)
        ctx.count("writer_updates")
        if nb[:2] == NX:
            if at == cur and nrm(v) == back:
                seen["next"] += 1
            else:
                ctx.fail("rewound-wrongly", f"the position of a worker is stored as {show(v)} at [{show(k)}] instead of its current chunk "
                         f"(next chunk minus the number of workers)", i.loc)
        elif nb[:2] == CU:
            if at == CU + ("dp", back) and nrm(v) == ("const", 0):
                seen["usage"] += 1
            else:
                ctx.fail("rewound-wrongly", f"the usage count of a chunk in use is stored as {show(v)} at [{show(k)}]", i.loc)
        elif nb[:2] == CC:
            if at == CC + ("dp", back) and nrm(v) == CC + ("dp", back):
                seen["cache"] += 1
            else:
                ctx.fail("rewound-wrongly", f"the chunk in use is stored as {show(v)} at [{show(k)}]", i.loc)
    for i in fl.g.of("setattr"):
        if i.data != "_samples_to_skip":
            continue
        o, v = nrm(fl.term(i.args[0])), fl.term(i.args[1])
        skips.append(i)
        want = [("item", ("param", p), ("tuple", "dp", "worker")) for p in args]
        if o == CC + ("dp", back) and nrm(v) in want or (v[0] == "call" and last(v[1]) == "get" and v[3] and nrm(v[3][0]) == ("tuple", "dp", "worker")):
            seen["skip"] += 1
        else:
            ctx.fail("wrong-progress", f"a chunk in use is marked to skip {show(v)}, not the samples reported for its own group and worker", i.loc)
    for k, msg in (("next", "workers are not set back to the chunk they are consuming"), ("usage", "usage counts of chunks in use are not reset"),
                   ("cache", "chunks in use are not stored with the consumed samples"), ("skip", "consumed samples are not recorded in the chunks in use")):
        if not seen[k]:
            ctx.fail(f"not-rewound:{k}", f"the checkpoint writer does not rewind: {msg}", fl.g.func.module.rel)
    for i in fl.g.calls():
        if last(i.fn) == "dumps" and skips and i.args and nrm(fl.term(i.args[0])) == CC + ("dp", back):
            bad, ex = must_pass(fl, fl.g.entry, lambda x: x is i, lambda x: x in skips, follow_exc=False)
            for b in bad[:1]:
                ctx.fail("not-rewound:skip", "the chunk is serialized before the consumed samples are recorded in it", i.loc)
    # consumed samples per (group, worker)
    c = dist_cls(ctx)
    for p, t in args.items():
        if is_call_term(t, "_validate_checkpoint_state"):
            ctx.count("progress_sources")
    m = ctx.proj.find_method(c, "_validate_checkpoint_state")
    if m is not None:
        progress(ctx, ctx.flow(m, None, c, key="validate"))


def progress(ctx, fl):
    """Result keys (group, worker) with a sample index of the very same key."""
    rets = root_returns(fl)
    for r in rets:
        t = fl.term(r.args[0])
        for _, k, v in (fl.items_set(t) if t[0] in ("dict", "dict0", "call") else []):
            ctx.count("progress_entries")
            if k[0] == "const" or (v[0] == "const"):
                ctx.fail("wrong-progress", f"the consumed samples of a worker are {show(v)} at {show(k)}", r.loc)


# ------------------------------------------------------------------------------------------------ QueryResult save / load
def deleted(fl):
    """Attribute names removed from a saved state dict."""
    out = set()
    for i in fl.g.of("delitem"):
        for a in alts(fl.term(i.args[1])):
            if a[0] == "const":
                out.add(a[1])
    for i in fl.g.calls():
        if last(i.fn) == "pop" and i.recv is not None and i.args:
            b = fl.term(i.recv)
            if contains(b, lambda x: x[0] == "attr" and x[2] == "__dict__"):
                for a in alts(fl.term(i.args[0])):
                    if a[0] == "const":
                        out.add(a[1])
    # dict comprehension with a filter on constant names
    for i in fl.g.of("cmp"):
        if i.data in ("NotIn", "In"):
            t = fl.term(i.args[1])
            if t[0] in ("list", "tuple", "set"):
                k = fl.term(i.args[0])
                if contains(k, lambda x: x[0] in ("keyof", "elem") and contains(x, lambda y: y[0] == "attr" and y[2] == "__dict__")):
                    out |= {x[1] for x in t[1:] if x[0] == "const"}
            if t[0] == "global" or t[0] == "const":
                pass
    return out


def excluded(ctx):
    qc = ctx.proj.cls("QueryResult")
    to = ctx.flow(ctx.proj.find_method(qc, "to_cache"), None, qc, key="to")
    return deleted(to), to


def query_result_state(ctx):
    qc = ctx.proj.cls("QueryResult")
    gone, to = excluded(ctx)
    fc = ctx.proj.find_method(qc, "from_cache")
    fr = ctx.flow(fc, lambda fi, call, f: fi.name != "replay" and ctx.local_policy(fc, qc)(fi, call, f), qc, key="from")
    pair(ctx, "cache", gone, to, fr, qc)
    gs, ss = ctx.proj.find_method(qc, "__getstate__"), ctx.proj.find_method(qc, "__setstate__")
    if gs is not None and ss is not None:
        g = ctx.flow(gs, None, qc, key="gs")
        s = ctx.flow(ss, None, qc, key="ss")
        pair(ctx, "pickle", deleted(g), g, s, qc, selfobj=("self",))


def pair(ctx, what, gone, to, fr, qc, selfobj=None):
    objs = set()
    if selfobj is not None:
        objs.add(selfobj)
    for r in root_returns(fr):
        if r.args:
            objs |= set(alts(fr.term(r.args[0])))
    setattrs = {}
    for i in fr.g.of("setattr"):
        if fr.term(i.args[0]) in objs or any(o in objs for o in alts(fr.term(i.args[0]))):
            setattrs.setdefault(i.data, []).append((i, fr.term(i.args[1])))
    dynamic = set()
    for i in fr.g.calls():
        if last(i.fn) == "setattr" and i.args:
            dynamic.add(i.id)
    # names stored separately: setattr(obj, name, value) over a loaded dict
    separately = set()
    for i in to.g.of("setitem"):
        b = to.term(i.args[0])
        for a in alts(to.term(i.args[1])):
            if a[0] == "const" and a[1] in gone:
                separately.add(a[1])
    ctx.count("excluded_attributes", len(gone))
    for a in sorted(gone):
        ok = a in setattrs or (a in separately and dynamic)
        if not ok:
            ctx.fail(f"lost:{what}:{a}", f"QueryResult.{a} is left out when saving ({what}) but not re-created when loading", fr.g.func.module.rel)
    replay = [i for i in fr.g.calls() if last(i.fn) == "replay"]
    for a, lst in setattrs.items():
        for i, v in lst:
            if a in gone or a == "__dict__":
                continue
            ctx.count("load_assignments")
            if contains(v, lambda x: x[0] == "call" and last(x[1]) in ("load", "loads", "deserialize_chunker_index", "mkdir")):
                continue
            if a == "_num_returns_gen" and v == ("const", 0) and replay:
                # must be replayed with the value saved before
                ok = False
                for r in replay:
                    t = arg_term(r, fr, 0, "num_chunks_replay")
                    if t is not None and t[0] == "attr" and t[2] == a or contains(t, lambda x: loaded(x) is not None or x[0] == "attr"):
                        ok = True
                if ok:
                    continue
            ctx.fail(f"overwritten:{what}:{a}", f"QueryResult.{a} is set to {show(v)} when loading although it has been saved", i.loc)
    # files written = files read, with the same content
    wr = {last_const(o[1]): o[2] for o in file_ops(to) if o[0] == "write" and last_const(o[1]) is not None}
    rd = {last_const(o[1]): o[2] for o in file_ops(fr) if o[0] == "read" and last_const(o[1]) is not None}
    if what == "cache":
        for i in to.g.calls():
            if last(i.fn) == "serialize_chunker_index":
                for a in i.args:
                    n = last_const(to.term(a))
                    if n:
                        wr[n] = i
        for i in fr.g.calls():
            if last(i.fn) == "deserialize_chunker_index":
                n = last_const(fr.term(i.args[0])) if i.args else None
                if n:
                    rd[n] = i
        ctx.count("cache_files", len(wr))
        for n in sorted(set(wr) - set(rd)):
            ctx.fail(f"file-ignored:{n}", f"{n} is written with the cached result but never read", wr[n].loc)
        for n in sorted(set(rd) - set(wr)):
            ctx.fail(f"file-missing:{n}", f"{n} is read with the cached result but never written", rd[n].loc)


# ------------------------------------------------------------------------------------------------ consumed samples
def skipping(ctx):
    rc = ctx.proj.cls("ResultChunk")
    it = ctx.proj.find_method(rc, "_iterate_samples")
    if it is None:
        raise AnchorError("ResultChunk._iterate_samples not found")
    fl = ctx.flow(it, lambda *a: False, rc, key="iter")
    g = fl.g
    skip = ("attr", ("self",), "_samples_to_skip")
    n = 0
    for y in g.of("yield"):
        if y.frame is not g.frames[0] or not y.args or y.args[0] is None:
            continue
        v = fl.term(y.args[0])
        if v[0] != "tuple" or len(v) < 4:
            continue
        n += 1
        idx, smp = v[1], v[3]
        isl = [x for x in subterms(smp) if x[0] == "call" and last(x[1]) == "islice"]
        if isl:
            if len(isl[0][3]) != 3 or isl[0][3][1] != skip or isl[0][3][2] != ("const", None):
                ctx.fail("skip", f"iteration starts at {show(isl[0])}, not after the consumed samples", y.loc)
            ok = idx[0] == "bin" and idx[1] == "Add" and {idx[2], idx[3]} & {skip} and any(x[0] == "index" for x in (idx[2], idx[3]))
            if idx[0] == "index":
                en = [x for x in subterms(idx) if x == skip]
                ens = [i for i in g.calls() if last(i.fn) == "enumerate" and (arg_term(i, fl, 1, "start") == skip)]
                ok = bool(ens)
            if not ok:
                ctx.fail("skip-index", f"the reported sample index is {show(idx)}; after a restore it would not count the samples skipped", y.loc)
        else:
            if idx[0] != "index":
                ctx.fail("skip-index", f"the reported sample index is {show(idx)}", y.loc)

            def guard(i, lab):
                t = fl.term(i.args[0])
                neg = False
                while t[0] == "un" and t[1] == "Not":
                    t, neg = t[2], not neg
                if t[0] != "cmp":
                    return False
                op, a, b = t[1], t[2], t[3]
                if b == skip and a[0] == "index":
                    good = {"Lt": False, "GtE": True}.get(op)
                elif a == skip and b[0] == "index":
                    good = {"Gt": False, "LtE": True}.get(op)
                else:
                    return False
                return good is not None and (good != neg) == lab
            bad, ex = must_pass(fl, g.entry, lambda i: i is y, lambda i: False, via_edge=guard, follow_exc=False,
                                kill=lambda i: i.op == "next")
            for b in bad[:1]:
                ctx.fail("skip", f"samples already consumed before the checkpoint can be delivered again; path {trace(ex.path(b))}", y.loc)
    ctx.count("sample_yields", n)
    ctx.floor("sample_yields", 1)
    for m in rc.methods.values():
        f2 = ctx.flow(m, lambda *a: False, rc, key="own")
        for i in f2.g.of("setattr"):
            if i.data == "_samples_to_skip" and m.name not in ("__init__",) and f2.term(i.args[0]) == ("self",):
                ctx.fail("skip-reset", f"{m.name} changes the number of samples to skip", i.loc)


def directories(ctx):
    stub = ctx.proj.cls("LocalStub")
    paths = {}
    for name in ("checkpoint", "restore_checkpoint"):
        m = ctx.proj.find_method(stub, name)
        if m is None:
            raise AnchorError(f"LocalStub.{name} not found")
        fl = ctx.flow(m, None, stub, key="stub")
        for i in fl.g.calls():
            if last(i.fn) in ("checkpoint", "from_checkpoint") and i.frame.func is not None and (i.args or i.kw):
                ts = [fl.term(a) for a in i.args] + [fl.term(v) for v in (i.kw or {}).values()]
                for t in ts:
                    b, c = comps(t)
                    if contains(b, lambda x: x[0] == "attr" and "checkpoint" in x[2]):
                        paths.setdefault(name, set()).add(path_key(t))
        if name == "restore_checkpoint":
            put = [i for i in fl.g.of("setitem") if contains(fl.term(i.args[2]), lambda x: is_call_term(x, "from_checkpoint"))]
            ctx.count("restored_registrations", len(put))
            for i in put:
                if fl.term(i.args[1]) != ("param", "job_id"):
                    ctx.fail("restored-elsewhere", f"the restored distributor is registered under {show(fl.term(i.args[1]))}", i.loc)
            ids = {i.id for i in put}
            bad, ex = must_pass(fl, fl.g.entry, lambda i: i is fl.g.exit, lambda i: i.id in ids, follow_exc=False)
            if bad or not put:
                ctx.fail("restored-elsewhere", "a restore can finish without registering the restored distributor", m.module.rel)
    a, b = paths.get("checkpoint"), paths.get("restore_checkpoint")
    ctx.count("checkpoint_paths", len(a or ()) + len(b or ()))
    if a and b and a != b:
        ctx.fail("different-directory", f"checkpoints are written to {a} but restored from {b}", stub.module.rel)
    # the path below: writer and restore
    wf, rf = writer_flow(ctx), restore_flow(ctx)
    wp = {last_const(o[1]): comps(o[1])[1] for o in file_ops(wf) if o[0] == "write" and last_const(o[1])}
    rp = {last_const(o[1]): (o[1], o[2]) for o in file_ops(rf) if o[0] == "read" and last_const(o[1])}
    for n, (t, i) in rp.items():
        if n not in wp:
            continue
        c = comps(t)[1]
        if len(c) != len(wp[n]) or [x for x in c if x[0] == "const"] != [x for x in wp[n] if x[0] == "const"]:
            ctx.fail(f"different-directory:{n}", f"{n} is written to {[show(x) for x in wp[n]]} but read from {[show(x) for x in c]}", i.loc)
