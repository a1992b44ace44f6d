"""C02: end-to-end fidelity of request arguments and results (value provenance through both ends of the wire)."""
from ..core import *
from ..wire import *
from ..flow import mkitem, mkphi

OPS_CLASSES = ("LocalStub", "ChunkDistributor", "FileSystem")
# client parameter that only exists for interface symmetry: the server always acts with server=True
NOT_SENT = {("checkpoint", "server")}
STATUS_TASKS = {"QUERY_EXEC_STATUS", "DATASET_REGISTRATION_STATUS"}


def positions(nfa):
    """event ins id -> longest number of preceding event sites (loops condensed)."""
    nxt = {}
    for k in nfa.label:
        seen, st, out = set(), list(nfa.edges.get(k, ())), set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if nfa.label.get(x) is not None:
                out.add(x[0])
                continue
            st.extend(nfa.edges.get(x, ()))
        nxt.setdefault(k[0], set()).update(out)
    ids = list(nxt)
    # condense by reachability
    reach = {}
    for a in ids:
        seen, st = set(), list(nxt[a])
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(nxt.get(x, ()))
        reach[a] = seen
    comp = {a: frozenset([a] + [b for b in ids if b in reach[a] and a in reach[b]]) for a in ids}
    memo = {}

    def depth(c):
        if c in memo:
            return memo[c]
        memo[c] = 0
        preds = {comp[a] for a in ids for b in nxt[a] if b in c and comp[a] != c}
        memo[c] = max([depth(p) + 1 for p in preds], default=0)
        return memo[c]

    return {a: depth(comp[a]) for a in ids}


def canon_client(fl, t, depth=0):
    """-> (path, convs) or None. path like 'args.mixture', 'worker_status[]'."""
    if depth > 12:
        return None
    k = t[0]
    if k == "param":
        return (t[1], ())
    if k == "attr":
        c = canon_client(fl, t[1], depth + 1)
        if c is None:
            return None
        if t[2] in ("value", "type"):
            return (c[0], c[1] + (t[2],))
        return (c[0] + "." + t[2], c[1])
    if k == "elem":
        c = canon_client(fl, t[1], depth + 1)
        return (c[0] + "[]", c[1]) if c else None
    if k == "item" and t[1][0] in ("param",) and t[2][0] == "index":
        return canon_client(fl, ("elem", t[1]), depth + 1)
    if k == "call" and len(t[3]) == 1 and not t[4]:
        fn = t[1].split(".")[-1]
        if fn in ("int", "str", "bool", "len", "getsource", "float", "list", "tuple"):
            c = canon_client(fl, t[3][0], depth + 1)
            return (c[0], c[1] + (fn,)) if c else None
    if k == "phi":
        cs = [canon_client(fl, x, depth + 1) for x in t[1]]
        if all(cs) and len({c[0] for c in cs}) == 1:
            return (cs[0][0], tuple(sorted({x for c in cs for x in c[1]})))
    if k == "bin" and t[1] in ("Add", "Mult", "BitOr"):
        return None
    return None


def canon_server(ctx, fl, t, evpos, path, out, depth=0):
    """Decompose the value handed to an operation: out list of (path, pos|None, convs, term)."""
    if depth > 12:
        out.append((path, None, (), t))
        return
    k = t[0]
    if k == "call":
        if t[-1] in evpos:
            out.append((path, evpos[t[-1]], (), t))
            return
        fn = t[1].split(".")[-1]
        ins = fl.g.ins[t[-1]]
        if isinstance(ins.target, ClassInfo):
            c = ins.target
            if ctx.proj.is_enum(c) and len(t[3]) == 1:
                sub = []
                canon_server(ctx, fl, t[3][0], evpos, path, sub, depth + 1)
                out.extend((p, k2, cv + ("enum:" + c.name,), tt) for p, k2, cv, tt in sub)
                return
            # struct: fields by constructor arguments and later attribute assignments
            fields = dict(t[4])
            names = struct_fields(ctx.proj, c)
            for n, v in zip(names, t[3]):
                fields[n] = v
            for a, vs in fl.attrs_set(t).items():
                fields[a] = mkphi([v for _, v in vs])
            for a, v in fields.items():
                canon_server(ctx, fl, v, evpos, f"{path}.{a}", out, depth + 1)
            return
        if fn in ("int", "bool", "str", "list", "tuple", "float") and len(t[3]) == 1:
            sub = []
            canon_server(ctx, fl, t[3][0], evpos, path, sub, depth + 1)
            out.extend((p, k2, cv + (fn,), tt) for p, k2, cv, tt in sub)
            return
        if fn == "from_type_id" and len(t[3]) == 1:
            sub = []
            canon_server(ctx, fl, t[3][0], evpos, path, sub, depth + 1)
            out.extend((p, k2, cv + ("dataset",), tt) for p, k2, cv, tt in sub)
            return
    if k == "list0":
        els = fl.appended(t)
        for _, v in els:
            canon_server(ctx, fl, v, evpos, path + "[]", out, depth + 1)
        if els:
            return
    if k == "comp" and len(t) == 3 and t[1] in ("list", "gen"):
        canon_server(ctx, fl, t[2], evpos, path + "[]", out, depth + 1)
        return
    if k == "phi":
        subs = []
        for x in t[1]:
            canon_server(ctx, fl, x, evpos, path, subs, depth + 1)
        if len({(p, q) for p, q, _, _ in subs}) == 1:
            out.append(subs[0])
        else:
            out.extend(subs)
        return
    out.append((path, None, (), t))


def struct_fields(proj, c):
    init = proj.find_method(c, "__init__")
    if init is not None:
        return init.params()[1:]
    return [n for n, (v, a) in c.class_attrs.items() if a is not None]


def source_conv(fl, t, evpos):
    """server: parser class taken from executing the received source text."""
    return None


LOSSLESS_CLIENT = {(), ("int",), ("str",), ("list",), ("float",), ("bool",), ("tuple",)}


def convs_ok(cc, sc, ann):
    c, s = [x for x in cc], [x for x in sc]
    norm_c = tuple(x for x in c if x not in ("int", "bool", "str", "float", "list", "tuple"))
    norm_s = tuple(x for x in s if x not in ("int", "bool", "str", "float", "list", "tuple"))
    if norm_c == () and norm_s == ():
        # a boolean conversion on either side is lossless only for flags
        if ("bool" in c or "bool" in s) and ann not in ("bool", None):
            return False
        if ("int" in c or "int" in s) and ann not in ("int", "bool", None):
            return False
        if "float" in c or "float" in s:
            return ann in ("float", None)
        return True
    if norm_c == ("value",) and len(norm_s) == 1 and norm_s[0].startswith("enum:"):
        return ann in (None, norm_s[0][5:])
    if norm_c == ("type", "value") and norm_s == ("dataset",):
        return True
    return False


def client_stub_sessions(ctx):
    """task -> [(stub method name, flow, nfa, events)] seen from the stub's public operations."""
    p = ctx.proj
    stub = p.cls("ServerStub")
    conn = connection_cls(ctx)
    res = {}
    mods = {stub.module.name, conn.module.name, NU}

    def pol(fi, call, frame):
        if fi.name == "_connect_to_server" or is_codec_func(fi):
            return False
        return fi.module.name in mods

    roots = [m for m in stub.methods.values() if not m.name.startswith("__")]
    roots += [conn.methods["get_file_iterable"]] if "get_file_iterable" in conn.methods else []
    for m in roots:
        fl = ctx.flow(m, pol, key="stubsess")
        if not any(codec_of(i) for i in fl.g.live):
            continue
        for task, n, evs in cut_sessions(ctx, m.name, fl):
            res.setdefault(task, []).append((m, fl, n, evs))
    return res


def cut_sessions(ctx, name, fl):
    g = fl.g

    def step(ins, st):
        if is_connect_enter(fl, ins):
            return [ins.id]
        if ins.op == "with_exit" and st:
            t = fl.term(ins.args[0])
            if t[0] == "call" and t[1].endswith("_connect_to_server"):
                return [0]
        return [st]

    ex = Explorer(fl, step, follow_exc=False, hook=conn_hook(fl), record=True)
    vis = ex.run(0)
    out = []
    for sid in sorted({k[2] for k in vis if k[2]}):
        n = Nfa()
        for a, b in ex.trans:
            if a[2] == sid and b[2] == sid:
                n.edges.setdefault(a, set()).add(b)
            if b[2] == sid and a[2] != sid:
                n.start.add(b)
        for k in vis:
            if k[2] == sid:
                l = event_label(fl, g.ins[k[0]], "client")
                if l:
                    n.label[k] = l
        evs = sorted({k[0] for k in n.label})
        task = None
        for k in _first(n):
            t = fl.term(bound_args(g.ins[k[0]]).get("data"))
            for y in subterms(t):
                if y[0] in ("enum", "enumval") and y[1] == "ServerTask":
                    task = y[2]
        if task:
            out.append((task, n, [g.ins[i] for i in evs]))
    return out


def _first(n):
    from ..wire import _first_events
    return _first_events(n)


def ann_name(ctx, f, path):
    head = path.split(".")[0].split("[")[0]
    a = f.annotation(head)
    if "." in path or "[" in path:
        t = ctx.proj.ann_type(a, f.module, f.cls)
        if "." in path and t and t[0] == "inst":
            ft = ctx.proj.field_type(t[1], path.split(".")[1].split("[")[0])
            return _tn(ft)
        return None
    return _tn(ctx.proj.ann_type(a, f.module, f.cls))


def _tn(t):
    if t is None:
        return None
    if t[0] == "inst":
        return t[1].name
    if t[0] == "ext":
        return t[1]
    return None


def run(ctx):
    ctx.rule("For every stub operation, the value written at field k is traced back to one parameter path of the operation, the value "
             "read at field k is traced forward to one parameter path of the local operation (through constructors, attribute "
             "assignments, loops and lossless conversions); both paths must be the same, every parameter must be carried, and the "
             "reply composed with the client's use of it must be the local operation's result.")
    p = ctx.proj
    local = p.cls("LocalStub")
    sess = client_stub_sessions(ctx)
    ctx.count("request_types", len(sess))
    ctx.floor("request_types", 14)
    for task in sorted(sess):
        sdfa, sev, sfl, snfa, ex = server_flow_with_spawn(ctx, task)
        spos_all = positions(snfa)
        spos = {i: spos_all[i] for i in spos_all}
        live_ids = {k[0] for k in ex.visited}
        for m, fl, n, evs in sess[task]:
            cpos = positions(n)
            wires = {}
            for e in evs:
                c = codec_of(e)
                if c[0] != "write":
                    continue
                k = cpos[e.id]
                ba = bound_args(e)
                dparam = next((x for x in ("data", "string", "obj", "array") if x in ba), None)
                if dparam is None:
                    dparam = e.target.params()[0]
                t = fl.term(ba[dparam])
                if any(y[0] in ("enum", "enumval") and y[1] == "ServerTask" for y in subterms(t)):
                    continue
                wires.setdefault(k, []).append((e, t, canon_client(fl, t)))
                ctx.count("client_fields")
            # paths are expressed in parameters of the stub operation
            byname = {}
            for k, lst in wires.items():
                for e, t, c in lst:
                    if c is None:
                        if task in STATUS_TASKS and contains(t, lambda y: y[0] == "call" and y[1].startswith("read_")):
                            continue  # a handle received from the server in the preceding session
                        ctx.fail(f"altered-argument:{task}:{k}", f"request {task}: field {k} carries {show(t)}, which is not an "
                                 f"unaltered parameter of {m.name}", e.loc)
                        continue
                    byname.setdefault(c[0], []).append((k, c[1], e))
            check_server(ctx, task, m, fl, byname, wires, sfl, spos, live_ids, local)
            check_result(ctx, task, m, fl, n, evs, cpos, sfl, sev, spos, live_ids)
    # all parameters of a remote operation must be sent
    for task in sorted(sess):
        for m, fl, n, evs in sess[task]:
            if task in STATUS_TASKS:
                continue
            used = set()
            for e in evs:
                if codec_of(e)[0] == "write":
                    ba = bound_args(e)
                    for t in ba.values():
                        for y in subterms(fl.term(t)):
                            if y[0] == "param":
                                used.add(y[1])
            for q in m.params()[1:]:
                if (m.name, q) in NOT_SENT:
                    continue
                ctx.count("parameters")
                if q not in used:
                    ctx.fail(f"dropped-argument:{m.name}:{q}", f"{m.qual}: parameter {q} is never sent with request {task}", m.module.rel)


def server_flow_with_spawn(ctx, task):
    """Server flow in which tasks spawned with create_task are inlined at the spawn (value flow only)."""
    f = dispatch_func(ctx)
    cls = server_cls(ctx)
    mods = {cls.module.name, NU}
    fl = ctx._flows.get("c02server")
    if fl is None:
        def pol(fi, call, frame):
            return fi.module.name in mods and not is_codec_func(fi)

        class B(Builder):
            def call(self, e, awaited=False):
                d = dotted(e.func) or ""
                if d.split(".")[-1] in ("create_task", "ensure_future") and e.args and isinstance(e.args[0], __import__("ast").Call):
                    r = self.resolve(e.args[0])
                    if r and r[0] == "func" and r[1].is_async:
                        return super().call(e.args[0], awaited=True)
                return super().call(e, awaited)

        g = B(ctx.proj, pol).build(f)
        fl = Flow(g)
        ctx.saw(fl)
        ctx._flows["c02server"] = fl
    return server_session(ctx, task, fl)


def check_server(ctx, task, m, cfl, byname, wires, sfl, spos, live_ids, local):
    sites = [i for i in sfl.g.live if i.op == "call" and i.id in live_ids and isinstance(i.target, FuncInfo)
             and i.target.cls is not None and any(c.name in OPS_CLASSES for c in ctx.proj.mro(i.target.cls))
             and i.target.name not in ("from_path",)]
    if task in STATUS_TASKS:
        return
    if not sites:
        ctx.fail(f"no-operation:{task}", f"request {task} does not reach any local operation on the server", sfl.g.entry.loc)
        return
    # the operation must be the local counterpart of the stub operation
    names = {i.target.name for i in sites}
    lm = ctx.proj.find_method(local, m.name)
    expected = {m.name}
    if m.name == "_stream_result_chunks":
        expected = {"next_chunk_for"}
    if not (expected & names):
        ctx.fail(f"wrong-operation:{task}", f"request {task} issued by {m.name} is served by {sorted(names)} instead of {sorted(expected)}",
                 sites[0].loc)
    consumed = set()
    for i in sites:
        ba = bound_args(i)
        for q in i.target.params():
            if q == "self" or q not in ba:
                continue
            t = sfl.term(ba[q])
            parts = []
            canon_server(ctx, sfl, t, spos, q, parts)
            ctx.count("server_arguments")
            for path, pos, sc, tt in parts:
                head = path.split(".")[0].split("[")[0]
                if pos is None:
                    # not a wire field: only allowed if the client has no such parameter, or parser source handling
                    if head in [x for x in m.params()[1:]] and (m.name, head) not in NOT_SENT:
                        src = [y for y in subterms(tt) if y[0] == "call" and y[-1] in spos]
                        if task == "REGISTER_METADATA_PARSER" and head == "parser":
                            kpos = next((k for k, l in wires.items() for _, _, c in l if c and c[0] == "parser"), None)
                            ok = exec_source_ok(sfl, kpos, spos)
                            consumed.add(kpos)
                            if not ok:
                                ctx.fail(f"misrouted-argument:{task}:{path}", f"request {task}: the parser registered on the server is not "
                                         "built from the received source", i.loc)
                            continue
                        if tt[0] == "attr" and _is_request_object(tt, spos):
                            continue
                        if not any(pth == head for pth in byname) and not any(x.startswith(head + ".") for x in byname):
                            continue
                        ctx.fail(f"misrouted-argument:{task}:{path}", f"request {task}: {i.fn} receives {show(tt)} for '{path}' instead of "
                                 f"the value the caller passed for it", i.loc)
                    continue
                consumed.add(pos)
                cand = byname.get(path)
                if cand is None and head not in m.params():
                    # internal parameter name differs: it must still carry exactly one request field
                    continue
                ks = {k for k, _, _ in cand} if cand else set()
                if pos not in ks:
                    carried = sorted(c[0] for _, _, c in wires.get(pos, []) if c)
                    ctx.fail(f"misrouted-argument:{task}:{path}", f"request {task}: {i.fn} receives field {pos} for '{path}', but the client puts "
                             f"{carried or 'something else'} there and '{path}' at {sorted(ks) or 'no field'}", i.loc)
                    continue
                cc = next(c for k, c, _ in cand if k == pos)
                ctx.sample(f"{task}: {m.name}({path}) -> field {pos} -> {i.fn}({path})")
                if not convs_ok(cc, sc, ann_name(ctx, m, path)):
                    ctx.fail(f"lossy-argument:{task}:{path}", f"request {task}: '{path}' is converted with {cc or 'nothing'} by the client and "
                             f"{sc or 'nothing'} by the server, which does not give back the caller's value", i.loc)
    for k, l in wires.items():
        for e, t, c in l:
            if c and "len" in c[1]:
                continue
            if c and k not in consumed:
                # used as key of server-side bookkeeping?
                if any(i.id in live_ids and i.op in ("item", "setitem", "call") and any(
                        a in spos and False for a in ()) for i in ()):
                    continue
                used = any(y[0] == "call" and y[-1] in spos and spos[y[-1]] == k
                           for i in sites for a in list(bound_args(i).values()) for y in subterms(sfl.term(a)))
                if not used:
                    ctx.fail(f"ignored-argument:{task}:{c[0]}", f"request {task}: the server never hands '{c[0]}' (field {k}) to an operation", e.loc)


def _is_request_object(t, spos):
    x = t
    while x[0] == "attr":
        x = x[1]
    return x[0] == "call" and x[-1] in spos


def exec_source_ok(sfl, kpos, spos):
    ids = [i for i, k in spos.items() if k == kpos]
    for c in sfl.g.calls(lambda i: i.fn == "exec"):
        t = sfl.term(c.args[0])
        if t[0] == "call" and t[-1] in ids:
            return True
    return False


def peel(t):
    while t[0] == "call" and t[1].split(".")[-1] in ("int", "bool", "loads", "dumps") and len(t[3]) == 1:
        t = t[3][0]
    return t


def subst(t, rid, val):
    if isinstance(t, tuple):
        if t and t[0] == "call" and len(t) == 6 and t[-1] == rid:
            return val
        if t and t[0] == "item":
            return mkitem(subst(t[1], rid, val), subst(t[2], rid, val))
        if t and t[0] == "phi":
            return mkphi([subst(x, rid, val) for x in t[1]])
        return tuple(subst(x, rid, val) if isinstance(x, (tuple, frozenset)) else x for x in t)
    return t


def check_result(ctx, task, m, fl, n, evs, cpos, sfl, sev, spos, live_ids):
    """Reply path for operations answered directly with the operation's result."""
    direct = {"CHECK_DATASET_EXISTS", "LIST_DATASETS", "REMOVE_DATASET", "ADD_PROPERTY", "CHECKPOINT", "CHECKPOINT_COMPLETED",
              "RECEIVE_FEEDBACK", "REGISTER_METADATA_PARSER", "GET_META_RESULT", "GET_NEXT_RESULT_CHUNK", "READ_FILE"}
    if task not in direct:
        return
    reads = [e for e in evs if codec_of(e)[0] == "read"]
    replies = [e for e in sev if codec_of(e)[0] == "write" and e.id in live_ids]
    if len({cpos[e.id] for e in reads}) != 1 or not replies:
        return  # disagreement on the sequence itself is reported by C01
    rets = [i for i in fl.g.of("return") if i.frame is fl.g.frames[0]]
    yields = [i for i in fl.g.of("yield")]
    outs = []
    for i in (yields if m.is_gen else rets):
        if i.args:
            outs.append((i, fl.term(i.args[0])))
    rids = {e.id for e in reads}
    used = False
    for i, t in outs:
        for a in alts(t):
            if not any(y[0] == "call" and y[-1] in rids for y in subterms(a)):
                continue
            used = True
            for w in replies:
                ba = bound_args(w)
                dparam = next((x for x in ("data", "string", "obj", "array") if x in ba), w.target.params()[0])
                for sv in alts(sfl.term(ba[dparam])):
                    if sv == ("const", None):
                        continue
                    ctx.count("result_flows")
                    comp = a
                    for rid in rids:
                        comp = subst(comp, rid, sv)
                    comp = peel(comp)
                    if not result_ok(ctx, comp, m, sfl, task):
                        ctx.fail(f"wrong-result:{task}", f"request {task}: {m.name} gives the caller {show(comp)}, which is not the result of the "
                                 f"server-side operation", w.loc)
                    else:
                        ctx.sample(f"{task}: result = {show(comp)[:120]}")
    if not used and not _branches_on(fl, rids):
        ctx.fail(f"result-ignored:{task}", f"request {task}: {m.name} never uses the server's answer", reads[0].loc)


def _branches_on(fl, rids):
    return any(i.op == "branch" and any(y[0] == "call" and y[-1] in rids for y in subterms(fl.term(i.args[0]))) for i in fl.g.live)


def drop_none(t):
    """Alternatives that would dereference an absent reply raise instead of producing a result."""
    if t[0] == "phi":
        xs = [x for x in t[1] if not (x[0] == "item" and x[1] == ("const", None))]
        return mkphi(xs) if xs else t
    return t


def result_ok(ctx, t, m, sfl, task):
    t = drop_none(t)
    if t[0] == "phi":
        return all(result_ok(ctx, x, m, sfl, task) for x in t[1])
    if t[0] == "call":
        name = t[1].split(".")[-1]
        if task == "GET_NEXT_RESULT_CHUNK":
            return name == "next_chunk_for"
        if task == "READ_FILE":
            return name in ("join", "split") or name == "get_file_iterable"
        if task == "RECEIVE_FEEDBACK" and name != "process_feedback":
            return False
        return name == m.name
    if t[0] == "tuple":
        xs = [drop_none(x) for x in t[1:]]
        return all(x[0] == "item" and x[2] == ("const", i) and result_ok(ctx, x[1], m, sfl, task) for i, x in enumerate(xs))
    if t[0] in ("elem", "valof") and task == "READ_FILE":
        return True
    if task == "RECEIVE_FEEDBACK" and t[0] == "const":
        return True  # status derivation is decided by C07
    return False
