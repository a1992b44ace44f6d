"""Session types of the client/server protocol, extracted from both ends."""
from __future__ import annotations

from .core import Builder, Flow, Explorer, show, alts, subterms, contains, AnchorError
from .flow import strip_ids

CODECS = ("int", "utf8_string", "pickeled_object", "bytes_obj", "float", "numpy_array", "bytes")
WIDTH_PARAMS = ("num_bytes", "size_bytes", "id_bytes")
NU = "mixtera.network.network_utils"


def codec_of(ins):
    """('read'|'write', codec) if ins is a call of a network primitive."""
    if ins.op != "call" or ins.target is None or not hasattr(ins.target, "is_async"):
        return None
    f = ins.target
    if f.module.name != NU or f.cls is not None:
        return None
    for d in ("read", "write"):
        if f.name.startswith(d + "_") and f.name[len(d) + 1:] in CODECS:
            return d, f.name[len(d) + 1:]
    return None


def bound_args(ins):
    """param name -> temp of a non-inlined call with a resolved project callee."""
    f = ins.target
    ps = f.params()
    if f.cls is not None and f.parent is None and not f.is_static:
        ps = ps[1:]
    out = {}
    for p, t in zip(ps, ins.args):
        out[p] = t
    for k, t in (ins.kw or {}).items():
        out[k] = t
    return out


def is_codec_func(fi):
    return fi.module.name == NU and any(fi.name == f"{d}_{c}" for d in ("read", "write") for c in CODECS)


def event_label(flow, ins, side):
    """(direction, codec, widths) as seen on the wire; side 'client' or 'server'."""
    c = codec_of(ins)
    if c is None:
        return None
    d, codec = c
    ba = bound_args(ins)
    ws = []
    defaults = ins.target.defaults()
    for w in WIDTH_PARAMS:
        if w in ins.target.params():
            if w in ba:
                t = flow.term(ba[w])
                ws.append(t[1] if t[0] == "const" else show(t))
            elif w in defaults:
                ws.append("default")
    direction = "c2s" if (d == "write") == (side == "client") else "s2c"
    return (direction, codec, tuple(ws))


def fmt(lab):
    return f"{lab[0]}:{lab[1]}" + (f"({','.join(map(str, lab[2]))})" if lab[2] else "")


def fmtw(word):
    return " ".join(fmt(x) for x in word) or "<nothing>"


# ------------------------------------------------------------------------------------------------------------- client
def connection_cls(ctx):
    return ctx.proj.cls("ServerConnection")


def client_policy(ctx, extra=()):
    cls = connection_cls(ctx)
    mods = {cls.module.name, NU} | {c for c in extra}

    def pol(fi, call, frame):
        if fi.name == "_connect_to_server" or is_codec_func(fi):
            return False
        return fi.module.name in mods

    return pol


def is_connect_enter(flow, ins):
    if ins.op != "with_enter":
        return False
    t = flow.term(ins.args[0])
    return t[0] == "call" and t[1].endswith("_connect_to_server")


def is_conn_elem(t):
    """term is the reader or writer of a connection."""
    return t[0] == "item" and t[1][0] == "entered" and t[1][1][0] == "call" and t[1][1][1].endswith("_connect_to_server")


def client_roots(ctx):
    """Entry methods of the connection class that are not merely helpers of another one."""
    cls = connection_cls(ctx)
    flows = {}
    for m in cls.methods.values():
        if m.name in ("__init__", "_connect_to_server"):
            continue
        fl = ctx.flow(m, client_policy(ctx), key="client")
        if any(codec_of(i) for i in fl.g.live):
            flows[m.name] = fl
    helpers = set()
    for n, fl in flows.items():
        for q in fl.g.funcs_seen:
            if q != fl.g.func.qual:
                helpers.add(q)
    return {n: fl for n, fl in flows.items() if fl.g.func.qual not in helpers}


def conn_hook(flow):
    def hook(d):
        if d.op in ("unpack", "item"):
            t = flow.term(d.dst)
            if is_conn_elem(t):
                return "truthy"
        return None

    return hook


class Nfa:
    def __init__(self):
        self.edges = {}
        self.label = {}
        self.start = set()
        self.accept = set()

    def closure_words(self, S):
        pass


def det(nfa):
    """Subset construction; a node's label is consumed on entering its successors."""
    def eclose(states):
        out, st = set(states), list(states)
        while st:
            s = st.pop()
            if nfa.label.get(s) is None:
                for t in nfa.edges.get(s, ()):
                    if t not in out:
                        out.add(t)
                        st.append(t)
        return frozenset(out)

    start = eclose(nfa.start)
    trans, acc, todo, seen = {}, set(), [start], {start}
    while todo:
        S = todo.pop()
        if any(s in nfa.accept for s in S):
            acc.add(S)
        moves = {}
        for s in S:
            l = nfa.label.get(s)
            if l is not None:
                moves.setdefault(l, set()).update(nfa.edges.get(s, ()))
        for l, ts in moves.items():
            T = eclose(ts)
            trans[(S, l)] = T
            if T not in seen:
                seen.add(T)
                todo.append(T)
    return start, trans, acc, seen


def compare(a, b, skip_empty=True):
    """First words accepted by exactly one of two DFAs: (word, 'a'|'b') list (shortest), or []."""
    sa, ta, aa, _ = a
    sb, tb, ab, _ = b
    labs = sorted({l for _, l in ta} | {l for _, l in tb}, key=str)
    seen = {(sa, sb)}
    q = [(sa, sb, ())]
    bad = []
    while q:
        x, y, w = q.pop(0)
        ina, inb = x in aa if x else False, y in ab if y else False
        if ina != inb and not (skip_empty and not w):
            bad.append((w, "a" if ina else "b"))
            if len(bad) > 3:
                return bad
        for l in labs:
            nx = ta.get((x, l)) if x else None
            ny = tb.get((y, l)) if y else None
            if nx is None and ny is None:
                continue
            if (nx, ny) not in seen:
                seen.add((nx, ny))
                q.append((nx, ny, w + (l,)))
    return bad


def words(dfa, maxlen=40, cap=200):
    """Sample accepted words (loops taken at most once)."""
    s, t, a, _ = dfa
    out, q = [], [(s, (), ())]
    while q and len(out) < cap:
        x, w, seen = q.pop(0)
        if x in a:
            out.append(w)
        for (st, l), n in t.items():
            if st == x and seen.count(n) < 1 and len(w) < maxlen:
                q.append((n, w + (l,), seen + (n,)))
    return out


def client_sessions(ctx):
    """-> {task: {root: (dfa, [event ins in order of discovery], flow)}}; sessions are cut at connection points."""
    res = {}
    for name, fl in client_roots(ctx).items():
        g = fl.g
        # sessions: state = id of current connect with_enter (0 = none)
        def step(ins, st, fl=fl):
            if is_connect_enter(fl, ins):
                return (ins.id,)
            if ins.op == "with_exit" and st and fl.term(ins.args[0])[0] == "call" and \
                    fl.term(ins.args[0])[1].endswith("_connect_to_server"):
                return (0,)
            return (st,)

        ex = Explorer(fl, lambda i, s: list(step(i, s)), follow_exc=False, hook=conn_hook(fl), record=True)
        vis = ex.run(0)
        lab = {}
        for (iid, env, st) in vis:
            l = event_label(fl, g.ins[iid], "client")
            if l is not None:
                lab[(iid, env, st)] = l
                if st == 0:
                    ctx.fail(f"event-outside-session:{name}", f"network primitive {fmt(l)} used outside a connection", g.ins[iid].loc)
        ctx.count("client_explored_states", len(vis))
        sess_ids = sorted({k[2] for k in vis if k[2]})
        by_sess = {}
        for sid in sess_ids:
            n = Nfa()
            for a, b in ex.trans:
                if a[2] == sid and b[2] == sid:
                    n.edges.setdefault(a, set()).add(b)
                if b[2] == sid and a[2] != sid:
                    n.start.add(b)
                if a[2] == sid and b[2] != sid:
                    # leaving the session
                    n.accept.add(a)
            for k, l in lab.items():
                if k[2] == sid:
                    n.label[k] = l
            for k in vis:
                if k[2] == sid and g.ins[k[0]] is g.exit:
                    n.accept.add(k)
            by_sess[sid] = n
        # which task does each session send first?
        for sid, n in by_sess.items():
            evs = [g.ins[k[0]] for k in n.label]
            evs = sorted({e.id: e for e in evs}.values(), key=lambda e: e.id)
            if not evs:
                continue
            firsts = _first_events(n)
            tasks = set()
            for k in firsts:
                ins = g.ins[k[0]]
                ba = bound_args(ins)
                t = fl.term(ba["data"]) if "data" in ba else ("unknown",)
                for x in alts(t):
                    for y in subterms(x):
                        if y[0] in ("enum", "enumval") and y[1] == "ServerTask":
                            tasks.add(y[2])
            if len(tasks) != 1:
                ctx.fail(f"session-without-task:{name}", f"a session of {name} does not start with exactly one request identifier "
                         f"(found {sorted(tasks) or 'none'})", g.ins[sid].loc)
                continue
            task = tasks.pop()
            res.setdefault(task, {})[(name, sid)] = (det(n), evs, fl, n)
            ctx.count("client_sessions")
    return res


def _first_events(n):
    out, seen, st = set(), set(n.start), list(n.start)
    while st:
        s = st.pop()
        if n.label.get(s) is not None:
            out.add(s)
            continue
        for t in n.edges.get(s, ()):
            if t not in seen:
                seen.add(t)
                st.append(t)
    return out


# ------------------------------------------------------------------------------------------------------------- server
def server_cls(ctx):
    return ctx.proj.cls("MixteraServer")


def dispatch_func(ctx):
    """The connection callback handed to asyncio.start_server."""
    cls = server_cls(ctx)
    for m in cls.methods.values():
        fl = ctx.flow(m, lambda *a: False, key="shallow")
        for c in fl.g.calls(lambda i: (i.fn or "").endswith("start_server")):
            cb = c.args[0] if c.args else (c.kw or {}).get("client_connected_cb")
            t = fl.term(cb)
            for x in alts(t):
                if x[0] == "attr" and x[1] == ("self",):
                    f = ctx.proj.find_method(cls, x[2])
                    if f:
                        return f
    raise AnchorError("no connection callback passed to asyncio.start_server")


def server_policy(ctx):
    cls = server_cls(ctx)
    mods = {cls.module.name, NU}

    def pol(fi, call, frame):
        return fi.module.name in mods and not is_codec_func(fi)

    return pol


def task_hook(flow, task):
    def hook(d):
        if d.op == "call" and getattr(d.target, "name", None) == "ServerTask" and d.args:
            return ("c", ("ServerTask", task))
        if d.op == "cmp" and d.data in ("In", "NotIn"):
            t = flow.term(d.args[1])
            if contains(t, lambda x: x[0] == "class" and x[1] == "ServerTask") and not contains(
                    t, lambda x: x[0] == "enum"):
                return ("c", d.data == "In")
        if d.op == "cmp" and d.data in ("Eq", "NotEq", "Is", "IsNot"):
            l, r = flow.term(d.args[0]), flow.term(d.args[1])
            for a, b in ((l, r), (r, l)):
                e = _enum_const(b)
                if e is not None and _is_task_value(a):
                    eq = e == task
                    return ("c", eq if d.data in ("Eq", "Is") else not eq)
        if d.op == "cmp" and d.data in ("In", "NotIn"):
            l, r = flow.term(d.args[0]), flow.term(d.args[1])
            if _is_task_value(l) and r[0] in ("tuple", "list", "set"):
                es = [_enum_const(x) for x in r[1:]]
                if all(es):
                    return ("c", (task in es) == (d.data == "In"))
        return None

    return hook


def _enum_const(t):
    if t[0] in ("enum", "enumval") and t[1] == "ServerTask":
        return t[2]
    if t[0] == "call" and t[1] == "int" and len(t[3]) == 1:
        return _enum_const(t[3][0])
    return None


def _is_task_value(t):
    if t[0] == "call" and t[1] == "ServerTask":
        return True
    return t[0] == "call" and t[1] == "read_int"


def frame_id(f):
    while hasattr(f, "names"):
        f = f.static
    return f.id


def dispatch_frames(fl):
    """Frames that decide on the request identifier, and all their callers."""
    out = set()
    for i in fl.g.live:
        if i.op in ("cmp", "call") and (
                (i.op == "call" and getattr(i.target, "name", None) == "ServerTask") or
                (i.op == "cmp" and any(_enum_const(fl.term(a)) for a in i.args))):
            f = i.frame
            while hasattr(f, "names"):
                f = f.static
            while f is not None:
                out.add(f.id)
                f = f.caller
    return out


def reads_request(t):
    """term is (directly) the result of a network read primitive: returns codec or None"""
    if t[0] == "call" and t[1].startswith("read_"):
        return t[1][5:]
    return None


def server_session(ctx, task, fl=None):
    """-> (dfa, event ins list, flow, nfa, explorer) of what the server does after having received `task`."""
    f = dispatch_func(ctx)
    fl = fl or ctx.flow(f, server_policy(ctx), key="server")
    g = fl.g

    disp = dispatch_frames(fl)

    def edge(ins, succ, lab, st):
        if ins.op == "branch" and lab in (True, False):
            d = g.tempdef.get(ins.args[0])
            if _malformed(fl, d, lab):
                return "malformed"
        if succ.op == "handler" and frame_id(succ.frame) in disp:
            return "malformed"  # the request failed as a whole: only the failure handling of the dispatcher follows
        return st

    ex = Explorer(fl, lambda i, s: [s], edge=edge, follow_exc=True, hook=task_hook(fl, task), record=True)
    vis = ex.run("ok")
    n = Nfa()
    for k in vis:
        if k[2] == "malformed":
            continue
        l = event_label(fl, g.ins[k[0]], "server")
        if l is not None:
            n.label[k] = l
        if g.ins[k[0]] is g.exit:
            n.accept.add(k)
        if g.ins[k[0]] is g.entry:
            n.start.add(k)
    for a, b in ex.trans:
        if a[2] != "malformed" and b[2] != "malformed":
            n.edges.setdefault(a, set()).add(b)
    evs = sorted({g.ins[k[0]].id: g.ins[k[0]] for k in n.label}.values(), key=lambda e: e.id)
    return det(n), evs, fl, n, ex


def _malformed(fl, d, lab):
    """branch outcome meaning: the request itself was not (completely) received or carries an empty mandatory string."""
    if d is None:
        return False
    if d.op in ("alias", "await"):
        return _malformed(fl, fl.g.tempdef.get(d.args[0]), lab)
    if d.op == "unary" and d.data == "Not":
        return _malformed(fl, fl.g.tempdef.get(d.args[0]), not lab)
    if d.op == "cmp":
        l, r = fl.term(d.args[0]), fl.term(d.args[1])
        for a, b in ((l, r), (r, l)):
            c = reads_request(a)
            if c and b == ("const", None):
                return lab == (d.data in ("Is", "Eq"))
            if c == "utf8_string" and b == ("const", ""):
                return lab == (d.data in ("Is", "Eq"))
        if d.data in ("In", "NotIn") and reads_request(l) == "utf8_string" and r[0] in ("tuple", "list", "set") and all(
                x in (("const", None), ("const", "")) for x in r[1:]):
            return lab == (d.data == "In")
        return False
    t = fl.term(d.dst)
    if reads_request(t) == "utf8_string":
        return lab is False
    return False
