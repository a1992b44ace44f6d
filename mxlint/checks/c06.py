"""C06: failed connections are recognised before use and reported."""
from ..core import *
from ..wire import *
from .util import *


def run(ctx):
    ctx.rule("For every method of the connection class and every connection point in it: with that connection absent (reader and writer "
             "None) no path reaches a use of it before the method ends, and the value returned is a failure value (None/False/empty); "
             "the connection helper itself yields (None, None) instead of raising on every failure path.")
    cls = connection_cls(ctx)
    n = 0
    for m in cls.methods.values():
        if m.name in ("__init__", "_connect_to_server"):
            continue
        fl = ctx.flow(m, client_policy(ctx), key="client")
        conns = [i for i in fl.g.live if is_connect_enter(fl, i)]
        own = [c for c in conns if True]
        for c in own:
            n += 1
            check(ctx, m, fl, c, own)
        ctx.count("connection_points", len(own))
    ctx.floor("connection_points", 16)
    helper(ctx, cls)


def conn_id(fl, w):
    t = fl.term(w.args[0])
    return t[-1]


def check(ctx, m, fl, c, conns):
    g = fl.g
    cid = conn_id(fl, c)

    def which(t):
        if t is not None and is_conn_elem(t):
            return t[1][1][-1]
        return None

    def hook(d):
        if d.dst is None:
            return None
        if d.op in ("unpack", "item", "load"):
            for t in alts(fl.term(d.dst)):
                w = which(t)
                if w is None:
                    return None
                # several connections may share variable names: decided by the store (reaching definitions) below
                if d.op in ("unpack", "item"):
                    return ("c", None) if w == cid else "truthy"
        return None

    fr = g.frames[0]
    ret = (fr.id, "$ret")
    keys = {i.data for i in g.live if i.op == "store" and i.data[1] == "$ret"}
    ex = Explorer(fl, lambda i, s: [1 if i is c else s], follow_exc=False, hook=hook, watch_keys=keys, track_fields=False)
    vis = ex.run(0)
    hit = False
    reported = set()
    isgen = any(i.frame is fr for i in g.of("yield"))
    for k in vis:
        ins = g.ins[k[0]]
        if k[2] != 1:
            continue
        hit = True
        env = dict(k[1])
        bases = []
        if ins.op == "call":
            bases = list(ins.args) + list((ins.kw or {}).values()) + ([ins.recv] if ins.recv is not None else [])
        elif ins.op == "attr":
            bases = [ins.args[0]]
        for b in bases:
            if which_exact(fl, ex, b, cid, env) and ins.fn not in ("isinstance", "bool", "print") and not (ins.fn or "").startswith("logger"):
                key = f"used-unchecked:{m.qual.split('.')[-1]}:{ins.fn or ins.data}"
                if key in reported:
                    continue
                reported.add(key)
                ctx.fail(key, f"{m.name} uses the connection opened at line {c.line} although it could not be established; path "
                         f"{trace(ex.path((ins, k[1], k[2])))}", ins.loc)
        if ins.op == "yield" and ins.frame is fr:
            ctx.fail(f"failure-unreported:{m.name}", f"{m.name} yields an element although the connection could not be established; path "
                     f"{trace(ex.path((ins, k[1], k[2])))}", ins.loc)
        if ins is g.exit:
            v = env.get(ret)
            ok = v == "falsy" or (isinstance(v, tuple) and not v[1]) or v is None and False
            if v is None or v == "notnone":
                # unknown: accept containers that are empty
                ts = [fl.term(i.args[0]) for i in root_returns(fl) if i.args]
                ok = any(t[0] == "list0" or t == ("const", None) or t == ("tuple",) or t[0] == "dict0" for x in ts for t in alts(x)) \
                    or not ts
            if not ok and not isgen:
                ctx.fail(f"failure-unreported:{m.qual.split('.')[-1]}", f"{m.name} returns {v} although the connection could not be "
                         f"established", c.loc)
    ctx.count("explored_states", len(vis))
    if hit:
        ctx.count("failed_connection_scenarios")
        ctx.sample(f"{m.name}: connection at line {c.line} absent -> no use, failure value returned")


def which_exact(fl, ex, temp, cid, env):
    d = fl.g.tempdef.get(temp)
    if d is None:
        return False
    ts = alts(fl.term(temp))
    if not any(is_conn_elem(t) and t[1][1][-1] == cid for t in ts):
        return False
    v = ex.aval(temp, env)
    return v in (("c", None), "falsy") or v is None


def helper(ctx, cls):
    f = ctx.proj.find_method(cls, "_connect_to_server")
    if f is None:
        raise AnchorError("_connect_to_server not found")
    fl = ctx.flow(f, lambda *a: False, key="helper")
    g = fl.g
    yields = [i for i in g.of("yield")]
    ctx.count("helper_yields", len(yields))
    if len(yields) < 2:
        raise AnchorError("connection helper has no failure yield")
    # exceptions before any yield must end in a failure yield
    def edge(ins, succ, lab, st):
        if lab in ("exc", "exc-base") and (no_raise(ins) or harmless(fl, ins)):
            return False
        return 1 if ins.op == "yield" else st

    ex = Explorer(fl, lambda i, s: [1 if i.op == "yield" else s], edge=edge, follow_exc=True)
    vis = ex.run(0)
    for k in vis:
        ins = g.ins[k[0]]
        if ins in (g.raise_exit, g.exit) and k[2] == 0:
            ctx.fail("helper-no-answer", f"the connection helper can end without yielding (None, None) to the caller; path "
                     f"{trace(ex.path((ins, k[1], k[2])))}", f.module.rel)
            break
    # what is yielded: opened pair, or None pair
    some_none = False
    for y in yields:
        t = fl.term(y.args[0]) if y.args else ("const", None)
        for a in alts(t):
            if a == ("tuple", ("const", None), ("const", None)):
                some_none = True
                continue
            if a[0] == "tuple" and len(a) == 3:
                r, w = a[1], a[2]
                if not (opened(r, 0) and opened(w, 1)):
                    ctx.fail("helper-yields", f"the connection helper yields {show(a)}, not the opened (reader, writer)", y.loc)
                continue
            if contains(a, lambda x: x[0] == "call" and callname(x) == "open_connection"):
                continue
            ctx.fail("helper-yields", f"the connection helper yields {show(a)}", y.loc)
    if not some_none:
        ctx.fail("helper-yields", "the connection helper never yields (None, None)", f.module.rel)


def opened(t, i):
    for x in alts(t):
        if x == ("const", None):
            continue
        if not (x[0] == "item" and x[2] == ("const", i) and contains(x[1], lambda y: y[0] == "call" and callname(y) == "open_connection")):
            return False
    return True


def harmless(fl, ins):
    return ins.op == "call" and (callname(fl.term(ins.dst)) if ins.dst is not None else "") in (
        "AsyncRetrying", "stop_after_attempt", "wait_random_exponential", "get_event_loop")
