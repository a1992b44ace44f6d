"""Shared anchors for the chunk distributor and its checkpoints."""
import ast

from ..core import *
from .util import *


def dist_cls(ctx):
    return ctx.proj.cls("ChunkDistributor")


def last_const(t):
    b, c = comps(t)
    return c[-1][1] if c and c[-1][0] == "const" else None


def start_method(ctx):
    """Method that starts the checkpoint writer process, and the writer function."""
    c = dist_cls(ctx)
    for m in c.methods.values():
        fl = ctx.flow(m, lambda *a: False, c, key="own")
        for i in fl.g.calls():
            if last(i.fn) in ("Process", "Thread"):
                t = arg_term(i, fl, 1, "target")
                if t is not None:
                    return m, i, t
    raise AnchorError("no checkpoint writer process found")


def start_flow(ctx):
    m, _, _ = start_method(ctx)
    return ctx.flow(m, None, dist_cls(ctx), key="start")


def writer_func(ctx):
    c = dist_cls(ctx)
    m, i, t = start_method(ctx)
    for x in subterms(t):
        if x[0] == "attr" and ctx.proj.find_method(c, x[2]) is not None:
            return ctx.proj.find_method(c, x[2])
        if x[0] == "fn":
            for f in ctx.proj.funcs.values():
                if f.qual == x[1]:
                    return f
    raise AnchorError(f"checkpoint writer {show(t)} not resolved")


def writer_flow(ctx):
    return ctx.flow(writer_func(ctx), None, dist_cls(ctx), key="writer")


def restore_flow(ctx):
    c = dist_cls(ctx)
    m = ctx.proj.find_method(c, "from_checkpoint")
    if m is None:
        raise AnchorError("from_checkpoint not found")
    return ctx.flow(m, None, c, key="restore")


def result_dir(ctx):
    """Name of the query result directory a restore reads."""
    fl = restore_flow(ctx)
    for i in fl.g.calls():
        if last(i.fn) == "from_cache":
            t = arg_term(i, fl, 0, "path")
            n = last_const(t) if t is not None else None
            if n is not None:
                return n
    raise AnchorError("restore does not load the query result")


def writer_args(ctx):
    """Writer parameter -> term in the flow of the method starting the writer."""
    fl = start_flow(ctx)
    w = writer_func(ctx)
    proc = [i for i in fl.g.calls() if last(i.fn) in ("Process", "Thread")]
    return fl, w, process_args(fl, w, proc)


def process_args(fl, w, proc):
    out = {}
    for i in proc:
        a = arg_term(i, fl, 3, "args")
        kw = arg_term(i, fl, 4, "kwargs")
        ps = [p for p in w.params() if p not in ("self", "cls")]
        if a is not None and a[0] in ("tuple", "list"):
            for p, t in zip(ps, a[1:]):
                out[p] = t
        if kw is not None and kw[0] == "dict":
            for kv in kw[1:]:
                if kv[0] is not None and kv[0][0] == "const":
                    out[kv[0][1]] = kv[1]
    if not out:
        raise AnchorError("arguments of the checkpoint writer not resolved")
    return out


def ckpt_flow(ctx):
    """checkpoint() with everything it starts inlined."""
    c = dist_cls(ctx)
    m = ctx.proj.find_method(c, "checkpoint")
    if m is None:
        raise AnchorError("ChunkDistributor.checkpoint not found")
    return ctx.flow(m, None, c, key="checkpoint")


IMMUTABLE_NAMES = {"int", "str", "bool", "float", "bytes", "Path", "None"}


def immutable_param(func, name):
    """The parameter is annotated with immutable types only."""
    a = func.node.args
    for x in a.posonlyargs + a.args + a.kwonlyargs:
        if x.arg == name and x.annotation is not None:
            names = {n.id for n in ast.walk(x.annotation) if isinstance(n, ast.Name)}
            return names <= IMMUTABLE_NAMES
    return False


def immutable_attr(ctx, c, name, depth=0):
    """Every assignment of the attribute in class c stores an immutable value, and nothing is stored into it."""
    memo = ctx.__dict__.setdefault("_immut", {})
    k = (c.qual, name)
    if k in memo:
        return memo[k]
    memo[k] = True  # coinductive: x = x + 1 is immutable if the rest is
    n = 0
    for m in c.methods.values():
        fl = ctx.flow(m, lambda *a: False, c, key="own")
        for i in fl.g.of("setattr"):
            if i.data != name or fl.term(i.args[0]) != ("self",):
                continue
            n += 1
            if not all(immutable(ctx, m, c, a) for a in alts(fl.term(i.args[1]))):
                memo[k] = False
                return False
    memo[k] = n > 0
    return n > 0


SCALAR_CALLS = {"int", "str", "len", "bool", "float", "max", "min", "sum", "abs", "round", "repr", "format", "join", "getpid", "time", "hash", "isinstance",
                "dumps", "frozenset"}


def immutable(ctx, func, c, t, depth=0):
    k = t[0]
    if depth > 4:
        return False
    if k in ("const", "none", "enum", "fn", "class", "module", "fstr", "fmt", "cmp", "index", "global"):
        return True
    if k == "un":
        return True
    if k == "bin":
        return immutable(ctx, func, c, t[2], depth + 1) and (t[1] == "Div" or immutable(ctx, func, c, t[3], depth + 1))
    if k == "param":
        return func is not None and immutable_param(func, t[1])
    if k == "phi":
        return all(immutable(ctx, func, c, x, depth + 1) for x in t[1])
    if k == "call":
        if last(t[1]) in SCALAR_CALLS:
            return True
        m = ctx.proj.find_method(c, last(t[1])) if c is not None and t[2] == ("self",) else None
        r = m.node.returns if m is not None else None
        return r is not None and {n.id for n in ast.walk(r) if isinstance(n, ast.Name)} <= IMMUTABLE_NAMES
    if k == "attr":
        if t[2] == "value":
            return True
        if t[1] == ("self",) and c is not None:
            return immutable_attr(ctx, c, t[2], depth + 1)
    return False


def dict_entries(fl, t):
    """Key -> value terms of a dict display and the items stored in it."""
    out = {}
    if t[0] == "dict":
        for kv in t[1:]:
            if kv[0] is not None:
                out[kv[0]] = [kv[1]]
    if t[0] == "call" and t[1] == "dict":
        for k, v in t[4]:
            out[("const", k)] = [v]
    for _, k, v in fl.items_set(t):
        out.setdefault(k, []).append(v)
    if t[0] in ("tuple", "list"):
        for n, v in enumerate(t[1:]):
            out[("const", n)] = [v]
    return out


def saved(ctx):
    """file name -> {key term: [terms over the distributor's self]} of everything the writer dumps."""
    sfl, w, args = writer_args(ctx)
    fl = writer_flow(ctx)

    def sub(t):
        if t[0] == "param" and t[1] in args:
            return args[t[1]]
        if t[0] == "phi":
            return mkphi([sub(x) for x in t[1]])
        return t

    out = {}
    for i in fl.g.calls():
        if last(i.fn) != "dump":
            continue
        o, f = arg_term(i, fl, 0, "obj"), arg_term(i, fl, 1, "file")
        if o is None or f is None:
            continue
        name = None
        for x in subterms(f):
            if x[0] == "call" and last(x[1]) == "open":
                p = x[2] if x[1].startswith(".") else (x[3][0] if x[3] else dict(x[4]).get("file"))
                n = last_const(p) if p is not None else None
                name = n or name
        if name is None:
            continue
        d = out.setdefault(name, {})
        s = sub(o)
        if s is not o:
            for k, vs in dict_entries(sfl, s).items():
                d.setdefault(k, []).extend(vs)
            # entries the writer itself adds
            for _, k, v in fl.items_set(o):
                d.setdefault(k, []).append(sub(v))
        else:
            for k, vs in dict_entries(fl, o).items():
                d.setdefault(k, []).extend(sub(v) for v in vs)
    return sfl, fl, out


COPIES = {"deepcopy", "copy", "dict", "list", "int", "str", "getattr"}


def source(t):
    """Attribute path below self a saved value is the whole (copied) content of, or None."""
    if t[0] == "call" and last(t[1]) == "getattr" and len(t[3]) >= 2 and t[3][1][0] == "const":
        b = source(t[3][0])
        return b + (t[3][1][1],) if b is not None else None
    if t[0] == "call" and last(t[1]) in ("deepcopy", "copy", "dict", "list", "int") and (t[3] or t[2] is not None):
        return source(t[3][0] if t[3] else t[2])
    if t[0] == "call" and last(t[1]) in ("loads", "dumps") and t[3]:
        return source(t[3][0])
    if t == ("self",):
        return ()
    if t[0] == "attr":
        b = source(t[1])
        return b + (t[2],) if b is not None else None
    if t[0] == "call" and last(t[1]) == "get_obj" and t[2] is not None:
        return source(t[2])
    return None


def loaded(t):
    """(file name, key term) if t is an entry of a restored file."""
    if t[0] == "item":
        b, k = t[1], t[2]
    elif t[0] == "call" and last(t[1]) in ("get", "pop") and t[2] is not None and t[3]:
        b, k = t[2], t[3][0]
    else:
        return None
    n = load_name(b)
    return (n, k) if n is not None else None


def load_name(b):
    for a in alts(b):
        if a[0] == "call" and last(a[1]) in ("load", "loads") and a[3]:
            for x in subterms(a[3][0]):
                if x[0] == "call" and last(x[1]) in ("open", "read_bytes"):
                    p = x[2] if x[1].startswith(".") else (x[3][0] if x[3] else dict(x[4]).get("file"))
                    n = last_const(p) if p is not None else None
                    if n is not None:
                        return n
    return None
