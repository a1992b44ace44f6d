from ..core import *
from ..flow import strip_ids, mkphi, mkitem, mkelem

NORAISE_PREFIX = ("loguru.logger.", "logger.", "traceback.", "logging.", "warnings.warn", "contextlib.suppress")
NORAISE = {"len", "str", "repr", "int", "bool", "isinstance", "type", "print", "time.time", "id", "range", "list", "dict", "set",
           "tuple", "super", ".info", ".debug", ".warning", ".error", ".exception", ".append", "uuid.uuid4", "suppress"}


def no_raise(ins):
    """Calls treated as not raising (logging, formatting, trivial builtins)."""
    if ins.op == "call":
        fn = ins.fn or ""
        if fn.startswith(NORAISE_PREFIX) or fn in NORAISE:
            return True
        if ins.recv is not None and fn.split(".")[-1] in ("clear", "append", "add", "discard", "items", "keys", "values", "release") and not callable_target(ins):
            return True
    return False


def callable_target(ins):
    return ins.target is not None


def must_pass(fl, start, targets, via, via_edge=None, follow_exc=True, follow_base=False, hook=None, init=0, kill=None,
              exc_done=None):
    """Paths from start reaching a target without having executed a `via` instruction (state 1).
    Returns list of (target item, explorer)."""
    g = fl.g

    def step(ins, st):
        return [1 if via(ins) else (0 if kill is not None and kill(ins) else st)]

    def edge(ins, succ, lab, st):
        if lab in ("exc", "exc-base") and no_raise(ins):
            return False
        if lab in ("exc", "exc-base") and exc_done is not None and exc_done(ins):
            return 1
        if via_edge is not None and lab in (True, False) and via_edge(ins, lab):
            return 1
        return st

    ex = Explorer(fl, step, edge=edge, follow_exc=follow_exc, follow_base=follow_base, hook=hook)
    vis = ex.run(init, start=start)
    bad = []
    for k in vis:
        ins = g.ins[k[0]]
        if targets(ins) and k[2] == 0 and not via(ins):
            bad.append((ins, k[1], k[2]))
    return bad, ex


def in_loop(fl, ins):
    """ins can reach itself (without exceptional edges)."""
    seen, st = set(), [s for s, l in ins.succ if l not in ("exc", "exc-base")]
    while st:
        x = st.pop()
        if x is ins:
            return True
        if x.id in seen:
            continue
        seen.add(x.id)
        st.extend(s for s, l in x.succ if l not in ("exc", "exc-base"))
    return False


def reach(starts, stop=None, exc=True):
    seen, st = set(), list(starts)
    out = []
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        out.append(x)
        if stop is not None and stop(x):
            continue
        for s, l in x.succ:
            if not exc and l in ("exc", "exc-base"):
                continue
            st.append(s)
    return out


def root_returns(fl):
    fr = fl.g.frames[0]
    return [i for i in fl.g.of("return") if i.frame is fr]


def callname(t):
    return t[1].split(".")[-1] if t and t[0] == "call" and t[1] else None


def is_call_term(t, *names):
    return t is not None and t[0] == "call" and callname(t) in names


def contributions(fl, t, depth=0, seen=None):
    """All sub-terms of t, following local containers into what was appended to them."""
    seen = set() if seen is None else seen
    for x in subterms(t):
        yield x
        if x[0] in ("list0", "list", "set", "comp", "dict0", "dict", "call") and x not in seen and depth < 6:
            seen.add(x)
            if x[0] in ("list0", "list"):
                for _, e in fl.appended(x):
                    if e is not None:
                        yield from contributions(fl, e, depth + 1, seen)
            if x[0] in ("dict0", "dict"):
                for _, k, v in fl.items_set(x):
                    yield from contributions(fl, k, depth + 1, seen)
                    yield from contributions(fl, v, depth + 1, seen)


def const_arg(ins, fl, pos, kw, default=None):
    """Constant passed at position/keyword of a call instruction."""
    a = None
    if kw is not None and (ins.kw or {}).get(kw) is not None:
        a = ins.kw[kw]
    elif pos is not None and len(ins.args) > pos:
        a = ins.args[pos]
    if a is None:
        return ("const", default)
    return fl.term(a)


def arg_term(ins, fl, pos, kw):
    if kw is not None and (ins.kw or {}).get(kw) is not None:
        return fl.term(ins.kw[kw])
    if pos is not None and len(ins.args) > pos:
        return fl.term(ins.args[pos])
    return None


def last(fn):
    return (fn or "").split(".")[-1]


def same(a, b):
    return strip_ids(a) == strip_ids(b)


def caught_by(disp, cls):
    """Successors of a dispatch instruction that an exception of builtin class cls takes."""
    from ..ir import exc_class
    outer = []
    for s, l in disp.succ:
        if s.op == "handler":
            types = s.data
            if not types:
                return {s.id}
            for t in types:
                k = exc_class(t)
                if k is not None and issubclass(cls, k):
                    return {s.id}
        else:
            outer.append(s.id)
    return set(outer)


def comps(t):
    """Path term -> (base term, component terms)."""
    while True:
        if t[0] == "call" and last(t[1]) in ("Path", "str", "fspath", "PurePath", "resolve", "absolute", "as_posix", "expanduser") and (
                len(t[3]) == 1 or (t[2] is not None and not t[3])):
            t = t[3][0] if t[3] else t[2]
            continue
        break
    if t[0] == "bin" and t[1] == "Div":
        b, c = comps(t[2])
        return b, c + (t[3],)
    if t[0] == "call" and last(t[1]) in ("joinpath",) and t[2] is not None:
        b, c = comps(t[2])
        return b, c + t[3]
    if t[0] == "call" and t[1] in ("os.path.join", "path.join", "Path", "pathlib.Path") and len(t[3]) > 1:
        b, c = comps(t[3][0])
        return b, c + t[3][1:]
    if t[0] == "fstr" and len(t) > 2 and any(x[0] == "const" and "/" in str(x[1]) for x in t[1:]):
        cur, out = [], []
        for x in t[1:]:
            if x[0] == "const":
                ps = str(x[1]).split("/")
                for n, p in enumerate(ps):
                    if n:
                        out.append(cur)
                        cur = []
                    if p:
                        cur.append(("const", p))
            else:
                cur.append(x)
        out.append(cur)
        out = [o[0] if len(o) == 1 else ("fstr",) + tuple(o) for o in out if o]
        b, c = comps(out[0])
        return b, c + tuple(out[1:])
    return t, ()


def path_key(t):
    b, c = comps(t)
    return (strip_ids(b),) + tuple(strip_ids(x) for x in c)


OPENERS = {"open", "io.open", ".open", "gzip.open", "builtins.open"}


def file_ops(fl):
    """(kind, path term, ins, extra): kinds read/write (files opened), rename (extra = destination), mkdir, remove, copy."""
    out = []
    for i in fl.g.calls():
        n, fn = last(i.fn), i.fn or ""
        recv = fl.term(i.recv) if i.recv is not None else None
        if n == "open" and fn != "os.open":
            p = recv if recv is not None and fn.startswith(".") else arg_term(i, fl, 0, "file")
            m = arg_term(i, fl, 0 if recv is not None and fn.startswith(".") else 1, "mode") or ("const", "r")
            md = m[1] if m[0] == "const" else "?"
            if p is not None:
                out.append(("write" if any(c in str(md) for c in "wax+") else "read", p, i, md))
        elif n in ("write_text", "write_bytes") and recv is not None:
            out.append(("write", recv, i, "w"))
        elif n in ("read_text", "read_bytes") and recv is not None:
            out.append(("read", recv, i, "r"))
        elif n in ("rename", "replace", "renames", "move"):
            if fn.startswith(("os.", "shutil.")):
                a, b = arg_term(i, fl, 0, "src"), arg_term(i, fl, 1, "dst")
            elif recv is not None and len(i.args) + len(i.kw or {}) == 1:
                a, b = recv, arg_term(i, fl, 0, "target")
            else:
                continue
            if a is not None and b is not None:
                out.append(("rename", a, i, b))
        elif n in ("mkdir", "makedirs"):
            p = recv if recv is not None and fn.startswith(".") else arg_term(i, fl, 0, "name")
            if p is not None:
                out.append(("mkdir", p, i, None))
        elif n in ("copytree", "copy", "copy2", "copyfile") and fn.startswith("shutil"):
            out.append(("copy", arg_term(i, fl, 0, "src"), i, arg_term(i, fl, 1, "dst")))
        elif n in ("rmtree", "unlink", "rmdir") or fn == "os.remove":
            p = recv if recv is not None and fn.startswith(".") else arg_term(i, fl, 0, "path")
            if p is not None:
                out.append(("remove", p, i, None))
    return out


WRITERS = {"dump", "write", "write_text", "write_bytes", "copytree", "copyfile", "copy2", "mkdir", "makedirs", "rename", "replace", "to_cache",
           "serialize_chunker_index", "move", "savez", "save", "write_table"}


def defining(fl, t):
    """Instruction defining temp t, looking through loads with one definition, aliases and awaits."""
    for _ in range(12):
        d = fl.g.tempdef.get(t)
        if d is None:
            return None
        if d.op == "load":
            r = fl.rdefs(d, d.data)
            if len(r) == 1 and r[0] is not None:
                t = r[0].args[0]
                continue
        if d.op in ("alias", "await"):
            t = d.args[0]
            continue
        return d
    return None


def var_key(fl, t):
    """Variable (frame, name) a temp is loaded from, looking through parameter copies of inlined helpers."""
    key = None
    for _ in range(12):
        d = fl.g.tempdef.get(t)
        if d is None or d.op not in ("load", "alias"):
            return key
        if d.op == "alias":
            t = d.args[0]
            continue
        key = d.data
        r = fl.rdefs(d, d.data)
        if len(r) == 1 and r[0] is not None:
            n = fl.g.tempdef.get(r[0].args[0])
            if n is not None and n.op == "load":
                t = r[0].args[0]
                continue
        return key
    return key


def attr_delta(fl, i):
    """For `x.a = x.a +/- const` returns the constant (0 if x.a is written back unchanged), else None."""
    if i.op != "setattr":
        return None
    d = defining(fl, i.args[1])
    if d is None:
        return None
    base = strip_ids(fl.term(i.args[0]))

    def reads(t):
        x = defining(fl, t)
        return x is not None and x.op == "attr" and x.data == i.data and strip_ids(fl.term(x.args[0])) == base

    if d.op == "bin" and d.data in ("Add", "Sub"):
        l, r = d.args[0], d.args[1]
        for a, b, ok in ((l, r, True), (r, l, d.data == "Add")):
            c = fl.term(b)
            if ok and reads(a) and c[0] == "const" and isinstance(c[1], int):
                return c[1] if d.data == "Add" else -c[1]
    if d.op == "attr" and d.data == i.data and strip_ids(fl.term(d.args[0])) == base:
        return 0
    return None


def var_delta(fl, s, key):
    """For a store `v = v +/- const` into key returns the constant, else None."""
    d = fl.g.tempdef.get(s.args[0])
    while d is not None and d.op == "alias":
        d = fl.g.tempdef.get(d.args[0])
    if d is None or d.op != "bin" or d.data not in ("Add", "Sub"):
        return None
    for a, b, ok in ((d.args[0], d.args[1], True), (d.args[1], d.args[0], d.data == "Add")):
        x = fl.g.tempdef.get(a)
        c = fl.term(b)
        if ok and x is not None and x.op == "load" and x.data == key and c[0] == "const" and isinstance(c[1], int):
            return c[1] if d.data == "Add" else -c[1]
    return None


COPIES = {"deepcopy"}


def deep_copy_of(t):
    """Argument of a deep copy term, else None."""
    if t[0] == "call" and callname(t) in COPIES and len(t[3]) >= 1:
        return t[3][0]
    if t[0] == "call" and callname(t) == "loads" and t[3] and t[3][0][0] == "call" and callname(t[3][0]) == "dumps":
        return t[3][0][3][0]
    return None
