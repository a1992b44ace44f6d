"""Values along one explored path: a variable stands for what was last stored into it on that path."""
from .util import *
from ..flow import mkitem


def along(fl, path, ins, t, depth=0):
    """Term of temp t when instruction ins is executed at the end of (its last occurrence in) path."""
    pos = max((n for n, i in enumerate(path) if i is ins), default=len(path) - 1)
    return _term(fl, path, pos, t, depth)


def _term(fl, path, pos, t, depth):
    d = fl.g.tempdef.get(t)
    if d is None or depth > 30:
        return fl.term(t)
    p = next((n for n in range(pos, -1, -1) if path[n] is d), None)
    if p is None:
        return fl.term(t)
    r = lambda x: _term(fl, path, p, x, depth + 1)
    if d.op == "load":
        for n in range(p - 1, -1, -1):
            if path[n].op == "store" and path[n].data == d.data:
                return _term(fl, path, n, path[n].args[0], depth + 1)
        return fl.term(t)
    if d.op in ("alias", "await"):
        return r(d.args[0])
    if d.op == "fstr":
        out = []
        for a in d.args:
            x = r(a)
            out += list(x[1:]) if x[0] == "fstr" else [x]
        return ("fstr",) + tuple(out)
    if d.op in ("tuple", "list"):
        if d.op == "list" and not d.args:
            return fl.term(t)
        return (d.op,) + tuple(r(a) for a in d.args)
    if d.op == "bin":
        return ("bin", d.data, r(d.args[0]), r(d.args[1]))
    if d.op == "unpack":
        return mkitem(r(d.args[0]), ("const", d.data)) if isinstance(d.data, int) else fl.term(t)
    if d.op == "item":
        return mkitem(r(d.args[0]), r(d.args[1]))
    if d.op == "call":
        ft = fl.term(t)
        if ft[0] != "call" or len(ft) != 6:
            return ft
        recv = r(d.recv) if d.recv is not None and ft[2] is not None else ft[2]
        if d.star:
            return ft
        return ("call", ft[1], recv, tuple(r(a) for a in d.args), tuple((k, r(v)) for k, v in (d.kw or {}).items()), ft[5])
    return fl.term(t)
