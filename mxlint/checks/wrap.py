"""Mixtures that wrap other mixtures: which attribute holds the wrapped ones, and whether something is done to all of them."""
from .util import *
from .c18 import loops_around

ORDER = {"sorted", "reversed", "list", "tuple", "enumerate", "iter", "copy", "set", "values"}


class Wrapper:
    def __init__(self, cls, attr, many, path):
        self.cls, self.attr, self.many, self.path = cls, attr, many, path  # path: attributes from an element to its mixture

    def __repr__(self):
        return f"{self.cls.name}.{self.attr}" + ("[]" + "".join("." + p for p in self.path) if self.many else "")


def mixture_classes(ctx):
    base = ctx.proj.cls("Mixture")
    out = []
    for cs in ctx.proj.classes.values():
        for c in cs:
            if c is not base and any(b is base for b in ctx.proj.mro(c)):
                out.append(c)
    return base, sorted(out, key=lambda c: c.name)


def unorder(t):
    while True:
        if t[0] == "iterof":
            t = t[-1]
        elif t[0] == "call" and callname(t) in ORDER and t[3]:
            t = t[3][0]
        elif t[0] == "call" and callname(t) in ("values", "copy") and t[2] is not None:
            t = t[2]
        elif t[0] == "item" and t[2][0] in ("slice", "sliced"):
            t = t[1]
        else:
            return t


def place(t):
    """(attribute of self, many, attributes from the element to the mixture) of a term denoting a wrapped mixture."""
    path = ()
    while t[0] == "attr":
        if t[1] == ("self",):
            return t[2], False, path
        path = (t[2],) + path
        t = t[1]
    if t[0] == "item" and t[1][0] == "elem" and t[2] == ("const", 1):
        t = t[1]
    if t[0] in ("elem", "valof"):
        b = unorder(t[1])
    elif t[0] == "item":
        b = unorder(t[1])
    elif t[0] == "call" and callname(t) == "next" and t[3]:
        return place(("elem", t[3][0]) if t[3][0][0] != "comp" else t[3][0][-1])
    else:
        return None
    if b[0] == "attr" and b[1] == ("self",):
        return b[2], True, path
    if b[0] == "comp":
        p = place(b[-1])
        return (p[0], True, p[2] + path) if p is not None else None
    return None


def wrappers(ctx):
    base, cs = mixture_classes(ctx)
    out = []
    for c in cs:
        m = ctx.proj.find_method(c, "mixture_in_rows")
        if m is None:
            continue
        fl = ctx.flow(m, None, c, key="wrap")
        places = set()
        for i in fl.g.calls():
            if last(i.fn) == "mixture_in_rows" and i.recv is not None:
                for t in alts(fl.term(i.recv)):
                    if t in (("self",), ("super",)) or is_call_term(t, "super"):
                        continue
                    p = place(t)
                    if p is not None:
                        places.add(p)
                    else:
                        places.add(None)
        if places:
            if len({(p[0], p[1], p[2]) if p else None for p in places}) != 1 or None in places:
                raise AnchorError(f"{c.name}: which wrapped mixture answers is not recognised")
            a, many, path = places.pop()
            out.append(Wrapper(c, a, many, path))
    return out


def is_inner(w, t, coll=None):
    """t denotes a wrapped mixture of w (of collection term coll, if the attribute is not set yet)."""
    for x in alts(t):
        if coll is not None:
            y, path = x, ()
            while y[0] == "attr" and y not in (coll,):
                path = (y[2],) + path
                y = y[1]
            if not w.many:
                if x == coll:
                    continue
                return False
            if y[0] in ("elem", "valof") and unorder(y[1]) == coll and path == w.path:
                continue
            if y[0] == "item" and y[1][0] == "elem" and unorder(y[1][1]) == coll and path == w.path:
                continue
            p = place(x)
            if p != (w.attr, w.many, w.path):
                return False
            continue
        if place(x) != (w.attr, w.many, w.path):
            return False
    return True


def missed(fl, w, via, via_edge=None, coll=None, after=None):
    """How an execution can end normally without `via` having been done for every wrapped mixture: a text, or None."""
    g = fl.g
    exits = [i for i in g.of("exit")]
    if not w.many:
        bad, ex = must_pass(fl, after or g.entry, lambda i: i.op == "exit", via, via_edge=via_edge, follow_exc=False)
        return "on some path" if bad else None
    heads = []
    for i in g.live:
        if via(i) or i.op == "branch":
            heads += [h for h in loops_around(fl, i) if h.op == "next"]
    ok = None
    for h in {h.id: h for h in heads}.values():
        b = unorder(fl.term(h.args[0]))
        p = (b[2], True) if b[0] == "attr" and b[1] == ("self",) else None
        if b[0] == "comp":
            q = place(b[-1])
            if q is not None and not filtered(fl, b):
                p = (q[0], True)
        if not (p == (w.attr, True) or coll is not None and b == coll):
            continue
        sub = fl.term(h.args[0])
        if sliced(sub):
            ok = ok or "for some of them only"
            continue
        nx = [s for s, l in h.succ if l == "next"]
        body = {x.id for x in body_ids(h)}
        bad = []
        for s in nx:
            b2, ex = must_pass(fl, s, lambda i: i is h or i.op == "exit" or i.id not in body, via, via_edge=via_edge, follow_exc=False)
            bad += b2
        if bad:
            ok = "for some of them"
            continue
        # the loop itself is reached on every path
        b3, ex = must_pass(fl, g.entry, lambda i: i.op == "exit", lambda i: i is h, follow_exc=False)
        if b3:
            ok = "on some path"
            continue
        return None
    return ok or "for the wrapped mixtures"


def sliced(t):
    while True:
        if t[0] == "iterof":
            t = t[-1]
        elif t[0] == "call" and callname(t) in ORDER and t[3]:
            t = t[3][0]
        elif t[0] == "call" and callname(t) in ("islice", "filter"):
            return True
        elif t[0] == "item":
            return True
        else:
            return False


def filtered(fl, comp):
    key = strip_ids(comp)
    for i in fl.g.of("elem"):
        if strip_ids(fl.term(i.args[0])) == key:
            from .linear import body_of
            for h in loops_around(fl, i):
                if any(x.op == "branch" for x in body_of(h)):
                    return True
    return False


def body_ids(h):
    from .linear import body_of
    return body_of(h)
