"""Divisors: every division whose divisor is not a constant happens only where the divisor is known not to be zero."""
from .linear import *

ORDER = {"sorted", "list", "tuple", "set", "frozenset", "dict", "reversed", "copy", "deepcopy", "keys"}
NEG = {"Gt": "LtE", "LtE": "Gt", "Lt": "GtE", "GtE": "Lt", "Eq": "NotEq", "NotEq": "Eq"}
SWAP = {"Gt": "Lt", "Lt": "Gt", "GtE": "LtE", "LtE": "GtE", "Eq": "Eq", "NotEq": "NotEq"}


def base(t):
    """The collection a view of it (sorted, keys, list, copy) goes over."""
    while t[0] == "call" and last(t[1]) in ORDER:
        if t[3]:
            t = t[3][0]
        elif t[2] is not None:
            t = t[2]
        else:
            break
    return t


def norm(t):
    """Terms in which elements of different views of a collection are the same."""
    if isinstance(t, frozenset):
        return frozenset(norm(x) for x in t)
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ("elem", "keyof") and isinstance(t[1], tuple):
            return ("elem", norm(base(t[1])))
        t = tuple(norm(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
        if len(t) == 3 and t[0] == "item" and t[2] == ("elem", t[1]):
            return ("valof", t[1])
        return t
    return t


def T(fl, t):
    memo = fl.__dict__.setdefault("_norm_terms", {})
    try:
        if t not in memo:
            memo[t] = norm(strip_ids(fl.term(t)))
        return memo[t]
    except TypeError:
        return norm(strip_ids(fl.term(t)))


def comp_elt(t):
    return t[2] if t[0] == "comp" and len(t) == 3 else None


def summed(t):
    """Element of which t is the sum."""
    if t[0] == "call" and last(t[1]) in ("sum", "fsum") and t[3]:
        c = t[3][0]
        e = comp_elt(c)
        if e is not None:
            return e
        if c[0] == "call" and last(c[1]) == "values" and c[2] is not None:
            return ("valof", c[2])
        return ("elem", base(c))
    return None


def pos_cmp(op, a, b):
    """a op b says: a is not zero (for numbers that are not negative)."""
    if b[0] != "const" or isinstance(b[1], bool) or not isinstance(b[1], (int, float)):
        return False
    return op == "Gt" and b[1] >= 0 or op == "GtE" and b[1] > 0 or op == "NotEq" and b[1] == 0 or op == "Eq" and b[1] != 0


def says_nonzero(c, lab, d, member=None):
    """Branch condition c with outcome lab implies that d is not zero. member(coll): the members of coll are not zero, each d's summand."""
    while c[0] == "un" and c[1] == "Not" or c[0] == "not":
        c, lab = c[-1], not lab
    if c[0] == "call" and last(c[1]) == "bool" and c[3]:
        return says_nonzero(c[3][0], lab, d, member)
    if c[0] == "cmp":
        op, a, b = c[1], c[2], c[3]
        if not lab:
            op = NEG.get(op, "?")
        if op == "?":
            return False
        for o, x, y in ((op, a, b), (SWAP.get(op, "?"), b, a)):
            if x == d and pos_cmp(o, x, y):
                return True
            # a length greater than another length
            if x == d and o == "Gt" and y[0] == "call" and last(y[1]) == "len":
                return True
            if d[0] == "call" and last(d[1]) == "len" and d[3] and x[0] == "call" and last(x[1]) == "len" and x[3] and base(x[3][0]) == base(d[3][0]) and \
                    (pos_cmp(o, x, y) or o == "Gt" and y[0] == "call" and last(y[1]) == "len"):
                return True
            if summed(d) is not None and summed(x) == summed(d) and pos_cmp(o, x, y):
                return True
            if x[0] == "call" and last(x[1]) == "len" and x[3] and pos_cmp(o, x, y) and member is not None and member(x[3][0]):
                return True
            if x[0] == "call" and last(x[1]) == "max" and x[3] and summed(d) is not None and comp_elt(x[3][0]) == summed(d) and pos_cmp(o, x, y):
                return True
        return False
    if c == d:
        return lab
    if c[0] == "call" and last(c[1]) == "isclose" and lab and len(c[3]) >= 2:
        for x, y in ((c[3][0], c[3][1]), (c[3][1], c[3][0])):
            if x == d and y[0] == "const" and y[1]:
                return True
    if lab and d[0] == "call" and last(d[1]) == "len" and d[3] and base(d[3][0]) == base(c):
        return True
    s = summed(d)
    if s is not None:
        if c[0] == "call" and last(c[1]) == "any" and c[3]:
            e = comp_elt(c[3][0]) or (("valof", c[3][0][2]) if c[3][0][0] == "call" and last(c[3][0][1]) == "values" else ("elem", base(c[3][0])))
            if lab and (e == s or e[0] == "cmp" and (e[2] == s and pos_cmp(e[1], e[2], e[3]) or e[3] == s and pos_cmp(SWAP.get(e[1], "?"), e[3], e[2]))):
                return True
        if c[0] == "call" and last(c[1]) == "all" and c[3] and not lab:
            e = comp_elt(c[3][0])
            if e is not None and says_nonzero(e, False, s):
                return True
        if summed(c) == s and lab:
            return True
        if lab and member is not None and member(c):
            return True
    return False


def filtered(fl, d):
    """member(coll) for says_nonzero: coll is a comprehension that admits only members whose summand in d is not zero."""
    g = fl.g
    s = summed(d)
    memo = {}

    def admits(nc, cT):
        el = [x for x in g.of("elem") if x.args and x.args[0] == nc.dst]
        if len(el) != 1 or len(el[0].args) != 2:
            return False
        x = T(fl, el[0].args[1])

        # the summand with the member of the comprehension put in for the member of its result
        def sub(t):
            if t == ("elem", base(cT)):
                return x
            if isinstance(t, tuple):
                return tuple(sub(y) if isinstance(y, tuple) else y for y in t)
            return t
        cand = norm(sub(s))
        miss, _ = must_pass(fl, nc, lambda i: i is el[0], lambda i: False, via_edge=lambda b, lab: says_nonzero(T(fl, b.args[0]), lab, cand), kill=lambda i: i.op == "next", follow_exc=False)
        return not miss

    def member(coll):
        if s is None:
            return False
        c = base(coll)
        if c not in memo:
            memo[c] = any(base(T(fl, nc.dst)) == c and admits(nc, T(fl, nc.dst)) for nc in g.of("newcomp"))
        return memo[c]
    return member


def static_nonzero(t):
    if t[0] == "const":
        return isinstance(t[1], (int, float)) and t[1] != 0
    if t[0] == "call" and last(t[1]) == "max" and len(t[3]) > 1:
        return any(x[0] == "const" and isinstance(x[1], (int, float)) and x[1] > 0 for x in t[3])
    if t[0] == "call" and last(t[1]) in ("float", "int", "abs") and len(t[3]) == 1 and last(t[1]) != "int":
        return static_nonzero(t[3][0])
    if t[0] == "bin" and t[1] == "Add":
        n = lambda x: x[0] == "call" and last(x[1]) in ("len", "abs") or x[0] == "const" and isinstance(x[1], (int, float)) and x[1] >= 0
        return static_nonzero(t[2]) and n(t[3]) and (t[2][0] != "const" or t[2][1] > 0) or static_nonzero(t[3]) and n(t[2]) and (t[3][0] != "const" or t[3][1] > 0)
    if t[0] == "bin" and t[1] in ("Mult", "Pow"):
        return static_nonzero(t[2]) and static_nonzero(t[3])
    if t[0] == "phi":
        return all(static_nonzero(x) for x in t[1])
    return False


def divisions(fl):
    """(instruction, divisor temp) of every division."""
    for i in fl.g.ins:
        if i.op in ("bin", "augbin") and i.data in ("Div", "FloorDiv", "Mod"):
            yield i, i.args[1]


def unguarded(fl, i, t):
    """True if a path reaches the division without the divisor being known not to be zero."""
    d = T(fl, t)
    if static_nonzero(d):
        return False
    # elements of an array picked by a mask of where it is not zero
    if d[0] == "item" and any(m[0] == "cmp" and (m[2] == d[1] and pos_cmp(m[1], m[2], m[3]) or m[3] == d[1] and pos_cmp(SWAP.get(m[1], "?"), m[3], m[2]))
                              for m in (d[2][1] if d[2][0] == "phi" else [d[2]])):
        return False
    df = defining(fl, t)
    loops = [h for h in fl.g.ins if h.op in ("next", "loop") and df is not None and any(x is df for x in body_of(h))]
    member = filtered(fl, d)
    miss, _ = must_pass(fl, fl.g.entry, lambda x: x is i, lambda x: False, via_edge=lambda b, lab: says_nonzero(T(fl, b.args[0]), lab, d, member),
                        kill=lambda x: any(x is h for h in loops))
    return bool(miss)
