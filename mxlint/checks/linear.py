"""Abstract interpretation of one pass through a loop body (or any path) over linear integer expressions, with a small
linear-inequality domain (Fourier-Motzkin) to decide what the branch conditions of the path imply."""
from .util import *
from ..flow import strip_ids


class Lin:
    __slots__ = ("c", "m", "_h")

    def __init__(self, c=0, m=()):
        self.c = c
        self.m = frozenset((a, k) for a, k in (m.items() if isinstance(m, dict) else m) if k)
        self._h = hash((c, self.m))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.m == o.m

    def __add__(self, o):
        d = dict(self.m)
        for a, k in o.m:
            d[a] = d.get(a, 0) + k
        return Lin(self.c + o.c, d)

    def __neg__(self):
        return Lin(-self.c, {a: -k for a, k in self.m})

    def __sub__(self, o):
        return self + (-o)

    def scale(self, n):
        return Lin(self.c * n, {a: k * n for a, k in self.m})

    @property
    def const(self):
        return not self.m

    def __repr__(self):
        s = " + ".join((f"{k}*" if k != 1 else "") + brief(a) for a, k in sorted(self.m, key=str))
        return s + (f" + {self.c}" if self.c and s else "" if s else str(self.c))


def brief(v):
    if isinstance(v, Lin):
        return repr(v)
    if isinstance(v, tuple):
        if v and v[0] == "var":
            return str(v[1][1])
        if v and v[0] == "t":
            return show(v[1])[:60]
        if v and v[0] == "const":
            return repr(v[1])
        if v and v[0] == "item":
            return f"{brief(v[1])}[{brief(v[2])}]"
        if v and v[0] == "attr":
            return f"{brief(v[1])}.{v[2]}"
        if v and v[0] == "call":
            return f"{v[1]}({', '.join(brief(x) for x in v[3])})"
        if v and v[0] == "elem":
            return f"elem({brief(v[1])})"
        return "(" + ", ".join(brief(x) for x in v[:4]) + ")"
    return str(v)


def lin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, tuple) and v and v[0] == "const" and isinstance(v[1], int) and not isinstance(v[1], bool):
        return Lin(v[1])
    return Lin(0, {v: 1})


# ------------------------------------------------------------------ inequalities (each fact: Lin >= 0)
def minmax_atoms(fs):
    out = []
    for f in fs:
        for a, _ in f.m:
            if isinstance(a, tuple) and a and a[0] in ("min", "max") and a not in out:
                out.append(a)
    return out


def subst(f, a, v):
    k = dict(f.m).get(a, 0)
    if not k:
        return f
    d = dict(f.m)
    del d[a]
    return Lin(f.c, d) + v.scale(k)


def infeasible(facts, depth=0):
    """True if no integer assignment satisfies all facts (sound: False means unknown)."""
    for n, f in enumerate(facts):
        if isinstance(f, tuple):
            rest = facts[:n] + facts[n + 1:]
            if depth >= 6:
                return infeasible([x for x in facts if not isinstance(x, tuple)], depth)
            return infeasible(rest + [f[1] - Lin(1)], depth + 1) and infeasible(rest + [-f[1] - Lin(1)], depth + 1)
    mm = minmax_atoms(facts)
    if mm and depth < 9:
        a = mm[0]
        x, y = a[1], a[2]
        big, small = (x, y) if a[0] == "max" else (y, x)
        one = [subst(f, a, x) for f in facts] + [big - small if a[0] == "max" else y - x]
        two = [subst(f, a, y) for f in facts] + ([y - x] if a[0] == "max" else [x - y])
        return infeasible(one, depth + 1) and infeasible(two, depth + 1)
    cons = {}
    for f in facts:
        if f.const:
            if f.c < 0:
                return True
            continue
        cons[f.m] = min(cons.get(f.m, f.c), f.c)
    work = [(dict(m), c) for m, c in cons.items()]
    while True:
        vs = {}
        for m, c in work:
            for a in m:
                vs[a] = vs.get(a, 0) + 1
        if not vs:
            return False
        # eliminate the variable with the fewest products
        best = None
        for a in vs:
            p = sum(1 for m, _ in work if m.get(a, 0) > 0)
            n = sum(1 for m, _ in work if m.get(a, 0) < 0)
            if best is None or p * n < best[0]:
                best = (p * n, a)
        a = best[1]
        pos = [x for x in work if x[0].get(a, 0) > 0]
        neg = [x for x in work if x[0].get(a, 0) < 0]
        new = [x for x in work if not x[0].get(a, 0)]
        for m1, c1 in pos:
            for m2, c2 in neg:
                k1, k2 = m1[a], -m2[a]
                m = {}
                for b, k in m1.items():
                    m[b] = m.get(b, 0) + k * k2
                for b, k in m2.items():
                    m[b] = m.get(b, 0) + k * k1
                m = {b: k for b, k in m.items() if k}
                c = c1 * k2 + c2 * k1
                if not m:
                    if c < 0:
                        return True
                    continue
                new.append((m, c))
        d = {}
        for m, c in new:
            k = frozenset(m.items())
            d[k] = min(d.get(k, c), c)
        work = [(dict(m), c) for m, c in d.items()]
        if len(work) > 400:
            return False


def implies(facts, f):
    """facts entail f >= 0."""
    return infeasible(list(facts) + [-f + Lin(-1)])


def equal(facts, a, b):
    if a == b:
        return True
    d = a - b
    return implies(facts, d) and implies(facts, -d)


def of_cmp(v, truth):
    """Facts of a comparison value being true/false, or [] if not expressible."""
    if v[0] == "not":
        return of_cmp(v[1], not truth) if isinstance(v[1], tuple) else []
    if v[0] != "cmp":
        if isinstance(v, tuple) and v[0] == "const":
            return [] if bool(v[1]) == truth else [Lin(-1)]
        return []
    op, a, b = v[1], v[2], v[3]
    if a[0:1] == ("const",) if isinstance(a, tuple) else False:
        return []
    if isinstance(b, tuple) and b[0:1] == ("const",) or isinstance(a, tuple) and a[0:1] in (("tup",), ("new",)):
        return []
    a, b = lin(a), lin(b)
    if not truth:
        op = {"Lt": "GtE", "LtE": "Gt", "Gt": "LtE", "GtE": "Lt", "Eq": "NotEq", "NotEq": "Eq"}.get(op)
    one = Lin(1)
    return {"Lt": [b - a - one], "LtE": [b - a], "Gt": [a - b - one], "GtE": [a - b], "Eq": [a - b, b - a], "NotEq": [("ne", a - b)]}.get(op, [])


# ------------------------------------------------------------------ evaluation
class Run:
    """State after executing a path."""

    def __init__(self, fl, env=None):
        self.fl = fl
        self.env = dict(env or {})
        self.val = {}
        self.fields = {}
        self.facts = []
        self.events = []
        self.seen = {}
        self.stored = set()
        self.conds = []

    def v(self, t):
        if t is None:
            return ("const", None)
        x = self.val.get(t)
        if x is not None:
            return x
        d = self.fl.g.tempdef.get(t)
        if d is not None and d.op == "load":
            return self.load(d)
        if d is not None and d.op in ("list", "dict", "set") and not d.args:
            return ("new", d.id)
        if d is not None and d.op == "newcomp":
            return ("comp", d.id)
        return wrap(self.fl.term(t))

    def load(self, d):
        if d.data in self.env:
            return self.env[d.data]
        if d.data in self.havoc:
            return ("var", d.data)
        r = self.fl.rdefs(d, d.data)
        if len(r) == 1 and r[0] is not None:
            x = self.fl.g.tempdef.get(r[0].args[0])
            if x is not None and x.op in ("list", "dict", "set") and not x.args:
                return ("new", x.id)
            if x is not None and x.op == "newcomp":
                return ("comp", x.id)
            if x is not None and x.op == "load":
                return self.load(x)
        return wrap(self.fl.term(d.dst))

    havoc = frozenset()

    def do(self, i, lab):
        op = i.op
        n = self.seen[i.id] = self.seen.get(i.id, 0) + 1
        v = self.v
        if op == "store":
            self.env[i.data] = v(i.args[0])
            self.stored.add(i.data)
            return
        if op == "setattr":
            self.fields[(v(i.args[0]), i.data)] = v(i.args[1])
            self.events.append((i, tuple(v(a) for a in i.args), None))
            return
        if op in ("setitem", "delitem", "return", "raise", "yield"):
            self.events.append((i, tuple(v(a) for a in i.args if a is not None), None))
        if op == "branch":
            c = v(i.args[0])
            self.conds.append((c, lab, i))
            if lab in (True, False) and isinstance(c, tuple):
                self.facts += of_cmp(c, lab)
            return
        if i.dst is None:
            return
        r = None
        if op == "const":
            r = Lin(i.data) if isinstance(i.data, int) and not isinstance(i.data, bool) else ("const", i.data)
        elif op == "load":
            r = self.load(i)
        elif op in ("alias", "await"):
            r = v(i.args[0])
        elif op == "bin":
            a, b = v(i.args[0]), v(i.args[1])
            if i.data in ("Add", "Sub") and scalar(a) and scalar(b):
                r = lin(a) + lin(b) if i.data == "Add" else lin(a) - lin(b)
            elif i.data == "Mult" and isinstance(a, Lin) and a.const and scalar(b):
                r = lin(b).scale(a.c)
            elif i.data == "Mult" and isinstance(b, Lin) and b.const and scalar(a):
                r = lin(a).scale(b.c)
            else:
                r = ("bin", i.data, a, b)
        elif op == "unary":
            a = v(i.args[0])
            if i.data == "USub" and scalar(a):
                r = -lin(a)
            elif i.data == "Not":
                r = ("not", a)
            else:
                r = ("unary", i.data, a)
        elif op == "cmp":
            r = ("cmp", i.data, v(i.args[0]), v(i.args[1]))
        elif op in ("tuple", "list") and i.args:
            r = ("tup",) + tuple(v(a) for a in i.args)
        elif op in ("list", "dict", "set") and not i.args:
            r = ("new", i.id)
        elif op == "dict" and all(a is not None for a in i.args):
            r = ("dictlit",) + tuple(v(a) for a in i.args)
        elif op == "newcomp":
            r = ("comp", i.id)
        elif op in ("item", "unpack"):
            k = v(i.args[1]) if op == "item" else (Lin(i.data) if isinstance(i.data, int) else ("const", i.data))
            r = item(v(i.args[0]), k)
        elif op == "attr":
            b = v(i.args[0])
            r = self.fields.get((b, i.data))
            if r is None:
                r = ("attr", b, i.data)
        elif op == "iter":
            r = ("iter", v(i.args[0]))
            self.events.append((i, (v(i.args[0]),), None))
        elif op == "next":
            r = ("elem", v(i.args[0])[1] if v(i.args[0])[0] == "iter" else v(i.args[0]), i.id)
        elif op == "call":
            r = self.call(i, n)
        elif op == "yield":
            r = ("sent", i.id, n)
        elif op == "slice":
            r = ("slice",) + tuple(v(a) for a in i.args)
        elif op == "with_enter":
            r = ("entered", v(i.args[0]))
        if r is None:
            r = wrap(self.fl.term(i.dst))
        self.val[i.dst] = r

    def call(self, i, n):
        fn = last(i.fn)
        args = tuple(self.v(a) for a in i.args)
        kw = tuple(sorted((k, self.v(x)) for k, x in (i.kw or {}).items()))
        recv = self.v(i.recv) if i.recv is not None else None
        self.events.append((i, args, recv))
        if i.target is None or True:
            if i.fn in ("int", "float") and len(args) == 1 and scalar(args[0]):
                return args[0]
            if i.fn in ("min", "max") and len(args) == 2 and not kw and scalar(args[0]) and scalar(args[1]):
                a, b = lin(args[0]), lin(args[1])
                return Lin(0, {(fn, a, b): 1})
            if i.fn == "len" and len(args) == 1 and args[0][0:1] == ("tup",) if args and isinstance(args[0], tuple) else False:
                return Lin(len(args[0]) - 1)
            if i.fn in PURE or fn in ("islice", "deque"):
                return ("call", fn, None, args, kw)
        return ("call", fn, recv, args, kw, i.id, n)


PURE = {"len", "range", "iter", "list", "tuple", "sorted", "enumerate", "zip", "reversed", "set", "sum", "abs", "str", "isinstance", "map", "islice", "defaultdict_to_dict"}


def scalar(v):
    return isinstance(v, Lin) or isinstance(v, tuple) and v and v[0] not in ("tup", "new", "comp", "const", "cmp", "not", "fstr")


def wrap(t):
    if t[0] == "const":
        return Lin(t[1]) if isinstance(t[1], int) and not isinstance(t[1], bool) else t
    if t[0] == "iterof":
        return ("iter", wrap(t[-1]))
    if t[0] in ("list0", "dict0", "set0") and len(t) == 2:
        return ("new", t[1])
    if t[0] == "call" and t[1] in PURE and t[2] is None and not t[4]:
        return ("call", t[1], None, tuple(wrap(x) for x in t[3]), ())
    return ("t", strip_ids(t))


def item(b, k):
    n = k.c if isinstance(k, Lin) and k.const else None
    if isinstance(b, tuple) and b and b[0] == "tup" and n is not None and -len(b) < n < len(b) - 1:
        return b[1:][n]
    if isinstance(b, tuple) and b and b[0] == "elem" and isinstance(b[1], tuple) and b[1][0] == "call":
        s = b[1]
        if s[1] == "enumerate" and s[3]:
            if n == 1:
                return ("elem", s[3][0], b[2])
            if n == 0:
                start = s[3][1] if len(s[3]) > 1 else dict(s[4]).get("start") if len(s) > 4 and s[4] else None
                x = ("index", s[3][0], b[2])
                return x if start is None else lin(x) + lin(start) if scalar(start) else ("bin", "Add", x, start)
        if s[1] == "zip" and n is not None and n < len(s[3]):
            return ("elem", s[3][n], b[2])
    return ("item", b, lin(k) if scalar(k) else k)


# ------------------------------------------------------------------ paths
def body_of(head):
    """Instructions of the natural loop of a loop head (dominated by it and able to come back to it), without the head."""
    g = head.g
    memo = g.__dict__.setdefault("_bodies", {})
    if head.id in memo:
        return memo[head.id]
    outside = set()
    st = [g.entry]
    while st:
        x = st.pop()
        if x.id in outside or x is head:
            continue
        outside.add(x.id)
        st.extend(s for s, l in x.succ)
    body, st = {}, [p for p, l in head.pred if p.id not in outside]
    while st:
        x = st.pop()
        if x.id in body or x is head or x.id in outside:
            continue
        body[x.id] = x
        st.extend(p for p, l in x.pred)
    memo[head.id] = [body[k] for k in sorted(body)]
    return memo[head.id]


def loop_paths(fl, head, limit=4000):
    """Paths from the head of a loop through its body: ('loop'|'raise'|'return'|'break'|'stop', [(ins, label)…])."""
    g = fl.g
    body = {i.id for i in body_of(head)}
    heads = {}
    for i in body_of(head):
        if i.op in ("next", "loop"):
            heads[i.id] = i
    out = []

    def walk(i, lab, path, seen):
        if len(out) > limit:
            raise AnchorError("too many paths through a loop body")
        while True:
            if i is head and path:
                out.append(("loop", path))
                return
            if i.op in ("raise", "reraise", "assertfail"):
                out.append(("raise", path + [(i, None)]))
                return
            if i.id not in body and i is not head:
                kind = "break" if i.op != "return" else "return"
                out.append((kind, path + [(i, None)]))
                return
            succ = [(s, l) for s, l in i.succ if l not in ("exc", "exc-base")]
            if i.id in heads and i.op == "next":
                succ = [(s, l) for s, l in succ if l == "stop"]
            elif i.id in seen:
                raise AnchorError("inner while loop not summarised")
            if i is head and i.op == "next":
                st = [(s, l) for s, l in succ if l == "stop"]
                succ = [(s, l) for s, l in succ if l == "next"]
            if not succ:
                return
            if len(succ) == 1:
                path = path + [(i, succ[0][1])]
                seen = seen | {i.id}
                i = succ[0][0]
                continue
            for s, l in succ:
                walk(s, l, path + [(i, l)], seen | {i.id})
            return

    walk(head, None, [], frozenset())
    return out


def elem_of(r, h):
    """Value a for loop yields in run r."""
    x = r.v(h.args[0])
    return ("elem", x[1] if isinstance(x, tuple) and x[0] == "iter" else x, h.id)


def stored_in(inss):
    return frozenset(i.data for i in inss if i.op == "store")


def execute(fl, path, havoc, env=None, assume=(), cls=Run, setup=None):
    """Executes a path; returns the Run, or None if it is infeasible."""
    r = cls(fl, env)
    if setup is not None:
        setup(r)
    r.havoc = havoc
    r.facts = list(assume)
    for i, lab in path:
        r.do(i, lab)
        if i.op == "next" and lab == "stop":
            # variables changed in a summarised inner loop are unknown afterwards
            for k in stored_in(body_of(i)):
                r.env[k] = ("after", k, i.id)
    if infeasible(r.facts):
        return None
    return r


def segments(fl, starts, cuts, limit=4000, exc_of=()):
    """Paths from each (instruction, label) edge to the next cut point: (kind, instruction, [(ins, label)…]) with kind
    'cut' | 'raise' | 'return' | 'end'.  For loops that are not cut points are summarised by their exhausted edge; exceptional
    edges are followed only out of the instructions (ids) in exc_of, to handlers."""
    out = []

    def walk(i, lab, path, seen):
        first = True
        while True:
            if len(out) > limit:
                raise AnchorError("too many paths between cut points")
            if i.id in cuts and path:
                out.append(("cut", i, path))
                return
            if i.op in ("raise", "reraise", "assertfail"):
                out.append(("raise", i, path + [(i, None)]))
                return
            if i.op == "return" and i.frame is fl.g.frames[0]:
                out.append(("return", i, path + [(i, None)]))
                return
            succ = [(s, l) for s, l in i.succ if l not in ("exc", "exc-base") or (i.id in exc_of and l == "exc" and s.op == "dispatch")]
            if i.op == "dispatch":
                succ = [(s, l) for s, l in i.succ if s.op == "handler"]
            if first and lab is not None:
                succ = [(s, l) for s, l in succ if l == lab]
                first = False
            elif i.op == "next":
                succ = [(s, l) for s, l in succ if l == "stop"]
            elif i.id in seen:
                raise AnchorError(f"{i.loc}: inner loop not summarised")
            first = False
            if not succ:
                out.append(("end", i, path + [(i, None)]))
                return
            if len(succ) == 1:
                path = path + [(i, succ[0][1])]
                seen = seen | {i.id}
                i = succ[0][0]
                continue
            for s, l in succ:
                walk(s, None, path + [(i, l)], seen | {i.id})
            return

    for i, lab in starts:
        walk(i, lab, [], frozenset())
    return out
