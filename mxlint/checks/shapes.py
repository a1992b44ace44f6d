"""Length analysis of the arrays an object keeps per domain: an abstract interpretation of methods in which every array carries its length
(a linear expression over the lengths at entry) and what it holds (a multiset of sources it is the sum of), exploring all combinations of
attributes that are None or not; loops over lists of arrays are executed for a generic element."""
from .linear import *

NP = ("numpy.", "np.")
LIKE = {"zeros_like": (), "ones_like": ("ones",), "empty_like": ("?",), "full_like": ("?",)}
SIZED = {"zeros": (), "ones": ("ones",), "empty": ("?",), "full": ("?",)}
SAME = {"copy", "array", "asarray", "ascontiguousarray", "astype", "asanyarray", "deepcopy"}
ELEMENTWISE = {"maximum", "minimum", "divide", "exp", "log", "where", "clip", "abs", "power", "nan_to_num", "add", "subtract", "multiply", "sqrt",
               "true_divide", "negative", "square", "absolute", "isnan", "isfinite", "fabs", "logical_and", "logical_or", "logical_not", "greater"}
JOIN = {"concatenate", "hstack", "append", "r_"}
UNK = ("?",)


def arr(n, content=UNK):
    return ("arr", n, content)


def isarr(v):
    return isinstance(v, tuple) and bool(v) and v[0] == "arr"


def kind(v):
    return v[0] if isinstance(v, tuple) and v else None


def length_only(f):
    def ok(a):
        if isinstance(a, Lin):
            return all(ok(x) for x, _ in a.m)
        return isinstance(a, tuple) and a and (a[0] == "L" or a[0] in ("max", "min") and ok(a[1]) and ok(a[2]))

    return all(ok(a) for a, _ in (f[1] if isinstance(f, tuple) else f).m)


class State:
    __slots__ = ("env", "fields", "facts", "val", "cells", "comps", "loops", "read")

    def __init__(self, o=None):
        for k in ("env", "fields", "val", "cells", "comps", "loops"):
            setattr(self, k, dict(getattr(o, k)) if o else {})
        self.facts = o.facts if o else frozenset()
        self.read = o.read if o else frozenset()

    def key(self, cross):
        return (frozenset(self.env.items()), frozenset(self.fields.items()), self.facts, frozenset(self.cells.items()), frozenset(self.comps.items()),
                frozenset(self.loops.items()), frozenset((t, self.val[t]) for t in cross if t in self.val))


class Shapes:
    """fields0: {attr: value} at entry; params: {name: value}."""

    def __init__(self, fl, fields0, params, facts=(), limit=600000):
        self.fl, self.g = fl, fl.g
        self.fields0 = fields0
        self.params = params
        self.exits = []
        self.sets = []  # (attr, value, instruction, state facts)
        self.exposed = set()
        self.appends = []
        st = State()
        st.fields = dict(fields0)
        st.facts = frozenset(facts)
        self.root = fl.g.frames[0]
        self.blocks()
        self.explore(st, limit)

    # -- control
    def blocks(self):
        g = self.g
        blk, n = {}, 0
        for i in g.live:
            if i.id in blk:
                continue
            p = [x for x, l in i.pred if l not in ("exc", "exc-base")]
            if len(p) == 1 and len([s for s, l in p[0].succ if l not in ("exc", "exc-base")]) == 1 and p[0].id in blk:
                blk[i.id] = blk[p[0].id]
            else:
                n += 1
                blk[i.id] = n
        self.blk = blk
        self.cross = set()
        for i in g.live:
            for a in list(i.args) + [i.recv] + list((i.kw or {}).values()):
                d = g.tempdef.get(a) if a is not None else None
                if d is not None and blk.get(d.id) != blk.get(i.id) and d.op not in ("const", "param"):
                    self.cross.add(a)

    def liveness(self):
        """Variables that may still be read at each block start."""
        g = self.g
        live = {i.id: frozenset() for i in g.live}
        work = list(g.live)
        while work:
            i = work.pop()
            out = frozenset().union(*[live[x.id] for x, l in i.succ if l not in ("exc", "exc-base")])
            new = out - {i.data} if i.op == "store" else out | {i.data} if i.op == "load" else out
            if new != live[i.id]:
                live[i.id] = new
                work.extend(p for p, l in i.pred if l not in ("exc", "exc-base"))
        tl = {i.id: frozenset() for i in g.live}
        work = list(g.live)
        while work:
            i = work.pop()
            out = frozenset().union(*[tl[x.id] for x, l in i.succ if l not in ("exc", "exc-base")])
            new = (out - {i.dst}) | frozenset(a for a in list(i.args) + [i.recv] + list((i.kw or {}).values()) if a in self.cross)
            if new != tl[i.id]:
                tl[i.id] = new
                work.extend(p for p, l in i.pred if l not in ("exc", "exc-base"))
        return live, tl

    def explore(self, st, limit):
        self.live, self.tlive = self.liveness()
        work = [(self.g.entry, st)]
        seen = set()
        n = 0
        while work:
            i, s = work.pop()
            while True:
                n += 1
                if n > limit:
                    raise AnchorError("too many states in the length analysis")
                if i.op in ("raise", "reraise", "assertfail", "raise_exit"):
                    break
                if i.op == "return" and i.frame is self.root:
                    self.exits.append((self.v(s, i.args[0]) if i.args and i.args[0] is not None else ("none",), s, i))
                    break
                labs = self.do(i, s)
                succ = [(x, l) for x, l in i.succ if l not in ("exc", "exc-base")]
                if labs is not None:
                    succ = [(x, l) for x, l in succ if l in labs]
                if len(succ) == 1 and len([1 for p, l in succ[0][0].pred if l not in ("exc", "exc-base")]) <= 1 and (labs is None):
                    i = succ[0][0]
                    continue
                for x, l in succ:
                    s2 = State(s)
                    if labs is not None and not self.edge(i, l, s2):
                        continue
                    lv, tl = self.live[x.id], self.tlive[x.id]
                    s2.env = {a: b for a, b in s2.env.items() if a in lv}
                    s2.val = {a: b for a, b in s2.val.items() if a in tl}
                    k = (x.id, s2.key(self.cross))
                    if k in seen:
                        continue
                    seen.add(k)
                    work.append((x, s2))
                break

    def edge(self, i, l, s):
        if i.op == "branch":
            c = self.v(s, i.args[0])
            return self.assume(s, c, l)
        if i.op == "next":
            src = self.v(s, i.args[0])
            k = s.loops.get(i.id, 0)
            if l == "next":
                if k >= 1:
                    return False
                s.loops[i.id] = k + 1
                s.val[i.dst] = self.element(s, src, i)
                return True
            lists = [f for f, v in s.fields.items() if kind(v) == "arrs"]
            if self.overlists(src):
                for f in lists:
                    v = s.fields[f]
                    if k == 0:
                        s.fields[f] = ("arrs", (), v[2], f)
                    elif f in s.cells:
                        s.fields[f] = ("arrs", (s.cells.pop(f),) + v[1][1:], v[2], f)
            else:
                for f in list(s.cells):
                    s.fields[f] = ("arrs", s.fields[f][1] + (s.cells.pop(f),), s.fields[f][2], f)
            for c, (h, el) in list(s.comps.items()):
                if h == ("open", i.id):
                    s.comps[c] = (("closed", self.overlists(src)), el)
            s.loops.pop(i.id, None)
            return True
        return True

    def overlists(self, src):
        k = kind(src)
        if k == "arrs":
            return True
        return k in ("enum", "zip", "rangeof", "seq") and any(self.overlists(x) for x in src[1:] if isinstance(x, tuple))

    def element(self, s, src, i):
        k = kind(src)
        if k == "arrs":
            f = src[3]
            if f in s.cells:
                return arr(s.cells[f])
            return arr(src[1][0]) if src[1] else arr(Lin(0, {("L", "any", i.id): 1}))
        if k == "enum":
            return ("tup", ("idx", i.id), self.element(s, src[1], i))
        if k == "zip":
            return ("tup",) + tuple(self.element(s, x, i) for x in src[1:])
        if k == "rangeof":
            return ("idx", i.id)
        if k == "seq":
            return self.element(s, src[1], i)
        if k == "tup":
            return ("u", i.id)
        return ("u", i.id)

    def assume(self, s, c, l):
        if kind(c) == "not":
            return self.assume(s, c[1], not l)
        if kind(c) == "isnone":
            o = c[1]
            want = l if c[2] else not l  # the value is None
            if kind(o) == "none":
                return want
            if kind(o) == "opt":
                new = ("none",) if want else o[1]
                for d in (s.env, s.fields, s.val):
                    for k, v in list(d.items()):
                        if v == o:
                            d[k] = new
                return True
            if kind(o) in ("arr", "arrs", "tup"):
                return not want
            return True
        if kind(c) == "const":
            return bool(c[1]) == l
        if isinstance(c, Lin) and c.const:
            return bool(c.c) == l
        if kind(c) == "cmp":
            try:
                fs = [f for f in of_cmp(c, l) if length_only(f)]
            except Exception:
                fs = []
            if fs:
                new = s.facts | set(fs)
                if infeasible(list(new)):
                    return False
                s.facts = new
        return True

    # -- values
    def v(self, s, t):
        if t is None:
            return ("none",)
        x = s.val.get(t)
        if x is not None:
            return x
        d = self.g.tempdef.get(t)
        if d is None:
            return ("u", t)
        if d.op == "const":
            return self.const(d.data)
        if d.op == "param":
            return self.param(d)
        if d.op == "load":
            return self.load(s, d)
        return ("u", d.id)

    def const(self, c):
        if c is None:
            return ("none",)
        if isinstance(c, int) and not isinstance(c, bool):
            return Lin(c)
        return ("const", c)

    def param(self, d):
        t = self.fl.term(d.dst)
        if t == ("self",):
            return ("self",)
        if t[0] == "param" and t[1] in self.params:
            return self.params[t[1]]
        return ("u", d.id)

    def load(self, s, d):
        if d.data in s.env:
            return s.env[d.data]
        t = self.fl.term(d.dst)
        if t == ("self",):
            return ("self",)
        if t[0] == "const":
            return self.const(t[1])
        if t[0] == "param" and t[1] in self.params:
            return self.params[t[1]]
        return ("u", d.id)

    def do(self, i, s):
        """Executes i in s; returns the labels to follow if i forks."""
        op = i.op
        v = lambda t: self.v(s, t)
        if op == "branch":
            return (True, False)
        if op == "next":
            return ("next", "stop")
        if op == "store":
            s.env[i.data] = v(i.args[0])
            return None
        if op == "setattr":
            if v(i.args[0]) == ("self",):
                x = self.closed(s, v(i.args[1]))
                old = s.fields.get(i.data)
                if kind(x) == "tup" and len(x) == 1:
                    x = ("arrs", (), 0, i.data) if kind(old) == "arrs" else x
                if kind(x) == "arrs":
                    x = ("arrs", x[1], x[2] or (old[2] if kind(old) == "arrs" else 0), i.data)
                s.fields[i.data] = x
                self.sets.append((i.data, x, i, s.facts))
            return None
        if op == "setitem":
            self.setitem(s, i, v)
            return None
        if op == "elem":
            c = v(i.args[0])
            if kind(c) == "comp":
                x = v(i.args[-1])
                s.comps[c[1]] = (s.comps[c[1]][0], x)
            return None
        if i.dst is None:
            return None
        r = self.eval(i, s, v)
        s.val[i.dst] = ("u", i.id) if r is None else r
        return None

    def closed(self, s, x):
        """Value of a finished comprehension."""
        if kind(x) == "comp":
            h, el = s.comps[x[1]]
            if h[0] == "closed" and h[1]:
                return ("arrs", (el[1],) if isarr(el) else (), 0, None) if el is None or isarr(el) else ("u", "comp", x[1])
            if isarr(el):
                return ("arrs", (el[1],), 0, None)
            return ("u", "comp", x[1])
        return x

    def eval(self, i, s, v):
        op = i.op
        if op == "const":
            return self.const(i.data)
        if op == "param":
            return self.param(i)
        if op == "load":
            return self.load(s, i)
        if op in ("alias", "await"):
            return v(i.args[0])
        if op == "attr":
            b = v(i.args[0])
            if b == ("self",):
                if i.data in s.fields:
                    x = s.fields[i.data]
                    if x == self.fields0.get(i.data):
                        self.exposed.add(i.data)
                    return x
                return ("u", "self", i.data)
            if isarr(b):
                if i.data == "size":
                    return b[1]
                if i.data == "shape":
                    return ("tup", b[1])
            return None
        if op == "bin":
            a, b = v(i.args[0]), v(i.args[1])
            if isarr(a) or isarr(b):
                return self.elementwise(s, (a, b), i.data)
            if i.data in ("Add", "Sub") and scalar(a) and scalar(b) and kind(a) not in ("arrs", "tup") and kind(b) not in ("arrs", "tup"):
                return lin(a) + lin(b) if i.data == "Add" else lin(a) - lin(b)
            if i.data == "Add" and kind(a) == "arrs" and kind(b) == "tup" and all(isarr(x) for x in b[1:]):
                return ("arrs", a[1] + tuple(x[1] for x in b[1:]), a[2] + len(b) - 1, a[3])
            return None
        if op == "unary":
            a = v(i.args[0])
            if i.data == "Not":
                return ("not", a)
            if isarr(a):
                return arr(a[1])
            if i.data == "USub" and isinstance(a, Lin):
                return -a
            return None
        if op == "cmp":
            a, b = v(i.args[0]), v(i.args[1])
            if i.data in ("Is", "IsNot", "Eq", "NotEq") and (b == ("none",) or a == ("none",)):
                return ("isnone", a if b == ("none",) else b, i.data in ("Is", "Eq"))
            if isarr(a) or isarr(b):
                return self.elementwise(s, (a, b), "?")
            return ("cmp", i.data, a, b)
        if op in ("tuple", "list"):
            return ("tup",) + tuple(v(a) for a in i.args)
        if op == "newcomp":
            s.comps[i.id] = (("open", self.comp_head(i)), None)
            return ("comp", i.id)
        if op in ("item", "unpack"):
            b = v(i.args[0])
            k = v(i.args[1]) if op == "item" else (Lin(i.data) if isinstance(i.data, int) else UNK)
            return self.item(s, i, b, k)
        if op == "slice":
            return ("slice",) + tuple(v(a) for a in i.args)
        if op == "iter":
            return v(i.args[0])
        if op == "call":
            return self.call(i, s, v)
        return None

    def comp_head(self, i):
        x = i
        for _ in range(40):
            n = [y for y, l in x.succ if l not in ("exc", "exc-base")]
            if not n:
                return None
            x = n[0]
            if x.op == "next":
                return x.id
        return None

    def item(self, s, i, b, k):
        if kind(b) == "tup" and isinstance(k, Lin) and k.const and -len(b) < k.c < len(b) - 1:
            return b[1:][k.c]
        if isarr(b):
            if kind(k) == "slice":
                if k[1] in (("none",), Lin(0)) and k[3] in (("none",), Lin(1)):
                    if k[2] == ("none",):
                        return b
                    if isinstance(k[2], Lin) or scalar(k[2]):
                        n = lin(k[2])
                        if length_only(n):
                            if implies(s.facts, b[1] - n):
                                return arr(n, b[2])
                            if implies(s.facts, n - b[1]):
                                return arr(b[1], b[2])
                            return arr(Lin(0, {("min", n, b[1]): 1}), b[2])
                return arr(Lin(0, {("L", "slice", i.id): 1}))
            if isarr(k):
                return arr(Lin(0, {("L", "masked", i.id): 1}))
            return None
        if kind(b) == "arrs":
            f = b[3]
            if kind(k) == "idx":
                if f in s.cells:
                    return arr(s.cells[f])
                return arr(b[1][0]) if b[1] else arr(Lin(0, {("L", "any", i.id): 1}))
            if kind(k) == "slice":
                return b
            return arr(b[1][0]) if len(set(b[1])) == 1 else None
        return None

    def setitem(self, s, i, v):
        b, k, x = v(i.args[0]), v(i.args[1]), v(i.args[2])
        d = self.g.tempdef.get(i.args[0])
        place = None
        while d is not None and d.op in ("load", "alias"):
            if d.op == "alias":
                d = self.g.tempdef.get(d.args[0])
                continue
            place = d.data
            break
        if d is not None and d.op == "attr" and v(d.args[0]) == ("self",):
            f = d.data
            cur = s.fields.get(f)
            if kind(cur) == "arrs" and kind(k) == "idx":
                if isarr(x):
                    s.cells[f] = x[1]
                else:
                    s.cells[f] = Lin(0, {("L", "unknown", i.id): 1})
                return
            if isarr(cur):
                new = arr(cur[1], x[2] if isarr(x) and kind(k) == "slice" and contains(x[2], cur[2]) else ("overwritten",) + tuple(y for y in cur[2]))
                s.fields[f] = new
                self.sets.append((f, new, i, s.facts))
            return
        if isarr(b) and place is not None and s.env.get(place) == b and kind(k) == "slice" and isarr(x):
            s.env[place] = arr(b[1], x[2] if contains(x[2], b[2]) else UNK)

    def elementwise(self, s, args, op):
        a = [x for x in args if isarr(x)]
        if len(a) == 1:
            other = [x for x in args if not isarr(x)]
            return arr(a[0][1], a[0][2] if op == "Add" and other == [Lin(0)] else UNK)
        n = a[0][1]
        for x in a[1:]:
            if not equal(list(s.facts), n, x[1]):
                if "masked" in str(x[1]) or "masked" in str(n):
                    return arr(n)
                return ("u", "mismatch")
        c = UNK
        if op in ("Add", "add") and all("?" not in x[2] for x in a):
            c = tuple(sorted(sum((x[2] for x in a), ())))
        return arr(n, c)

    def call(self, i, s, v):
        fn = last(i.fn)
        args = [v(a) for a in i.args]
        kw = {k: v(x) for k, x in (i.kw or {}).items()}
        recv = v(i.recv) if i.recv is not None else None
        np_ = (i.fn or "").startswith(NP)
        if i.fn == "len" and args:
            a = args[0]
            if isarr(a):
                return a[1]
            if kind(a) == "tup":
                return Lin(len(a) - 1)
            if kind(a) == "arrs":
                return ("count", a)
            return None
        if i.fn in ("max", "min") and not kw and len(args) >= 2 and all(scalar(a) and kind(a) != "arrs" for a in args):
            r = lin(args[0])
            for a in args[1:]:
                b = lin(a)
                r = r if r == b else r + Lin(b.c - r.c) if r.m == b.m and (b.c > r.c) == (i.fn == "max") else r if r.m == b.m else Lin(0, {(i.fn, r, b): 1})
            return r
        if i.fn == "int" and args:
            return args[0] if isinstance(args[0], Lin) else None
        if i.fn == "enumerate" and args:
            return ("enum", args[0])
        if i.fn == "zip":
            return ("zip",) + tuple(args)
        if i.fn == "range" and len(args) == 1 and kind(args[0]) == "count":
            return ("rangeof", args[0][1])
        if i.fn in ("list", "tuple", "iter", "reversed") and len(args) == 1:
            return args[0] if i.fn != "reversed" else ("seq", args[0])
        if i.fn in ("slice",) and args:
            a = ([("none",)] + args + [("none",)]) if len(args) == 1 else args + [("none",)] * (3 - len(args))
            return ("slice",) + tuple(a)
        if np_ and fn in SIZED and args:
            n = args[0] if not (kind(args[0]) == "tup" and len(args[0]) > 1) else args[0][1]
            if isarr(n):
                return None
            z = SIZED[fn]
            if fn == "full" and len(args) > 1 and args[1] in (Lin(0), ("const", 0.0)):
                z = ()
            return arr(lin(n), z) if scalar(n) else None
        if np_ and fn in LIKE and args and isarr(args[0]):
            return arr(args[0][1], LIKE[fn])
        if fn in SAME:
            a = recv if not np_ and recv is not None and isarr(recv) else (args[0] if args else None)
            if isarr(a):
                return a
            if kind(a) == "tup" and np_:
                return arr(Lin(len(a) - 1), () if len(a) == 1 else UNK)
            a = self.closed(s, a) if a is not None else None
            if kind(a) == "arrs":
                return ("stack", a) if np_ else a
            return None
        if np_ and fn == "stack" and args and kind(args[0]) == "arrs":
            return ("stack", args[0])
        if fn == "sum":
            a = args[0] if args else recv
            ax = kw.get("axis", args[1] if len(args) > 1 else (args[0] if not np_ and args else None))
            a = recv if not np_ and recv is not None and kind(recv) in ("stack", "arr") else a
            if kind(a) in ("stack", "arrs") and (ax == Lin(0) or i.fn == "sum"):
                ls = a[1][1] if kind(a) == "stack" else a[1]
                return arr(ls[0]) if ls and all(equal(list(s.facts), ls[0], x) for x in ls) else None
            return None
        if np_ and fn in JOIN and args:
            parts = list(args[0][1:]) if kind(args[0]) == "tup" else (list(args) if fn == "append" else None)
            if parts is None or not all(isarr(x) or kind(x) == "tup" for x in parts):
                return None
            parts = [x if isarr(x) else arr(Lin(len(x) - 1), () if all(y in (Lin(0), ("const", 0.0)) for y in x[1:]) else UNK) for x in parts]
            n = parts[0][1]
            for x in parts[1:]:
                n = n + x[1]
            c = tuple(sorted(sum((x[2] for x in parts), ()))) if all("?" not in x[2] for x in parts) else UNK
            return arr(n, c)
        if np_ and fn == "pad" and len(args) > 1 and isarr(args[0]):
            w = args[1]
            if kind(w) == "tup" and len(w) == 2 and kind(w[1]) == "tup":
                w = w[1]
            if kind(w) == "tup" and len(w) == 3 and scalar(w[1]) and scalar(w[2]):
                ok = w[1] == Lin(0) and kw.get("constant_values", Lin(0)) in (Lin(0), ("const", 0.0))
                return arr(args[0][1] + lin(w[1]) + lin(w[2]), args[0][2] if ok else UNK)
            return None
        if np_ and fn in ELEMENTWISE:
            if any(isarr(a) for a in args):
                return self.elementwise(s, args, fn)
            return None
        if fn in ("append", "extend") and i.recv is not None:
            d = defining(self.fl, i.recv)
            f = d.data if d is not None and d.op == "attr" and v(d.args[0]) == ("self",) else None
            if f is not None and args:
                self.appends.append((f, args[0], i, s.facts))
                cur = s.fields.get(f)
                if kind(cur) == "arrs":
                    s.fields[f] = ("arrs", cur[1] + ((args[0][1],) if isarr(args[0]) else (Lin(0, {("L", "unknown", i.id): 1}),)), cur[2] + 1, f)
            return ("none",)
        return None


def contains(big, small):
    """Multiset inclusion of contents."""
    b = list(big)
    for x in small:
        if x not in b:
            return False
        b.remove(x)
    return "?" not in big
