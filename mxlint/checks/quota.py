"""Sum accounting for functions distributing a whole number over the components of a mixture: an abstract interpretation over linear
inequalities in which every local container carries the sum of its numbers and its length; loops are summarised by the inductive ones among
a fixed family of linear invariants."""
import itertools

from .linear import *

SAMELEN = {"list", "tuple", "sorted", "reversed", "enumerate", "iter", "keys", "values", "items", "copy", "deepcopy", "dict"}
COPY = {"dict", "list", "copy", "deepcopy", "tuple", "OrderedDict"}
FLOORS = {"int", "floor", "trunc"}


def iscont(v):
    return isinstance(v, tuple) and bool(v) and v[0] in ("new", "comp")


def view(v):
    """Collection a view (items/values/keys/sorted/list/…) ranges over."""
    while isinstance(v, tuple) and v and v[0] == "call" and v[1] in SAMELEN:
        v = v[2] if v[2] is not None else (v[3][0] if v[3] else None)
    return v


def call_of(v, name):
    return isinstance(v, tuple) and v and v[0] == "call" and v[1] == name


class SumRun(Run):
    def __init__(self, fl, env=None):
        super().__init__(fl, env)
        self.sums, self.lens, self.ver = {}, {}, {}
        self.contrib = {}  # container -> [(value, instruction)] in order of building
        self.forall = []  # (condition, label) holding for every element of a collection
        self.amounts = []  # (container, value added, instruction)
        self.scaled = {}  # container -> [(divisor, key)] of entries divided in place
        self.whole = set()  # containers whose entries are parts of a whole
        self.bases = {}  # container -> collection whose elements it was built over, element by element
        self.filters = {}
        self.it = self.on = self.part = None

    def copy(self):
        r = SumRun(self.fl, self.env)
        for k in ("val", "fields", "seen", "sums", "lens", "ver", "contrib", "bases", "filters", "scaled"):
            setattr(r, k, dict(getattr(self, k)))
        r.facts, r.events, r.conds = list(self.facts), list(self.events), list(self.conds)
        r.forall, r.amounts = list(self.forall), list(self.amounts)
        r.stored, r.whole = set(self.stored), set(self.whole)
        r.it, r.on, r.havoc, r.part = self.it, self.on, self.havoc, self.part
        return r

    # -- sums and lengths
    def S(self, c):
        if c not in self.sums:
            self.sums[c] = Lin(0) if iscont(c) else Lin(0, {("S", c): 1})
        return self.sums[c]

    def L(self, v):
        if iscont(v):
            if v not in self.lens:
                self.lens[v] = Lin(0)
            return self.lens[v]
        if call_of(v, "range"):
            a = v[3]
            if len(a) == 1 and scalar(a[0]):
                return Lin(0, {("max", lin(a[0]), Lin(0)): 1})
            if len(a) == 2 and scalar(a[0]) and scalar(a[1]):
                return Lin(0, {("max", lin(a[1]) - lin(a[0]), Lin(0)): 1})
        if call_of(v, "islice") and len(v[3]) == 2 and scalar(v[3][1]):
            n = Lin(0, {("max", lin(v[3][1]), Lin(0)): 1})
            return n if call_of(v[3][0], "cycle") else Lin(0, {("min", self.L(v[3][0]), n): 1})
        if call_of(v, "zip") and v[3]:
            ls = [self.L(x) for x in v[3] if not call_of(x, "cycle")]
            if ls:
                r = ls[0]
                for x in ls[1:]:
                    r = r if x == r else Lin(0, {("min", r, x): 1})
                return r
        if isinstance(v, tuple) and v and v[0] == "sliced":
            if v[2] == ("const", None) and scalar(v[3]) and v[4] == ("const", None):
                return Lin(0, {("min", self.L(v[1]), Lin(0, {("max", lin(v[3]), Lin(0)): 1})): 1})
        w = view(v)
        if w is not v and w is not None:
            return self.L(w)
        return Lin(0, {("L", v): 1})

    def touch(self, c):
        self.ver[c] = self.ver.get(c, 0) + 1

    def v(self, t):
        x = self.val.get(t)
        if x is None:
            d = self.fl.g.tempdef.get(t) if t is not None else None
            if d is not None and d.op == "slice":
                return ("slice",) + tuple(self.v(a) for a in d.args)
        return super().v(t)

    def add(self, c, v, i, n=1):
        if scalar(v):
            self.sums[c] = self.S(c) + lin(v)
        else:
            self.sums[c] = Lin(0, {("S", c, "?", i.id, self.ver.get(c, 0)): 1})
        if n:
            self.lens[c] = self.L(c) + Lin(n)
            self.contrib[c] = self.contrib.get(c, ()) + ((v, i.id),)
        else:
            self.amounts.append((c, v, i, list(self.facts), self.copy_env()))
        self.touch(c)

    def copy_env(self):
        return None

    def unknown(self, c, i, samekeys=False):
        self.sums[c] = Lin(0, {("S", c, "?", i.id, self.ver.get(c, 0)): 1})
        self.whole.discard(c)
        if not samekeys:
            self.lens[c] = Lin(0, {("L", c, "?", i.id, self.ver.get(c, 0)): 1})
        self.touch(c)

    def cell(self, c, k):
        return ("cell", c, lin(k) if scalar(k) else k, self.ver.get(c, 0))

    def do(self, i, lab):
        op = i.op
        v = self.v
        if op in ("newcomp", "list", "dict", "set") and not i.args:
            c = ("comp" if op == "newcomp" else "new", i.id)
            self.sums[c] = self.lens[c] = Lin(0)
            self.contrib.pop(c, None)
            self.filters.pop(c, None)
            self.touch(c)
        if op == "setitem":
            c, k, x = v(i.args[0]), v(i.args[1]), v(i.args[2])
            if iscont(c):
                at = Lin(0, {self.cell(c, k): 1})
                if scalar(x) and any(a == self.cell(c, k) for a, _ in lin(x).m):
                    self.add(c, lin(x) - at, i, 0)
                elif self.on is not None and key_of(k, self.on) and self.contrib.get(c, ()) == ():
                    self.add(c, x, i)
                elif isinstance(x, tuple) and x and x[0] == "bin" and x[1] == "Div" and x[2] in (self.cell(c, k), ("item", k[1], Lin(1)) if isinstance(k, tuple) and k[0:1] == ("item",) else None):
                    self.scaled[c] = self.scaled.get(c, ()) + ((x[3], k),)
                    self.unknown(c, i, True)
                elif self.on is not None and key_of(k, self.on):
                    self.contrib[c] = self.contrib.get(c, ()) + ((x, i.id),)
                    self.unknown(c, i)
                else:
                    self.unknown(c, i)
        elif op == "delitem":
            c = v(i.args[0])
            if iscont(c):
                self.unknown(c, i)
        elif op == "elem":
            c = v(i.args[0])
            self.add(c, v(i.args[-1]), i)
        elif op == "branch":
            c = v(i.args[0])
            neg = False
            while isinstance(c, tuple) and c and c[0] == "not":
                c, neg = c[1], not neg
            if lab in (True, False):
                t = lab != neg
                if isinstance(c, tuple) and c and c[0] == "h":
                    c = lin(c)
                if isinstance(c, Lin):
                    self.facts += [("ne", c)] if t else [c, -c]
                elif iscont(c) or isinstance(c, tuple) and c and c[0] in ("t", "call") and c[0] != "cmp":
                    n = self.L(c)
                    self.facts += [n - Lin(1)] if t else [n, -n]
        super().do(i, lab)
        if op in ("item",) and i.dst is not None:
            c, k = v(i.args[0]), v(i.args[1])
            if isinstance(k, tuple) and k and k[0] == "slice":
                self.val[i.dst] = ("sliced", c) + tuple(k[1:4]) + (("const", None),) * (4 - len(k))
            elif iscont(c):
                self.val[i.dst] = self.cell(c, k)
        elif op == "bin" and i.dst is not None:
            a, b = v(i.args[0]), v(i.args[1])
            if i.data == "FloorDiv" and b == Lin(1):
                self.val[i.dst] = self.floor(a)

    def floor(self, x):
        if isinstance(x, Lin):
            at = [a for a, k in x.m]
            if len(at) == 1 and x.c == 0 and dict(x.m)[at[0]] == 1 and floaty(at[0]):
                return ("floor", at[0])
            return x
        if isinstance(x, tuple) and x and x[0] in ("floor",):
            return x
        return ("floor", x)

    def call(self, i, n):
        fn = last(i.fn)
        args = tuple(self.v(a) for a in i.args)
        recv = self.v(i.recv) if i.recv is not None else None
        if fn in FLOORS and len(args) == 1 and scalar(args[0]):
            self.events.append((i, args, recv))
            return self.floor(args[0])
        if fn == "sum" and len(args) >= 1 and not (len(args) > 1 and args[1] != Lin(0)):
            c = view(args[0])
            if not iscont(args[0]) and not iscont(c) or True:
                self.events.append((i, args, recv))
                if call_of(args[0], "keys"):
                    return None
                return self.S(c)
        if fn == "fsum" and len(args) == 1:
            return self.S(view(args[0]))
        if fn == "len" and len(args) == 1:
            return self.L(args[0])
        if fn == "round" and len(args) == 1:
            return ("call", "round", None, args, ())
        if fn == "append" and iscont(recv) and len(args) == 1:
            self.add(recv, args[0], i)
            return ("const", None)
        if fn == "get" and iscont(recv) and args:
            return self.cell(recv, args[0])
        if fn in COPY and (args and iscont(args[0]) and len(args) == 1 or recv is not None and iscont(recv) and fn == "copy"):
            c = args[0] if args else recv
            k = ("new", ("copy", i.id, n))
            self.sums[k], self.lens[k], self.contrib[k] = self.S(c), self.L(c), self.contrib.get(c, ())
            self.bases[k] = self.bases.get(c)
            return k
        if iscont(recv) and fn in ("update", "pop", "clear", "extend", "insert", "remove", "popitem", "setdefault", "discard", "add"):
            self.unknown(recv, i)
        for a in args:
            if iscont(a) and i.target is not None:
                self.unknown(a, i)
        return super().call(i, n)


def bare(s):
    """The view iterated over, however it is ordered."""
    while isinstance(s, tuple) and s and s[0] == "call" and s[1] in ("sorted", "list", "tuple", "reversed", "iter") and s[3]:
        s = s[3][0]
    return s


def key_of(k, base):
    """k is the key/index of the element the current iteration over `base` is at."""
    if isinstance(k, Lin) and k.c == 0 and len(k.m) == 1 and next(iter(k.m))[1] == 1:
        k = next(iter(k.m))[0]
    if not isinstance(k, tuple) or not k:
        return False
    if k[0] == "index":
        return True
    if k[0] == "elem":
        return view(k[1]) is not None and (not call_of(bare(k[1]), "items") and not call_of(bare(k[1]), "values"))
    return k[0] == "item" and isinstance(k[1], tuple) and k[1][0] == "elem" and k[2] == Lin(0) and call_of(bare(k[1][1]), "items")


def current(q, src, h):
    """Atom of the number the current iteration is at."""
    e = ("elem", src, h.id)
    src = bare(src)
    if call_of(src, "items"):
        return ("item", e, Lin(1))
    if call_of(src, "values"):
        return e
    c = view(src)
    if iscont(c) and (call_of(src, "keys") or isdict(q, c)):
        return q.cell(c, e)
    return e


def isdict(q, c):
    if c[0] == "comp":
        d = q.fl.g.ins[c[1]] if c[1] in range(len(q.fl.g.ins)) else None
        return d is not None and d.data == "dict"
    d = q.fl.g.ins[c[1]] if isinstance(c[1], int) else None
    return d is not None and d.op == "dict"


def floaty(a):
    return isinstance(a, tuple) and a and (a[0] in ("bin", "cell", "item", "elem", "t"))


def value_of(v):
    """Collection the value is an entry of, or None."""
    if isinstance(v, Lin):
        at = list(v.m)
        if len(at) == 1 and v.c == 0 and at[0][1] == 1:
            v = at[0][0]
        else:
            return None
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == "cell":
        return v[1] if key_of(v[2], None) else None
    if v[0] == "item":
        b = v[1]
        if isinstance(b, tuple) and b and b[0] == "elem" and v[2] == Lin(1) and call_of(bare(b[1]), "items"):
            return bare(b[1])[2]
        return b if key_of(v[2], None) else None
    if v[0] == "elem":
        s = bare(v[1])
        if call_of(s, "values"):
            return s[2]
        if call_of(s, "items") or call_of(s, "keys"):
            return None
        return view(s)
    return None


class Interp:
    """Enumerates the outcomes of a function from its entry; loops are replaced by their invariants."""

    def __init__(self, fl, assume=(), on_floor=None, limit=600):
        self.fl, self.assume, self.on_floor = fl, list(assume), on_floor
        self.n = itertools.count()
        self.outcomes = []
        self.limit = limit
        self.loops = 0

    def run(self):
        r = SumRun(self.fl)
        r.facts = list(self.assume)
        self.go(self.fl.g.entry, None, r, None, self.out)
        return self.outcomes

    def out(self, kind, i, r):
        self.outcomes.append((kind, i, r))
        if len(self.outcomes) > self.limit:
            raise AnchorError("too many paths")

    def go(self, i, lab, r, region, emit):
        """Follow paths from i; region = (head, body ids) while summarising a loop."""
        first = True
        while True:
            if region is not None and not first:
                if i is region[0]:
                    emit("back", i, r)
                    return
                if i.id not in region[1]:
                    emit("leave", i, r)
                    return
            if i.op in ("raise", "reraise", "assertfail"):
                emit("raise", i, r)
                return
            if i.op == "return" and i.frame is self.fl.g.frames[0]:
                r.do(i, None)
                emit("return", i, r)
                return
            if i.op in ("loop", "next") and not (first and region is not None and i is region[0]):
                self.loop(i, r, region, emit)
                return
            succ = [(s, l) for s, l in i.succ if l not in ("exc", "exc-base")]
            if first and lab is not None:
                succ = [(s, l) for s, l in succ if l == lab]
            first = False
            if not succ:
                emit("end", i, r)
                return
            if len(succ) == 1:
                r.do(i, succ[0][1])
                i = succ[0][0]
                continue
            for s, l in succ:
                q = r.copy()
                q.do(i, l)
                if infeasible(q.facts):
                    continue
                self.go2(s, q, region, emit)
            return

    def go2(self, s, q, region, emit):
        if region is not None:
            if s is region[0]:
                emit("back", s, q)
                return
            if s.id not in region[1]:
                emit("leave", s, q)
                return
        self.go(s, None, q, region, emit)

    def loop(self, h, r, region, emit):
        fl = self.fl
        self.loops += 1
        body = body_of(h)
        ids = {x.id for x in body}
        src = None
        if h.op == "next":
            x = r.v(h.args[0])
            src = x[1] if isinstance(x, tuple) and x[0] == "iter" else x
        # what the body changes
        keys = {i.data for i in body if i.op == "store"}
        r0 = r
        conts = set()
        probe = []
        q = self.start(h, r, keys, set(), src, [])
        self.step(h, q, ids, lambda k, i, x: probe.append((k, x)), src)
        for k, x in probe:
            conts |= {c for c in set(x.ver) if x.ver.get(c, 0) != r.ver.get(c, 0)}
        for _ in range(3):
            more = set()
            probe = []
            q = self.start(h, r, keys, conts, src, [])
            self.step(h, q, ids, lambda k, i, x: probe.append((k, x)), src)
            for k, x in probe:
                more |= {c for c in set(x.ver) if x.ver.get(c, 0) != q.ver0.get(c, 0)}
            if more <= conts:
                break
            conts |= more
        conts = {c for c in conts if iscont(c)}
        # candidates: pairs of changing quantities whose sum or difference stays what it was on entry, bounds kept
        qs = {}
        for k in keys:
            x = r.env.get(k)
            if x is not None and scalar(x):
                qs[("v", k)] = lin(x)
        for c in conts:
            qs[("s", c)] = r.S(c)
            qs[("l", c)] = r.L(c)
        if src is not None:
            qs[("i",)] = Lin(0)
            qs[("p",)] = Lin(0)
        cand = []
        names = list(qs)
        for a in range(len(names)):
            x = names[a]
            cand.append(("ge", x, None))
            cand.append(("le0", x, None))
            cand.append(("ge0", x, None))
            for b in range(a + 1, len(names)):
                cand.append(("sum", x, names[b]))
                cand.append(("dif", x, names[b]))
        # only what holds on entry
        cand = [c for c in cand if c[0] != "ge" or implies(r.facts, qs[c[1]])]
        while True:
            fr = {}
            q = self.start(h, r, keys, conts, src, cand, qs, fr)
            back = []
            self.step(h, q, ids, lambda k, i, x: back.append((k, x)), src)
            bad = []
            for k, x in back:
                if k != "back":
                    continue
                now = {n: self.quantity(n, x) for n in qs}
                for c in cand:
                    if c not in bad and not self.holds(c, qs, now, x.facts):
                        bad.append(c)
            if not bad:
                break
            cand = [c for c in cand if c not in bad]
        # state after the loop
        q = self.start(h, r, keys, conts, src, cand, qs, fr)
        done = [x for k, x in back if k == "back"]
        if h.op == "next" and done:
            common = None
            for x in done:
                cs = [(c, l) for c, l, _ in x.conds[len(r.conds):]] + x.forall[len(r.forall):]
                common = cs if common is None else [c for c in common if c in cs]
            q.forall += common or []
        self.built(h, r, q, done, conts, src)
        am = []
        for k, x in back:
            am += [a for a in x.amounts[len(r.amounts):] if a not in am]
        q.amounts += am
        # leave through the head
        if h.op == "next":
            e = q.copy()
            if src is not None:
                e.facts += [e.it - e.L(src), e.L(src) - e.it]
                if view(src) not in conts:
                    t = e.S(view(src))
                    e.facts += [e.part - t, t - e.part]
                e.it, e.part = r0.it, r0.part
                e.on = r0.on
            if not infeasible(e.facts):
                e.do(h, "stop")
                for s, l in h.succ:
                    if l == "stop":
                        self.go2(s, e, region, emit)
            exits = []
            self.step(h, q, ids, lambda k, i, x: exits.append((k, i, x)), src)
            for k, i, x in exits:
                if k == "leave":
                    x.it, x.on, x.part = r0.it, r0.on, r0.part
                    self.go2(i, x, region, emit)
                elif k in ("raise", "return"):
                    emit(k, i, x)
        else:
            exits = []
            self.step(h, q, ids, lambda k, i, x: exits.append((k, i, x)), src)
            for k, i, x in exits:
                if k == "leave":
                    self.go2(i, x, region, emit)
                elif k in ("raise", "return"):
                    emit(k, i, x)

    def step(self, h, q, ids, emit, src):
        """One turn through the loop body from its head."""
        q = q.copy()
        if h.op == "next":
            if src is not None:
                q.facts.append(q.L(src) - q.it - Lin(1))
                q.it = q.it + Lin(1)
                q.part = q.part + Lin(0, {current(q, src, h): 1})
                q.on = src
            q.facts += self.on_elem(q, src, h) or []
            if infeasible(q.facts):
                return
            q.do(h, "next")
            nx = [s for s, l in h.succ if l == "next"]
            for s in nx:
                self.go2(s, q, (h, ids), emit)
            return
        self.go(h, None, q, (h, ids), emit)

    def on_elem(self, q, src, h):
        return []

    def start(self, h, r, keys, conts, src, cand, qs=None, fr=None):
        q = r.copy()
        u = fr.setdefault("u", next(self.n)) if fr is not None else next(self.n)
        for k in keys:
            q.env[k] = ("h", k, u)
        for c in conts:
            q.sums[c] = Lin(0, {("S", c, u): 1})
            q.lens[c] = Lin(0, {("L", c, u): 1})
            q.facts.append(q.lens[c])
            q.touch(c)
        if src is not None:
            q.it = Lin(0, {("it", u): 1})
            q.part = Lin(0, {("part", u): 1})
            q.facts.append(q.it)
            q.facts.append(q.L(src))
            q.facts.append(q.L(src) - q.it)
        q.ver0 = dict(q.ver)
        now = {n: self.quantity(n, q) for n in (qs or {})}
        for c in cand:
            q.facts += self.fact(c, qs, now)
        return q

    def quantity(self, n, r):
        if n[0] == "v":
            x = r.env.get(n[1])
            return lin(x) if x is not None and scalar(x) else None
        if n[0] == "s":
            return r.S(n[1])
        if n[0] == "l":
            return r.L(n[1])
        return r.it if n[0] == "i" else r.part

    def fact(self, c, qs, now):
        k, a, b = c
        x = now[a]
        if x is None:
            return []
        if k == "ge":
            return [x]
        if k == "le0":
            return [qs[a] - x]
        if k == "ge0":
            return [x - qs[a]]
        y = now[b]
        if y is None:
            return []
        d = x + y - qs[a] - qs[b] if k == "sum" else x - y - qs[a] + qs[b]
        return [d, -d]

    def holds(self, c, qs, now, facts):
        k, a, b = c
        if now[a] is None or b is not None and now[b] is None:
            return False
        return all(implies(facts, f) for f in self.fact(c, qs, now))

    def built(self, h, r, q, done, conts, src):
        """A container filled in this loop: remember what each entry is, and what that says about its sum."""
        for c in conts:
            if r.contrib.get(c) and done and h.op == "next":
                sc = [x.scaled.get(c, ()) for x in done]
                for y in sc:
                    if y:
                        q.scaled[c] = y
                if view(src) == c and not r.scaled.get(c) and all(len(x) == 1 and key_of(x[0][1], src) for x in sc) and all(
                        x.contrib.get(c) == r.contrib.get(c) for x in done) and all(
                        scalar(x[0][0]) and equal(r.facts, lin(x[0][0]), r.S(c)) for x in sc):
                    q.whole.add(c)
            if r.contrib.get(c) or not done:
                continue
            cs = {x.contrib.get(c, ()) for x in done}
            some = {k for k in cs if k}
            if len(some) == 1 and len(next(iter(some))) == 1 and h.op == "next":
                k = next(iter(some))
                q.contrib[c] = k
                q.bases[c] = src
                if () in cs:
                    skip = [x for x in done if not x.contrib.get(c, ())]
                    q.filters[c] = [tuple((a, l) for a, l, _ in x.conds[len(r.conds):]) for x in skip]
                if self.on_floor is not None:
                    q.facts += self.on_floor(q, c, k[0][0], src, q.filters.get(c)) or []
            elif some:
                q.contrib[c] = tuple(sorted({y for k in some for y in k}, key=str))
                q.bases[c] = src
                q.filters[c] = "several"
