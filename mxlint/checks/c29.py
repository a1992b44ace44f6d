"""C29: the order of samples inside a chunk follows the chunk's mixture.

 - every combination's share of a window is the exact whole part of window * rows / chunk size, one entry takes what is left of the window;
 - the window iterator, as a typestate over its loop nest, for best effort and strict separately: a sample taken is delivered, counted once for its
   combination and once for the window; no combination exceeds its share; a combination is dropped exactly when its iterator is exhausted; a window is
   left only if full, if nothing is left, or if a whole pass gave nothing; every window that starts gives a sample or drops a combination; best
   effort ends only when every combination is exhausted, strict never starts a window after one was;
 - the same for the iterator without windows; which of the two is used; the window size is at least 1."""
from .linear import *
from .cases import Cases
from .c22 import guard

CHUNK = "ResultChunk"
WINDOW_ARG, EFFORT_ARG, TYPE_ARG = "chunk_reading_window_size", "chunk_reading_window_best_effort", "chunk_reading_mixture_type"


def run(ctx):
    ctx.rule("Typestate over the loop nest around next() of the window and the overall iterator of a chunk, best effort and strict separately: taken => "
             "delivered and counted once; taken only within the combination's share (and the window, once shares were raised); dropped iff exhausted; "
             "counters start anew in every window; window left only full / all exhausted / after a pass without a sample; each round of the outer loop gives a "
             "sample, drops a combination or raises every share to at least 1 (no endless loop); best effort ends only with all exhausted, strict opens no window after "
             "an exhaustion; other errors of a reader are not taken for its end. Shares: exact integer floor(window*rows/chunk size) for every combination, the rest of the "
             "window added to exactly one. Window size clamped to >= 1, window/token read through the window iterator, the rest through the overall one.")
    cls = ctx.proj.cls(CHUNK)
    names = settings(ctx, cls)
    its = iterators(ctx, cls, names)
    ctx.part(machine, ctx, cls, names, its, True)
    ctx.part(machine, ctx, cls, names, its, False)
    ctx.part(shares, ctx, cls, names, its)
    ctx.part(clamped, ctx, cls, names)
    ctx.part(chosen, ctx, cls, names, its)


def settings(ctx, cls):
    """Fields of the chunk holding the streaming settings, by the setting they are assigned from."""
    out = {}
    for m in cls.methods.values():
        if m.name == "__init__":
            continue
        fl = ctx.flow(m, lambda *a: False, cls, key="plain")
        for i in fl.g.live:
            if i.op == "setattr" and fl.term(i.args[0]) == ("self",):
                t = fl.term(i.args[1])
                for a in (WINDOW_ARG, EFFORT_ARG, TYPE_ARG):
                    if t[0] == "attr" and t[2] == a:
                        out[a] = i.data
                        out["method"] = m
    if len(out) < 4:
        raise AnchorError("the chunk does not take window size, best effort and mixture type from the streaming arguments")
    return out


def takes(fl):
    """next(<param>[key]) calls."""
    out = []
    for i in fl.g.live:
        if i.op == "call" and i.fn in ("next", "builtins.next", ".__next__") and (i.args or i.recv is not None):
            t = fl.term(i.args[0] if i.args else i.recv)
            if t[0] == "item" and t[1][0] == "param":
                out.append((i, t[1], t[2]))
            elif t[0] == "valof" and t[1][0] == "param":
                out.append((i, t[1], ("keyof", t[1])))
    return out


def iterators(ctx, cls, names):
    """{windowed?: (method, flow)}"""
    out = {}
    inl = set()
    cand = []
    for m in cls.methods.values():
        fl = ctx.flow(m, None, cls, key="own")
        if m.name != "_iterate_samples" and takes(fl) and any(i.op in ("yield", "yieldfrom") for i in fl.g.live):
            cand.append((m, fl))
            inl |= {f.qual for f in fl.g.funcs_seen.values()} - {m.qual}
    for m, fl in cand:
        if m.qual in inl:
            continue
        w = any(i.op == "attr" and i.data == names[WINDOW_ARG] for i in fl.g.live)
        if w in out:
            raise AnchorError("several iterators of the same kind over the readers of a chunk")
        out[w] = (m, fl)
    return out


# ------------------------------------------------------------------ typestate
class Roles:
    def __init__(self, ctx, cls, names, m, fl, windowed):
        self.fl, self.names, self.windowed, self.m = fl, names, windowed, m
        ts = takes(fl)
        if len(ts) != 1:
            raise AnchorError(f"{m.name}: samples are taken at {len(ts)} places")
        self.take, self.active, self.K = ts[0]
        heads = [i for i in fl.g.live if i.op in ("loop", "next") and self.take in body_of(i)]
        heads.sort(key=lambda h: len(body_of(h)))
        want = 3 if windowed else 2
        if len(heads) != want or heads[0].op != "next" or any(h.op != "loop" for h in heads[1:]):
            raise AnchorError(f"{m.name}: samples are taken in {len(heads)} nested loops, expected {want}")
        self.Lf, self.Lo = heads[0], heads[-1]
        self.Lw = heads[1] if windowed else None
        self.inf = {i.id for i in body_of(self.Lf)}
        self.inw = {i.id for i in body_of(self.Lw)} if windowed else set()
        self.ino = {i.id for i in body_of(self.Lo)}
        # key and count of the current turn
        self.C = set()
        for i in fl.g.live:
            if i.id in self.inf and i.op == "unpack" and i.data == 1 and i.dst is not None:
                self.C.add(fl.term(i.dst))
        self.counts_key = None
        it = self.Lf.args[0]
        d = fl.g.tempdef.get(it)
        if d is not None and d.op == "iter":
            self.counts_key = var_key(fl, d.args[0])
        # where exhausted ones are recorded
        self.dead = self.alive = None
        for i in fl.g.live:
            if i.id not in self.inf:
                continue
            if i.op == "call" and i.recv is not None and i.args and fl.term(i.args[0]) == self.K:
                n, r = last(i.fn), fl.term(i.recv)
                if n in ("add", "append"):
                    self.set("dead", r)
                elif n in ("remove", "discard", "pop"):
                    self.set("alive", r)
            elif i.op == "setitem" and fl.term(i.args[1]) == self.K and fl.term(i.args[2])[0] == "const" and fl.term(i.args[2])[1] is True:
                self.set("dead", fl.term(i.args[0]))
            elif i.op == "delitem" and fl.term(i.args[1]) == self.K:
                self.set("alive", fl.term(i.args[0]))
        if self.dead is None and self.alive is None:
            for i in fl.g.live:
                # nothing is recorded: what the turns ask about
                if i.id in self.inf and i.op == "cmp" and i.data in ("In", "NotIn") and fl.term(i.args[0]) == self.K:
                    r = fl.term(i.args[1])
                    if r[0] == "call" and r[1] in ("set", "list") and not r[3] or r[0] in ("list0", "set0"):
                        self.set("dead", r)
        # samples of the combination in this window
        self.P = None
        for i in fl.g.live:
            if i.op == "setitem" and i.id in self.inf and fl.term(i.args[1]) == self.K:
                v = fl.term(i.args[2])
                c = fl.term(i.args[0])
                if v[0] == "bin" and v[1] in ("Add", "Sub") and ("item", c, self.K) in v[2:] or v[0] == "bin" and any(
                        is_call_term(x, "get") and x[2] == c for x in v[2:]):
                    self.P = c
                    self.Pdir = 1 if v[1] == "Add" else -1
                    self.Pkey = var_key(fl, i.args[0])
        # samples of the window
        self.W = None
        for i in fl.g.live:
            if i.op == "store" and i.id in self.inf:
                dl = var_delta(fl, i, i.data)
                if dl in (1, -1) and any(j.op == "cmp" and any(var_key(fl, a) == i.data for a in j.args) for j in fl.g.live):
                    self.W, self.Wdir = i.data, dl
        if windowed and self.P is None:
            for i in fl.g.live:
                if i.id in self.inf and i.op == "cmp":
                    for x, y in ((0, 1), (1, 0)):
                        d = defining(fl, i.args[x])
                        if d is not None and d.op == "item" and fl.term(d.args[1]) == self.K and fl.term(d.args[0])[0] == "comp" and fl.term(i.args[y]) in self.C:
                            self.P, self.Pdir, self.Pkey = fl.term(d.args[0]), 1, var_key(fl, d.args[0])
        if windowed and self.W is None:
            for i in fl.g.live:
                if i.op == "cmp":
                    for x, y in ((0, 1), (1, 0)):
                        if fl.term(i.args[y]) == ("attr", ("self",), names[WINDOW_ARG]) and var_key(fl, i.args[x]) is not None and any(
                                j.op == "store" and j.data == var_key(fl, i.args[x]) and fl.term(j.args[0]) == ("const", 0) for j in fl.g.live):
                            self.W, self.Wdir = var_key(fl, i.args[x]), 1
        if windowed and (self.P is None or self.W is None):
            raise AnchorError(f"{m.name}: no count of delivered samples per combination and window found")
        if windowed and self.Pkey is None:
            raise AnchorError(f"{m.name}: the samples delivered per combination are not counted in a local container")

    def set(self, w, r):
        if getattr(self, w) not in (None, r):
            raise AnchorError(f"{self.m.name}: exhausted combinations are recorded in several places")
        setattr(self, w, r)

    # -- conditions
    def lin(self, t, depth=0):
        fl = self.fl
        tt = fl.term(t)
        if self.W is not None:
            k = var_key(fl, t)
            if k == self.W:
                return Lin(0, {"W": 1})
            d = defining(fl, t)
            if d is not None and d.op == "bin" and d.data in ("Add", "Sub") and depth < 4 and any(var_key(fl, a) == self.W for a in d.args):
                a, b = self.lin(d.args[0], depth + 1), self.lin(d.args[1], depth + 1)
                return a + b if d.data == "Add" else a - b
        return self.tlin(tt)

    def tlin(self, tt):
        if tt[0] == "const" and isinstance(tt[1], int) and not isinstance(tt[1], bool):
            return Lin(tt[1])
        if tt == ("attr", ("self",), self.names[WINDOW_ARG]):
            return Lin(0, {"N": 1})
        if tt[0] == "call" and tt[1] == "len" and len(tt[3]) == 1:
            x = tt[3][0]
            if self.isactive(x):
                return Lin(0, {"A": 1})
            if x == self.dead:
                return Lin(0, {"D": 1})
            if x == self.alive:
                return Lin(0, {"L": 1})
        if self.P is not None and (tt == ("item", self.P, self.K) or is_call_term(tt, "get") and tt[2] == self.P and tt[3] and tt[3][0] == self.K):
            return Lin(0, {"P": 1})
        if tt in self.C or tt[0] == "item" and tt[2] == self.K and self.P is not None:
            return Lin(0, {"C": 1})
        if tt[0] == "bin" and tt[1] in ("Add", "Sub"):
            a, b = self.tlin(tt[2]), self.tlin(tt[3])
            return a + b if tt[1] == "Add" else a - b
        if tt[0] == "bin" and tt[1] == "Mult":
            a, b = self.tlin(tt[2]), self.tlin(tt[3])
            if a.const:
                return b.scale(a.c)
            if b.const:
                return a.scale(b.c)
        return Lin(0, {("t", tt): 1})

    def isactive(self, x):
        while x[0] == "call" and x[1] in ("keys", "list", "set", "sorted", "tuple", "values", "items") and (x[2] is not None or x[3]):
            x = x[2] if x[2] is not None else x[3][0]
        return x == self.active or x[0] == "iterof" and x[1] == self.active

    def cond(self, t):
        """('lin', facts if true, facts if false) | ('dead', polarity) | ('alldead', polarity) | ('zero', …) | None"""
        fl = self.fl
        d = fl.g.tempdef.get(t)
        tt = fl.term(t)
        neg = False
        while tt[0] == "un" and tt[1] == "Not":
            tt, neg = tt[2], not neg
            d = defining(fl, d.args[0]) if d is not None and d.op == "unary" else None
        if d is not None and d.op in ("load", "alias"):
            dd = defining(fl, d.dst)
            if dd is not None and dd.op == "cmp":
                d = dd
        if tt[0] == "cmp":
            op, l, r = tt[1], tt[2], tt[3]
            if op in ("In", "NotIn") and l == self.K:
                if r == self.dead:
                    return ("dead", (op == "In") != neg)
                if r == self.alive:
                    return ("dead", (op == "NotIn") != neg)
            if op in ("Eq", "NotEq") and (l == self.dead and self.isactive(r) or r == self.dead and self.isactive(l)):
                return ("alldead", (op == "Eq") != neg)
            if d is not None and d.op == "cmp" and op in ("Lt", "LtE", "Gt", "GtE", "Eq", "NotEq"):
                a, b = self.lin(d.args[0]), self.lin(d.args[1])
                x = a - b
                at = {k for k, _ in x.m}
                if at and not any(isinstance(k, tuple) for k in at):
                    yes = {"Lt": [-x - Lin(1)], "LtE": [-x], "Gt": [x - Lin(1)], "GtE": [x], "Eq": [x, -x], "NotEq": None}[op]
                    no = {"Lt": [x], "LtE": [x - Lin(1)], "Gt": [-x], "GtE": [-x - Lin(1)], "Eq": None, "NotEq": [x, -x]}[op]
                    # what != says where counters only move one step at a time up to their bound
                    for s in ("yes", "no"):
                        if (yes if s == "yes" else no) is None:
                            f = []
                            for p, q in (("A", "D"), ("C", "P"), ("N", "W")):
                                if x in (Lin(0, {p: 1, q: -1}), Lin(0, {p: -1, q: 1})):
                                    f = [Lin(-1, {p: 1, q: -1})]
                            for p in ("W", "P", "L"):
                                if x in (Lin(0, {p: 1}), Lin(0, {p: -1})):
                                    f = [Lin(-1, {p: 1})]
                            if s == "yes":
                                yes = f
                            else:
                                no = f
                    return ("lin", no, yes) if neg else ("lin", yes, no)
        if self.W is not None and d is not None and var_key(fl, d.dst) == self.W:
            z, nz = [Lin(0, {"W": -1}), Lin(0, {"W": 1})], [Lin(-1, {"W": 1})]
            return ("lin", z, nz) if neg else ("lin", nz, z)
        if tt == self.dead and self.dead is not None:
            z, nz = [Lin(0, {"D": -1})], [Lin(-1, {"D": 1})]
            return ("lin", z, nz) if neg else ("lin", nz, z)
        if tt == self.alive and self.alive is not None:
            z, nz = [Lin(0, {"L": -1}), Lin(0, {"L": 1})], [Lin(-1, {"L": 1})]
            return ("lin", z, nz) if neg else ("lin", nz, z)
        return None


FULL = Lin(0, {"W": 1, "N": -1})
ROOM = Lin(-1, {"W": -1, "N": 1})
SHARE = Lin(-1, {"P": -1, "C": 1})
ALLDEAD = Lin(0, {"D": 1, "A": -1})
SOMEALIVE = Lin(-1, {"A": 1, "D": -1})


def machine(ctx, cls, names, its, windowed):
    kind = "window" if windowed else "overall"
    if windowed not in its:
        raise AnchorError(f"no {kind} iterator over the readers of a chunk found")
    m, fl = its[windowed]
    R = Roles(ctx, cls, names, m, fl, windowed)
    modes = (True, False) if windowed and any(i.op == "attr" and i.data == names[EFFORT_ARG] for i in fl.g.live) else (True,)
    if windowed and len(modes) == 1:
        ctx.fail(f"mode:{m.name}", "the window iterator does not tell best effort from strict", m.loc)
    found = {}
    for effort in modes:
        explore(ctx, R, effort, found)
        ctx.count("modes")
    for (k, line), msg in sorted(found.items()):
        ctx.fail(f"{k}:{m.name}", msg, f"{m.module.rel}:{line}")
    ctx.sample(f"{m.name}: next() in {2 + windowed} nested loops, exhausted ones in {show(R.dead or R.alive or ('const', None))[:40]}")
    ctx.count("iterators")


def explore(ctx, R, effort, found):
    fl, g = R.fl, R.fl.g
    who = "best effort" if effort else "strict"

    def fail(k, i, msg):
        found.setdefault((k, i.line), f"{msg}{f' ({who})' if R.windowed else ''}")

    unknown = set()
    for i in g.live:
        # a branch that decides where the iteration goes and is not understood
        if i.op == "branch" and i.id in R.ino | {R.Lo.id}:
            if R.cond(i.args[0]) is None and not flaglike(R, i):
                unknown.add(i)
    if unknown:
        raise AnchorError(f"{R.m.name}: condition(s) not understood at line(s) {sorted({i.line for i in unknown})}")

    nt = fl.term(R.take.dst)
    sent = len(R.take.args) == 2
    sentinel = fl.term(R.take.args[1]) if sent else None

    def isnext(t):
        return strip_ids(t) == strip_ids(nt)

    resetW = {i.id for i in g.live if i.op == "store" and i.data == R.W and fl.term(i.args[0]) == (("const", 0) if R.W and R.Wdir == 1 else ("attr", ("self",), R.names[WINDOW_ARG]))} if R.W else set()
    resetP = {i.id for i in g.live if R.windowed and i.op == "store" and i.data == R.Pkey and fresh_container(R, i)}
    pinc = {i.id for i in g.live if R.P is not None and i.op == "setitem" and fl.term(i.args[0]) == R.P and fl.term(i.args[1]) == R.K and fl.term(i.args[2])[0] == "bin"}

    def isrecord(i):
        if i.op == "call" and i.recv is not None and i.args and fl.term(i.args[0]) == R.K:
            n, r = last(i.fn), fl.term(i.recv)
            return n in ("add", "append") and r == R.dead or n in ("remove", "discard", "pop") and r == R.alive
        if i.op == "setitem" and R.dead is not None and fl.term(i.args[0]) == R.dead and fl.term(i.args[1]) == R.K:
            return True
        return i.op == "delitem" and fl.term(i.args[1]) == R.K and fl.term(i.args[0]) == R.alive

    def known(st):
        f = [Lin(-1, {"N": 1})]
        if R.W:
            up = R.Wdir == 1
            if "W0" in st:
                f += [Lin(0, {"W": 1}), Lin(0, {"W": -1})] if up else [Lin(0, {"W": 1, "N": -1}), Lin(0, {"W": -1, "N": 1})]
            if "W+" in st:
                f += [Lin(-1, {"W": 1})] if up else [Lin(-1, {"N": 1, "W": -1})]
            if "full" in st:
                f += [FULL] if up else [Lin(0, {"W": -1})]
            if "room" in st:
                f += [ROOM] if up else [Lin(-1, {"W": 1})]
        if "C1" in st and "P0" in st:
            f += [Lin(-1, {"C": 1})]
            f += [Lin(0, {"P": 1}), Lin(0, {"P": -1})] if R.P is not None and R.Pdir == 1 else [Lin(0, {"P": 1, "C": -1}), Lin(0, {"P": -1, "C": 1})]
        if "alldead" in st:
            f += [ALLDEAD, Lin(0, {"L": -1})]
        if "al" in st:
            f += [SOMEALIVE, Lin(-1, {"L": 1})]
        f += [Lin(0, {"A": 1, "D": -1}), Lin(0, {"L": 1})]
        return f

    def owes(st, i, where):
        for o, k, w in (("Y", "lost", "is not delivered"), ("P", "share-count", "is not counted for its combination"), ("W", "window-count", "is not counted for the window")):
            if "owe" + o in st:
                fail(k, i, f"a sample taken from a reader {w} before {where}")
        if "S" in st:
            fail("exhausted", i, f"an exhausted combination is not recorded as such before {where}: it is asked again for ever")
        if "E" in st:
            fail("swallowed", i, f"an error of a reader is taken for its end: the iteration goes on at {where}")
        return st - {"oweY", "oweP", "oweW", "S", "E"}

    def step(i, st):
        if i is R.take:
            st = owes(st, i, "the next one is taken")
            if R.windowed and "share" not in st:
                fail("share", i, "a sample is taken without having found the combination below its share of the window")
            if R.windowed and "chg" in st and "room" not in st:
                fail("room", i, "a sample is taken without having found the window to have room (the shares were raised)")
            st = st - {"share"}
            ok = st | {"oweY", "passy", "winy", "prog", "seen"} | ({"oweP", "oweW"} if R.windowed else set())
            end = (st | {"S", "any", "prog", "seen"}) - {"al"}
            if sent:
                return [ok | {"pend"}, end | {"pend"}, st | {"E", "!e"}]
            return [ok | {"!o"}, end | {"!s"}, st | {"E", "!e"}]
        if i.op == "yield":
            t = fl.term(i.args[0]) if i.args and i.args[0] is not None else ("const", None)
            if any(isnext(x) for x in subterms(t)):
                if "pend" in st:
                    fail("default", i, "what next() returned is delivered without having been told from the default marking the end")
                elif "oweY" not in st:
                    fail("twice", i, "a sample is delivered twice")
                return [st - {"oweY"}]
            fail("foreign", i, "something else than the sample taken is delivered")
            return [st]
        if i.id in pinc:
            if "oweP" not in st:
                fail("share-count", i, "a combination is counted without a sample taken for it")
            return [st - {"oweP", "P0", "share"}]
        if R.W and i.op == "store" and i.data == R.W:
            if i.id in resetW:
                return [(st - {"W+", "full", "room"}) | {"W0", "rW"}]
            if var_delta(fl, i, R.W) == R.Wdir:
                if "oweW" not in st:
                    fail("window-count", i, "the window is counted without a sample taken")
                return [(st - {"oweW", "W0", "full", "room"}) | {"W+"}]
            if i.id in R.ino:
                fail("window-count", i, "the number of samples of the window is set to something else")
            return [st - {"W0", "W+", "full", "room"}]
        if i.id in resetP:
            return [(st - {"share"}) | {"rP", "P0"}]
        if isrecord(i):
            if "S" not in st:
                fail("dropped", i, "a combination is recorded as exhausted although its reader was not found exhausted: its remaining samples are lost")
            return [(st - {"S", "al"}) | {"any"}]
        if i.op == "store" and R.counts_key is not None and i.data == R.counts_key and i.id in R.ino and R.windowed:
            if "winy" in st:
                fail("shares-changed", i, "the shares of the window change although the window gave samples with them")
            n = st | {"chg"}
            return [n | {"C1"} if atleast1(fl, i.args[0]) else n - {"C1"}]
        if i.op == "exit":
            ended(i, st)
            return None
        if i.op == "raise_exit":
            if "S" in st:
                fail("stopiteration", i, "the end of one reader leaves the iterator as an exception")
            return None
        return [st]

    def ended(i, st):
        st2 = owes(st, i, "the iteration ends")
        if "alldead" in st2 or not effort and "any" in st2:
            return
        fail("ends-early", R.Lo, "the iteration can end although " + ("combinations still have samples" if effort else "no combination is exhausted"))

    def edge(i, s, lab, st):
        marks = {x for x in st if x[0] == "!"}
        if lab in ("exc", "exc-base"):
            if i is R.take:
                if "!o" in st or not (marks & {"!s", "!e"}):
                    return False
            elif i.op == "dispatch":
                if not {"S", "E"} & st and "thrown" not in st:
                    return False
                if "S" in st:
                    if s.id not in caught_by(i, StopIteration):
                        return False
                elif s.id not in caught_by(i, RuntimeError):
                    return False
            elif i.op in ("raise", "reraise", "assertfail"):
                st = st | {"thrown"}
            else:
                return False
        elif i is R.take and marks & {"!s", "!e"}:
            return False
        st = st - marks
        if s.op == "handler":
            st = st - {"thrown"}
        if i.op == "branch" and lab in (True, False):
            c = R.cond(i.args[0])
            tt = fl.term(i.args[0])
            if c is None and sent:
                r = told(tt, lab)
                if r is not None:
                    if r == "bad":
                        fail("default", i, "an empty sample is taken for the end of its reader")
                    elif "pend" in st:
                        if r != ("S" in st):
                            return False
                        st = st - {"pend"}
            if c is not None and c[0] == "dead":
                if c[1] != lab:
                    st = st | {"seen"}
            if c is not None and c[0] == "alldead":
                if c[1] == lab:
                    if "al" in st:
                        return False
                    st = st | {"alldead"}
                else:
                    if "alldead" in st:
                        return False
                    st = st | {"al"}
            if c is not None and c[0] == "lin":
                fs = c[1] if lab else c[2]
                kn = known(st)
                if infeasible(kn + fs):
                    return False
                fs = kn + fs
                if implies(fs, ALLDEAD) or implies(fs, Lin(0, {"L": -1})):
                    st = st | {"alldead"}
                if implies(fs, SOMEALIVE) or implies(fs, Lin(-1, {"L": 1})):
                    st = st | {"al"}
                if R.windowed:
                    up = R.Wdir == 1
                    if implies(fs, FULL if up else Lin(0, {"W": -1})):
                        st = st | {"full"}
                    if implies(fs, ROOM if up else Lin(-1, {"W": 1})):
                        st = st | {"room"}
                    if implies(fs, SHARE if R.Pdir == 1 else Lin(-1, {"P": 1})):
                        st = st | {"share"}
        if i is R.Lf and lab == "stop":
            if "al0" in st and "seen" not in st:
                return False  # some combination is left, and it is in the pass
            st = (st - {"seen", "al0"}) | {"passdone"}
        if i is R.Lf and lab == "next":
            st = owes(st, i, "the next combination's turn") - {"share"}
        if s is R.Lf and i.id not in R.inf:
            st = (st - {"passy", "passdone", "seen", "al0"}) | ({"al0"} if "al" in st else set())
        if s is R.Lw and i.id not in R.inw and R.windowed:
            st = owes(st, i, "the next window")
            if "rP" not in st or "rW" not in st:
                fail("window-start", s, "a window starts without " + ("the counts per combination" if "rP" not in st else "the count of the window") + " starting anew")
            if not effort and "any" in st:
                fail("strict", s, "a window starts although a combination is exhausted")
            st = (st - {"winy", "C1w", "passdone", "passy"}) | ({"C1w"} if "C1" in st else set())
        leaving = R.windowed and (i.id in R.inw or i is R.Lw) and s.id not in R.inw and s is not R.Lw and s.op not in ("dispatch", "handler", "raise_exit")
        if leaving:
            if not ("full" in st or "alldead" in st or "passdone" in st and "passy" not in st or not effort and "any" in st):
                fail("window-left", i, "a window is left although it has room and its last pass gave a sample")
        if s is R.Lo and (i.id in R.ino):
            st = owes(st, i, "the next round")
            if "prog" not in st and not ("C1" in st and "C1w" not in st and R.windowed):
                fail("endless", R.Lo, "a round of the outer loop can pass without a sample taken or a combination found exhausted, and so can every later one: the iteration never ends")
            st = st - {"prog", "rP", "rW", "al", "passdone", "passy", "winy", "full", "room"}
        return frozenset(st)

    def told(tt, lab):
        neg = False
        while tt[0] == "un" and tt[1] == "Not":
            tt, neg = tt[2], not neg
        if isnext(tt):
            return "bad"
        if tt[0] == "cmp" and (isnext(tt[2]) or isnext(tt[3])):
            o = tt[3] if isnext(tt[2]) else tt[2]
            if strip_ids(o) == strip_ids(sentinel):
                return ((tt[1] in ("Is", "Eq")) == lab) != neg
        return None

    def hook(d):
        if d.op == "attr" and d.data == R.names[EFFORT_ARG]:
            return ("c", effort)
        return None

    ex = Explorer(fl, step, edge=edge, follow_exc=True, hook=hook)
    ex.exc_pre = False
    vis = ex.run(frozenset())
    ctx.count("states", len(vis))
    if not any(k[0] == g.exit.id for k in vis):
        fail("no-end", R.Lo, "the iteration never ends")


def flaglike(R, i):
    """Condition on a constant-valued flag, on the setting, on the kind of an object or on the outcome of next()."""
    fl = R.fl
    t = fl.term(i.args[0])
    while t[0] == "un" and t[1] == "Not":
        t = t[2]
    if t[0] == "attr" and t[2] == R.names[EFFORT_ARG]:
        return True
    if all(a[0] == "const" for a in alts(t)):
        return True
    if any(x[0] == "call" and x[1] in ("next", "isinstance") for x in subterms(t)):
        return True
    d = fl.g.tempdef.get(i.args[0])
    while d is not None and d.op in ("unary", "alias"):
        d = fl.g.tempdef.get(d.args[0])
    if d is not None and d.op == "load":
        return all(s is None or fl.term(s.args[0])[0] in ("const", "un", "attr", "cmp") for s in fl.rdefs(d, d.data))
    return False


def fresh_container(R, i):
    """Store of a container holding no sample delivered before."""
    t = R.fl.term(i.args[0])
    if R.Pdir == -1:
        return t[0] in ("comp", "dict", "call")
    if t[0] == "comp":
        return t[1] == "dict" and t[-1] == ("const", 0)
    if t[0] == "call" and callname(t) in ("Counter", "defaultdict"):
        return True
    return is_call_term(t, "fromkeys") and len(t[3]) == 2 and t[3][1] == ("const", 0) or t[0] == "dict0"


def atleast1(fl, temp):
    """Every alternative of the list stored has shares of at least 1."""
    out = []
    t = fl.term(temp)
    for a in alts(t):
        if a[0] == "comp" and a[-1][0] == "tuple" and len(a[-1]) == 3:
            x = a[-1][2]
        elif a[0] == "comp" and a[1] == "dict":
            x = a[-1]
        else:
            return False
        out.append(all(y[0] == "call" and y[1] == "max" and any(z[0] == "const" and isinstance(z[1], int) and z[1] >= 1 for z in y[3])
                       or y[0] == "const" and isinstance(y[1], int) and y[1] >= 1 for y in alts(x)))
    return bool(out) and all(out)


# ------------------------------------------------------------------ shares of a window
def factors(t):
    if t[0] == "bin" and t[1] == "Mult":
        return factors(t[2]) + factors(t[3])
    return [t]


def shares(ctx, cls, names, its):
    if True not in its:
        raise AnchorError("no window iterator")
    m, fl = its[True]
    R = Roles(ctx, cls, names, m, fl, True)
    if R.counts_key is None:
        raise AnchorError("the shares of a window are not kept in a variable")
    sts = [i for i in fl.g.live if i.op == "store" and i.data == R.counts_key and i.id not in R.ino]
    if not sts:
        raise AnchorError("the shares of a window are not computed before the first window")
    N, chunk = ("attr", ("self",), names[WINDOW_ARG]), ("attr", ("self",), "_chunk_size")
    mix = ("attr", ("self",), "_mixture")
    loc = f"{m.module.rel}:{sts[0].line}"
    lists = []
    for s in sts:
        for a in alts(fl.term(s.args[0])):
            while a[0] == "call" and a[1] in ("list", "sorted", "tuple", "items") and (a[3] or a[2] is not None):
                a = a[3][0] if a[3] else a[2]
            if a[0] == "comp" and a[-1][0] == "tuple" and len(a[-1]) == 3:
                lists.append((a, a[-1][1], a[-1][2]))
            elif a[0] == "comp" and a[1] == "dict" and len(a) == 4:
                lists.append((a, a[2], a[3]))
            else:
                raise AnchorError(f"shape of the shares of a window not recognised: {show(a)[:80]}")
    rests = []
    for a, key, cnt in lists:
        if key != ("keyof", mix):
            raise AnchorError("the shares of a window are not computed per entry of the chunk's mixture")
        for x in alts(cnt):
            part(ctx, fl, x, N, chunk, mix, rests, loc)
    for i in fl.g.live:
        # an entry left out
        if i.op == "elem" and i.id not in R.ino and (any(same(fl.term(i.args[-1]), a[-1]) for a, _, _ in lists) or keyed(fl.term(i.args[-1]), mix)) and guard(fl, i) is not None:
            ctx.fail("entry", f"a combination gets no share of the window if not {show(guard(fl, i)[0])[:60]}", f"{m.module.rel}:{i.line}")
    base = [x for a, _, c in lists for x in alts(c) if not any(same(x, r) for r, _ in rests)]
    n = 0
    for i in fl.g.live:
        if i.op == "bin" and i.data == "Add" and any(same(fl.term(i.dst), r) for r, _ in rests):
            n += 1
            gd = guard(fl, i)
            if not in_loop(fl, i):
                continue
            one = gd is not None and only_one(*gd)
            if one is None:
                raise AnchorError(f"which combination takes the rest of the window is not understood: {show(gd[0])[:80]}")
            if not one:
                ctx.fail("rest-once", "the rest of the window is not given to exactly one combination", f"{m.module.rel}:{i.line}")
    for i in fl.g.live:
        if i.op == "setitem" and not in_loop(fl, i) and any(rest_of(x, N) is not None for x in subterms(fl.term(i.args[2]))):
            n += 1
    if not n:
        ctx.fail("rest", "what rounding leaves of the window is given to no combination: windows are short", loc)
    ctx.count("share formulas", len(lists))


def keyed(t, mix):
    return t[0] == "tuple" and len(t) == 3 and t[1] == ("keyof", mix)


def rest_of(t, N):
    """Sum term of `N - sum(...)`, or None."""
    if t[0] == "bin" and t[1] == "Sub" and is_call_term(t[3], "sum"):
        return t[3]
    return None


def part(ctx, fl, x, N, chunk, mix, rests, loc):
    V = ("valof", mix)
    if any(y[0] == "call" and callname(y) in ("Fraction", "Decimal") for y in subterms(x)):
        raise AnchorError("shares computed with fractions")
    if any(y[0] == "bin" and y[1] == "Div" for y in subterms(x)):
        for y in subterms(x):
            if y[0] == "bin" and y[1] == "Add" and (rest_of(y[3], N) is not None or rest_of(y[2], N) is not None):
                rests.append((x, y))
                break
        ctx.fail("exact", "a combination's share of the window is computed with floating point division and cut off: an exact whole share can come out one too small", loc)
        # the rest of the formula, as if it were exact
        return
    if x[0] == "bin" and x[1] == "Add":
        for b, r in ((x[2], x[3]), (x[3], x[2])):
            if rest_of(r, N) is not None:
                rests.append((x, r))
                if r[2] != N:
                    ctx.fail("rest", f"the rest given to a combination is computed from {show(r[2])[:40]}, not from the window size", loc)
                c = r[3][3][0] if r[3][3] else None
                if c is None or c[0] not in ("comp", "call"):
                    raise AnchorError("sum of the shares not recognised")
                if c[0] == "comp" and not same(c[-1], b):
                    ctx.fail("rest", f"the rest is what the sum of {show(c[-1])[:60]} leaves, but the shares are {show(b)[:60]}", loc)
                part(ctx, fl, b, N, chunk, mix, [], loc)
                return
    if x[0] == "bin" and x[1] == "FloorDiv":
        num, den = factors(x[2]), factors(x[3])
        known = {N, V, chunk}
        if sorted(map(str, num)) == sorted(map(str, (N, V))) and (den == [chunk] or len(den) == 1 and is_call_term(den[0], "sum")):
            ctx.count("exact shares")
            return
        if all(y in known or y[0] == "const" for y in num + den):
            ctx.fail("formula", f"a combination's share is {show(x)[:80]}, not window size * rows / chunk size", loc)
            return
    raise AnchorError(f"share of a combination not recognised: {show(x)[:80]}")


def only_one(c, lab):
    """The condition holds for exactly one entry (True), not (False), unknown (None)."""
    while c[0] == "un" and c[1] == "Not":
        c, lab = c[2], not lab
    if c[0] == "cmp" and c[1] in ("Eq", "NotEq", "Is", "IsNot", "Gt", "Lt", "GtE", "LtE"):
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if a[0] == "index" and b[0] == "const":
                if c[1] in ("Eq", "NotEq", "Is", "IsNot"):
                    return ((c[1] in ("Eq", "Is")) == lab) and b[1] == 0
                if (c[1], b[1], lab) in (("Gt", 0, False), ("GtE", 1, False), ("Lt", 1, True), ("LtE", 0, True)) and a is c[2]:
                    return True
                return False
            if a[0] == "keyof" and c[1] in ("Eq", "Is") and lab and not any(y[0] in ("keyof", "valof", "elem") for y in [b]):
                return True
    if c[0] == "index":
        return not lab
    return None


# ------------------------------------------------------------------ configuration and choice
def clamped(ctx, cls, names):
    m = names["method"]
    fl = ctx.flow(m, None, cls, key="configured")
    W = names[WINDOW_ARG]
    T = names[TYPE_ARG]
    for typ in ("window", "token"):
        def edge(i, s, lab, st):
            if lab in ("exc", "exc-base") and i.op not in ("raise", "reraise", "dispatch", "assertfail"):
                return False
            if i.op == "branch" and lab in (True, False):
                t, neg = fl.term(i.args[0]), False
                while t[0] == "un" and t[1] == "Not":
                    t, neg = t[2], not neg
                if t[0] == "cmp":
                    me = Lin(0, {"w": 1})
                    side = [me if read(a) else Lin(a[1]) if a[0] == "const" and isinstance(a[1], int) else None for a in t[2:4]]
                    if None not in side and any(not x.const for x in side):
                        f = of_cmp(("cmp", t[1], side[0], side[1]), lab != neg)
                        if f and implies(f, Lin(-1, {"w": 1})):
                            return 1
            return st

        def read(a):
            return a == ("attr", ("self",), W) or a[0] == "attr" and a[2] == WINDOW_ARG or any(
                x == ("attr", ("self",), W) or x[0] == "attr" and x[2] == WINDOW_ARG for x in alts(a))

        def step(i, st):
            if i.op == "setattr" and i.data == W and fl.term(i.args[0]) == ("self",):
                t = fl.term(i.args[1])
                if all(a[0] == "const" and isinstance(a[1], int) and a[1] >= 1 or a == ("attr", ("self",), "_chunk_size")
                       or is_call_term(a, "max") and any(y[0] == "const" and isinstance(y[1], int) and y[1] >= 1 for y in a[3]) for a in alts(t)):
                    return [1]
                if is_call_term(t, "min") and all(y == ("attr", ("self",), "_chunk_size") or y == ("attr", ("self",), W) for y in t[3]):
                    return [st]
                return [0]
            return [st]

        ex = Explorer(fl, step, edge=edge, hook=kind_hook(fl, T, typ))
        vis = ex.run(0)
        outs = [k for k in vis if k[0] == fl.g.exit.id]
        if not outs:
            raise AnchorError("the configuration of a chunk never ends")
        ctx.count("configurations", len(outs))
        if any(k[2] == 0 for k in outs):
            ctx.fail(f"window-size:{typ}", f"reading by {typ} can be configured with a window of less than one sample: nothing is ever delivered", m.loc)


def kind_hook(fl, T, typ):
    """Decides conditions on the kind of reading for one kind."""
    def isT(t):
        return t == ("attr", ("self",), T) or t[0] == "attr" and t[2] == TYPE_ARG

    def hook(d):
        if d.op == "attr" and (d.data in (T, TYPE_ARG)):
            return ("c", typ)
        if d.op == "cmp" and d.data in ("In", "NotIn"):
            l, r = fl.term(d.args[0]), fl.term(d.args[1])
            if isT(l) and r[0] in ("set", "tuple", "list", "dict"):
                vals = [x[1] for x in r[1:] if isinstance(x, tuple) and x[0] == "const"]
                if len(vals) == len(r) - 1:
                    return ("c", (typ in vals) == (d.data == "In"))
        return None

    return hook


def chosen(ctx, cls, names, its):
    if len(its) != 2:
        raise AnchorError("not both iterators found")
    users = []
    for m in cls.methods.values():
        if m.name in (its[True][0].name, its[False][0].name):
            continue
        fl = ctx.flow(m, lambda *a: False, cls, key="plain")
        cs = [i for i in fl.g.live if i.op == "call" and i.target is not None and getattr(i.target, "name", None) in (its[True][0].name, its[False][0].name)]
        if cs:
            users.append((m, fl, cs))
    if not users:
        raise AnchorError("nobody uses the iterators of a chunk")
    for m, fl, cs in users:
        if len({i.target.name for i in cs}) < 2:
            raise AnchorError(f"{m.name} uses only one of the iterators")
        for typ, want in (("window", True), ("token", True), ("simple", False)):
            ex = Explorer(fl, lambda i, st: [st], hook=kind_hook(fl, names[TYPE_ARG], typ))
            vis = ex.run(0)
            ids = {k[0] for k in vis}
            used = {i.target.name for i in cs if i.id in ids}
            ctx.count("kinds of reading")
            if used != {its[want][0].name}:
                ctx.fail(f"chosen:{typ}", f"reading by {typ} goes through {', '.join(sorted(used)) or 'no iterator'}, not {its[want][0].name}", m.loc)
