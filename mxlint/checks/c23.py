"""C23: reading ranges yields exactly the requested rows, in order, in every format."""
from ..core import *
from ..flow import Explorer, strip_ids
from .util import *
from .linear import *


def run(ctx):
    ctx.rule("Abstract interpretation (linear integer constraints) of every path through the loops of each range reader: for a forward reader the position in the file always equals a tracked "
             "variable, the rows emitted for [start,end) are exactly those, and only requests that overlap or are out of order are rejected; for random access the indices are exactly start..end-1; for row groups "
             "each (range, group) pair contributes exactly the intersection and a pointer only advances when nothing of it is left. Each emitted value is the parsing function applied to the row, once, and no "
             "failure while reading is swallowed. Files are all visited, each with its own ranges; lines tunnelled through the server are split as they are locally.")
    for c in dataset_classes(ctx):
        m = ctx.proj.find_method(c, "read_ranges_from_files")
        if m is None:
            continue
        fl = ctx.flow(m, None, c)
        if fl.g.exit not in reach([fl.g.entry]):
            continue
        ctx.count("range_readers")
        ctx.part(reader, ctx, c, m, fl)
    ctx.part(tar_samples, ctx)
    ctx.part(tunnel, ctx)
    ctx.floor("range_readers", 3)


def dataset_classes(ctx):
    base = ctx.proj.cls("Dataset")
    return [c for c in ctx.proj.subclasses(base) if "tests" not in c.module.rel]


def loop_source(fl, h):
    t = fl.term(h.args[0])
    t = t[-1] if t[0] == "iterof" else t
    while t[0] == "call" and t[1] in ("list", "tuple", "iter") and len(t[3]) == 1:
        t = t[3][0]
    return t


class Sub:
    """What is common to one range reader."""

    def __init__(self, ctx, c, m, fl):
        self.ctx, self.c, self.m, self.fl = ctx, c, m, fl
        ps = m.params()
        self.ranges, self.parse = ("param", ps[0]), ("param", ps[1])
        self.mine = lambda t: t == ("valof", self.ranges) or t[0] == "item" and t[1] == self.ranges and t[2] in (("keyof", self.ranges), ("elem", self.ranges))
        self.file = lambda t: t in (("keyof", self.ranges), ("elem", self.ranges))
        self.heads = fl.g.of("next")
        self.outer = [h for h in self.heads if self.over_files(loop_source(fl, h))]
        if len(self.outer) != 1:
            raise AnchorError(f"{c.name}: loop over the files not found")
        self.outer = self.outer[0]
        self.range_loops = [h for h in self.heads if self.mine(loop_source(fl, h))]
        self.name = c.name

    def over_files(self, s):
        if s == self.ranges:
            return True
        return s[0] == "call" and callname(s) in ("items", "keys", "sorted", "enumerate") and (s[2] == self.ranges or bool(s[3]) and self.over_files(s[3][0]))

    def parsed(self, v):
        """Row value x if v is parsing_func(x), else None."""
        if isinstance(v, tuple) and v[0] == "call" and v[2] == wrap(self.parse) and len(v[3]) == 1 and not v[4]:
            return v[3][0]
        return None

    def fail(self, key, msg, i):
        self.ctx.fail(f"{key}:{self.name}", f"{self.name}: {msg}", i.loc if i is not None else self.m.loc)


def reader(ctx, c, m, fl):
    s = Sub(ctx, c, m, fl)
    swallowed(s)
    row_group = [i for i in fl.g.calls() if last(i.fn) == "read_row_group"]
    validated = [h for h in s.range_loops if validates(s, h)]
    if row_group:
        main = parquet(s, validated, row_group)
    else:
        emitting = [h for h in s.range_loops if any(i.op in ("yield", "elem") for i in body_of(h))]
        if len(emitting) != 1:
            raise AnchorError(f"{c.name}: loop emitting the ranges not found")
        main = emitting[0]
        forward(s, main, [h for h in validated if h is not main])
    every_file(s, main)


def swallowed(s):
    fl = s.fl
    body = {i.id for i in body_of(s.outer)}
    for i in fl.g.live:
        if i.id not in body or i.op not in ("call", "with_enter", "next", "item", "iter", "yield", "unpack"):
            continue
        ex = [x for x, l in i.succ if l == "exc"]
        if not ex:
            continue
        s.ctx.count("raising_sites")
        r = reach(ex, stop=lambda x: x is s.outer)
        bad = [x for x in r if x is s.outer or x is fl.g.exit or x.op in ("yield", "next") and x.id in body]
        if not bad or no_raise(i):
            continue
        if i.op == "call" and last(i.fn) == "next" and all(stop_only(x) for x in ex):
            continue
        s.fail("swallowed", "a failure while reading is caught and reading goes on: the rows concerned are missing without an error", i)


def stop_only(d):
    """Every handler on the way takes StopIteration/IndexError only."""
    return d.op == "dispatch" and all(x.op != "handler" or set(map(str, x.data or ["*"])) <= {"StopIteration"} or all("StopIteration" in str(t) for t in (x.data or ["*"])) for x, _ in d.succ)


def every_file(s, main):
    """Each file is read: no way round the reading of a file that has ranges."""
    fl = s.fl

    def hook(d):
        t = fl.term(d.dst) if d.dst is not None else None
        if t is not None and (s.mine(t) or t[0] == "call" and t[1] in ("len", "bool") and t[3] and s.mine(t[3][0])):
            return "truthy"
        return None

    ex = Explorer(fl, lambda i, st: [True if i is main or i.op in ("raise", "reraise") else False if i is s.outer else st], hook=hook, follow_exc=False)
    start = [x for x, l in s.outer.succ if l == "next"][0]
    vis = ex.run(False, start=start)
    for k in vis:
        if k[0] == s.outer.id and not k[2]:
            s.fail("file-skipped", "a file with requested ranges can be skipped", s.outer)
    if any(i.op == "return" and i.frame is fl.g.frames[0] and i.id in reach_ids([start], s.outer) for i in fl.g.live):
        s.fail("file-skipped", "reading ends inside the loop over the files", s.outer)


def reach_ids(starts, stop):
    return {i.id for i in reach(starts, stop=lambda x: x is stop, exc=False)}


# ------------------------------------------------------------------ ranges given in order
def init_values(fl, h, key):
    """Constant a variable has when the loop is entered, or None."""
    out = set()
    inside = {i.id for i in body_of(h)}
    for d in fl.rdefs(h, key):
        if d is None:
            return None
        if d.id in inside:
            continue
        t = fl.term(d.args[0])
        if t[0] != "const" or not isinstance(t[1], int):
            return None
        out.add(t[1])
    return out.pop() if len(out) == 1 else None


def paths_of(s, h, assume=None, cls=Run, setup=None):
    """[(kind, path, run)] of the feasible paths through loop h, with the range of this turn valid."""
    fl = s.fl
    out = []
    havoc = stored_in(body_of(h))
    for kind, p in loop_paths(fl, h):
        pre = Run(fl)
        pre.havoc = havoc
        e = elem_of(pre, h)
        S, E = lin(item(e, Lin(0))), lin(item(e, Lin(1)))
        a = [E - S, S] + ([f for f in assume(S, E)] if assume else [])
        r = execute(fl, p, havoc, assume=a, cls=cls, setup=setup)
        if r is not None:
            r.S, r.E = S, E
            out.append((kind, p, r))
    return out


def tracked(s, h):
    """Variables that always hold the end of the previous range (0 at first)."""
    fl = s.fl
    out = []
    for key in sorted(stored_in(body_of(h)), key=str):
        if init_values(fl, h, key) != 0:
            continue
        ok = True
        for kind, p, r in paths_of(s, h):
            if kind == "loop" and not equal(r.facts, lin(r.env.get(key, ("var", key))), r.E):
                ok = False
        if ok:
            out.append(key)
    return out


def lower(s, h):
    """Variables never above the start of a valid range: 0/-1 at first, then start or end of the previous one."""
    fl = s.fl
    out = []
    for key in sorted(stored_in(body_of(h)), key=str):
        v0 = init_values(fl, h, key)
        if v0 is None or v0 > 0:
            continue
        if all(implies(r.facts, r.E - lin(r.env.get(key, ("var", key)))) for kind, p, r in paths_of(s, h, lambda S, E: [S - Lin(0, {("var", key): 1})]) if kind == "loop"):
            out.append(key)
    return out


def validates(s, h):
    """Whether the loop rejects every range list that is unsorted or overlapping, and reports what it wrongly rejects."""
    fl = s.fl
    ps = paths_of(s, h)
    for key in tracked(s, h):
        v = Lin(0, {("var", key): 1})
        if all(implies(r.facts, r.S - v) for kind, p, r in ps if kind == "loop"):
            wrongly(s, h)
            return True
    return False


def wrongly(s, h):
    low = lower(s, h)
    s.ctx.count("validated_requests")
    for kind, p, r in paths_of(s, h, lambda S, E: [S - Lin(0, {("var", k): 1}) for k in low]):
        if kind in ("raise", "break", "return"):
            end = p[-1][0]
            if kind == "raise":
                s.fail("rejects-valid", "a valid request (sorted, non-overlapping ranges) is rejected", end)
            elif end is not s.outer and not any(i is h and l == "stop" for i, l in p):
                s.fail("range-skipped", "ranges after this one are not read", end)


# ------------------------------------------------------------------ forward and random-access readers
def forward(s, h, validated):
    fl, ctx = s.fl, s.ctx
    cand = tracked(s, h)
    assume = None
    if validated:
        assume = lambda S, E: [S - Lin(0, {("var", k): 1}) for k in cand]
    results = []
    for key in cand or [None]:
        errs = []
        POS = lin(("var", key)) if key is not None else lin(("pos",))
        for kind, p, r in paths_of(s, h, assume, cls=Effects, setup=lambda r: r.begin(s, POS)):
            if kind != "loop":
                continue
            ctx.count("range_paths")
            for err in r.errs:
                errs.append(err)
            segs = [x for x in r.out if not equal(r.facts, x[0], x[1])]
            seq = r.sequential
            if seq and key is None:
                errs.append(("position", "the position in the file is not tracked", h))
                continue
            if seq and not implies(r.facts, r.S - POS):
                errs.append(("backwards", "a range that starts before the current position is not rejected: its rows are taken from further on in the file", h))
                continue
            if not segs:
                if not implies(r.facts, r.S - r.E):
                    errs.append(("dropped", "on some path nothing is emitted for a range", p[-1][0]))
                continue
            cur = r.S
            for lo, hi, i in segs:
                if not equal(r.facts, lo, cur):
                    errs.append(("wrong-rows", f"rows [{lo}, {hi}) are emitted where [{r.S}, {r.E}) was requested", i))
                    break
                cur = hi
            else:
                if not equal(r.facts, cur, r.E):
                    errs.append(("wrong-rows", f"rows [{r.S}, {cur}) are emitted where [{r.S}, {r.E}) was requested", segs[-1][2]))
            if seq and key is not None and not equal(r.facts, lin(r.env.get(key, ("var", key))), r.pos):
                errs.append(("position", f"the tracked position {key[1]} is not where the file is afterwards", h))
        results.append((len(errs), errs, key))
    results.sort(key=lambda x: x[0])
    for k, msg, i in results[0][1]:
        s.fail(k, msg, i)
    wrongly(s, h)
    # the position restarts with each file
    seqr = any(r.sequential for _, _, r in paths_of(s, h, assume, cls=Effects, setup=lambda r: r.begin(s, lin(("pos",)))))
    if seqr:
        for f in [i for i in fl.g.calls() if last(i.fn) in ("open_file",)]:
            if f not in body_of(s.outer):
                s.fail("file", "the file is not opened anew for each file of the request", f)


def file_value(s, v):
    """v stands for the opened file (an iterator over its lines)."""
    if isinstance(v, tuple) and v and v[0] == "t":
        t = v[1]
        if t[0] == "call" and t[1] in ("iter",) and len(t[3]) == 1:
            t = t[3][0]
        if t[0] in ("entered", "iterof"):
            t = t[1]
        return t[0] == "call" and callname(t) in ("open_file", "open", "xopen") and bool(t[3]) and s.file(comps(t[3][0])[0])
    if isinstance(v, tuple) and v and v[0] == "entered":
        return file_value(s, v[1])
    if isinstance(v, tuple) and v and v[0] == "iter":
        return file_value(s, v[1])
    if isinstance(v, tuple) and v and v[0] == "call" and v[1] == "iter" and len(v[3]) == 1:
        return file_value(s, v[3][0])
    return False


def table_value(s, v):
    """v stands for all rows of the file, by row number."""
    if isinstance(v, tuple) and v and v[0] == "t":
        t = v[1]
        if t[0] == "entered":
            t = t[1]
        if t[0] == "call" and callname(t) == "IndexedTarSamples" and t[3]:
            return s.file(comps(t[3][0])[0])
        if t[0] == "call" and callname(t) == "readlines":
            return t[2] is not None and file_value(s, ("t", t[2]))
        if t[0] == "call" and t[1] in ("list", "tuple") and t[3]:
            return file_value(s, ("t", t[3][0]))
    if isinstance(v, tuple) and v and v[0] == "call" and v[1] in ("list", "tuple") and v[3]:
        return file_value(s, v[3][0])
    return False


ZERO = Lin(0)


def atleast0(r, n):
    if implies(r.facts, n):
        return n
    return Lin(0, {("max", n, ZERO): 1})


class Effects(Run):
    """Effect of a path on the position in the file and on the rows emitted."""

    def begin(self, s, pos):
        self.s = s
        self.pos = pos
        self.out = []  # (lo, hi, instruction)
        self.held = {}  # container value -> [(lo, hi, parsed)]
        self.errs = []
        self.sequential = False
        self.one = None

    def err(self, k, msg, i):
        self.errs.append((k, msg, i))

    # -- single reads
    def call(self, i, n):
        v = super().call(i, n)
        fn = last(i.fn)
        args = v[3] if isinstance(v, tuple) and v[0] == "call" else ()
        if fn == "next" and i.recv is None and args:
            a = args[0]
            if file_value(self.s, a):
                self.sequential = True
                lo = self.pos
                self.pos = lo + Lin(1)
                return ("row", lo)
            if isinstance(a, tuple) and a[0] == "call" and a[1] == "islice" and file_value(self.s, a[3][0]):
                self.consume(a)
                return v
        if fn in ("deque", "list", "tuple", "sum") and args and isinstance(args[0], tuple) and args[0][0] == "call" and args[0][1] == "islice" and file_value(self.s, args[0][3][0]):
            lo, hi = self.consume(args[0])
            if fn in ("list", "tuple"):
                return ("rows", lo, hi, i.id)
            return v
        if fn in ("append",) and i.recv is not None:
            c = self.v(i.recv)
            if isinstance(c, tuple) and c[0] == "new" and args:
                self.hold(c, args[0], i)
        return v

    def consume(self, a):
        """Effect of exhausting islice(F, …); returns the rows delivered."""
        self.sequential = True
        n = a[3][1:]
        if len(n) == 1:
            skip, stop = ZERO, n[0]
        elif len(n) == 2 or n[2] == ("const", None) or n[2] == Lin(1):
            skip, stop = n[0] if n[0] != ("const", None) else ZERO, n[1]
        else:
            raise AnchorError("strided islice")
        if stop == ("const", None):
            raise AnchorError("open-ended islice")
        skip, stop = atleast0(self, lin(skip)), atleast0(self, lin(stop))
        lo = self.pos + skip
        hi = self.pos + stop
        self.pos = hi
        return lo, hi

    def hold(self, c, v, i):
        x = self.s.parsed(v)
        y = x if x is not None else v
        lo = self.row(y)
        if lo is None:
            raise AnchorError("value kept for later is not a row")
        self.held.setdefault(c, []).append((lo, lo + Lin(1), x is not None))

    def row(self, v):
        """Row number a value is the row of, or None."""
        if isinstance(v, tuple) and v[0] == "row":
            return v[1]
        if isinstance(v, tuple) and v[0] == "item" and table_value(self.s, v[1]):
            return lin(v[2])
        return None

    def do(self, i, lab):
        if i.op == "next" and lab == "stop":
            self.inner(i)
        super().do(i, lab)
        if i.op == "yield":
            self.emit(self.v(i.args[0]), i)

    def emit(self, v, i):
        x = self.s.parsed(v)
        if x is None:
            self.err("value", "an emitted value is not the parsing function applied to the row", i)
            return
        lo = self.row(x)
        if lo is None:
            raise AnchorError("emitted row not identified")
        self.out.append((lo, lo + Lin(1), i))

    # -- loops
    def inner(self, h):
        s = self.s
        src = self.v(h.args[0])
        src = src[1] if isinstance(src, tuple) and src[0] == "iter" else src
        parse_by = None
        if isinstance(src, tuple) and src[0] == "call" and src[1] == "map" and len(src[3]) == 2:
            if src[3][0] != wrap(s.parse):
                raise AnchorError("mapped function is not the parsing function")
            parse_by, src = True, src[3][1]
        elem = elem_of(self, h)
        body = [(k, p) for k, p in loop_paths(self.fl, h)]
        runs = []
        for k, p in body:
            q = Turn(self.fl, self.env)
            q.begin(s, lin(("pos", h.id)))
            q.havoc = stored_in(body_of(h)) | self.havoc
            for key in stored_in(body_of(h)):
                q.env.pop(key, None)
            q.val = dict(self.val)
            q.facts = list(self.facts)
            for i, lab in p:
                q.do(i, lab)
                if i.op == "elem":
                    q.kept.append((q.v(i.args[0]), q.v(i.args[-1]), i))
            if not infeasible(q.facts):
                runs.append((k, p, q))
        loops = [x for x in runs if x[0] == "loop"]
        for k, p, q in runs:
            if k in ("break", "return") and not exhausted(s, q):
                self.err("dropped", "the rows of a range after some row are left out", p[-1][0])
            if k == "raise":
                self.err("rejects", "reading a row of a valid request raises", p[-1][0])
        kinds = set()
        for k, p, q in loops:
            kinds.add(self.turn(h, p, q, src, elem, parse_by))
        self.sequential = self.sequential or any(q.sequential for _, _, q in loops)
        if len(kinds) != 1:
            if any(k[0] == "none" for k in kinds) and any(k[0] in ("emit", "hold") for k in kinds):
                self.err("dropped", "on some path a row of the range is not emitted", h)
            elif kinds:
                self.err("wrong-rows", "rows of a range are treated differently on different paths", h)
            kinds = {k for k in kinds if k[0] in ("emit", "hold")} or kinds
        if not kinds:
            return
        kind = sorted(kinds, key=str)[0]
        self.apply(h, kind, src)

    def turn(self, h, p, q, src, elem, parse_by):
        """What one turn of the inner loop does: (kind, …)."""
        self.errs += q.errs
        adv = q.pos - lin(("pos", h.id))
        if not adv.const:
            raise AnchorError("reads of an inner loop not summarised")
        emits = [self.norm(q, v, i, elem, h) for v, i in q.emitted]
        holds = [(c,) + self.norm(q, v, i, elem, h) for c, v, i in q.kept]
        if len(emits) + len(holds) > 1:
            return ("many", adv.c)
        if emits:
            return ("emit", adv.c, emits[0][0], emits[0][1] or bool(parse_by), emits[0][2].id)
        if holds:
            return ("hold", adv.c, holds[0][1], holds[0][2] or bool(parse_by), holds[0][0])
        return ("none", adv.c)

    def norm(self, q, v, i, elem, h):
        """(row description, parsed) of a value produced in a turn: 'elem' or an offset from the index."""
        x = self.s.parsed(v)
        y = x if x is not None else v
        if y == elem:
            return ("elem", x is not None, i)
        if isinstance(y, tuple) and y[0] == "row":
            return (("read", (y[1] - lin(("pos", h.id))).c), x is not None, i)
        if isinstance(y, tuple) and y[0] == "item" and table_value(self.s, y[1]):
            d = lin(y[2]) - lin(elem)
            return (("at", d), x is not None, i)
        raise AnchorError(f"emitted value not identified: {brief(v)}")

    def apply(self, h, kind, src):
        """Effect of the whole inner loop."""
        ins = h
        # rows the loop runs over
        if isinstance(src, tuple) and src[0] == "call" and src[1] == "range":
            a = src[3]
            if len(a) == 3 and a[2] != Lin(1):
                raise AnchorError("strided range")
            lo, hi = (ZERO, lin(a[0])) if len(a) == 1 else (lin(a[0]), lin(a[1]))
            n = atleast0(self, hi - lo)
            if kind[0] == "many":
                self.err("duplicated", "a row of the range is emitted more than once", h)
                return
            if kind[0] == "none":
                self.pos = self.pos + n.scale(kind[1])
                return
            what = kind[2]
            if what == "elem":
                raise AnchorError("row numbers emitted instead of rows")
            if what[0] == "read":
                seg = (self.pos + Lin(what[1]), self.pos + Lin(what[1]) + n)
                if kind[1] != 1:
                    self.err("wrong-rows", "rows are skipped between the rows of a range", h)
                self.pos = self.pos + n.scale(kind[1])
            else:
                d = what[1]
                seg = (lo + d, lo + n + d)
            self.put(h, kind, seg)
            return
        if isinstance(src, tuple) and src[0] == "call" and src[1] == "islice" and src[3] and file_value(self.s, src[3][0]):
            seg = self.consume(src)
            if kind[1]:
                self.err("wrong-rows", "the file is advanced while its rows are being emitted", h)
            if kind[0] == "many":
                self.err("duplicated", "a row of the range is emitted more than once", h)
                return
            if kind[0] == "none":
                return
            if kind[2] != "elem":
                raise AnchorError("emitted row not identified")
            self.put(h, kind, seg)
            return
        segs = None
        if isinstance(src, tuple) and src[0] == "rows":
            segs = [(src[1], src[2], False)]
        elif isinstance(src, tuple) and src[0] == "item" and table_value(self.s, src[1]) and isinstance(src[2], tuple) and src[2][0] == "slice":
            a, b = src[2][1], src[2][2]
            if len(src[2]) > 3 and src[2][3] not in (("const", None), Lin(1)):
                raise AnchorError("strided slice")
            segs = [(lin(a) if a != ("const", None) else ZERO, lin(b), False)]
        elif isinstance(src, tuple) and src in self.held:
            segs = self.held[src]
        if segs is not None:
            if kind[0] == "none":
                return
            if kind[0] == "many":
                self.err("duplicated", "a row of the range is emitted more than once", h)
                return
            if kind[2] != "elem":
                raise AnchorError("emitted row not identified")
            for lo, hi, parsed in segs:
                self.put(h, (kind[0], kind[1], kind[2], kind[3] + parsed if isinstance(kind[3], int) else kind[3]) + kind[4:], (lo, hi))
            return
        if kind[0] == "none" and not kind[1]:
            return
        raise AnchorError(f"inner loop over {brief(src)} not summarised")

    def put(self, h, kind, seg):
        parsed = int(kind[3])
        if kind[0] == "hold":
            self.held.setdefault(kind[4], []).append((seg[0], seg[1], parsed))
            return
        if parsed != 1:
            self.err("value", "the parsing function is " + ("not applied to a row" if not parsed else "applied twice"), h)
        self.out.append((seg[0], seg[1], self.fl.g.ins[kind[4]] if len(kind) > 4 and isinstance(kind[4], int) else h))


class Turn(Effects):
    """One turn of an inner loop: keeps the values it emits; the loop as a whole turns them into rows."""

    def begin(self, s, pos):
        super().begin(s, pos)
        self.emitted, self.kept = [], []

    def emit(self, v, i):
        self.emitted.append((v, i))

    def hold(self, c, v, i):
        self.kept.append((c, v, i))


def exhausted(s, q):
    """The turn ends the loop because the file has no more rows."""
    for c, lab, i in q.conds:
        x = c
        while isinstance(x, tuple) and x[0] == "not":
            x = x[1]
        if isinstance(x, tuple) and x[0] == "row":
            return True
        if isinstance(x, tuple) and x[0] == "cmp" and x[1] in ("Is", "Eq", "IsNot", "NotEq") and any(isinstance(y, tuple) and y[0] == "row" for y in x[2:4]):
            return True
    return False


# ------------------------------------------------------------------ row groups
def parquet(s, validated, reads):
    fl, ctx = s.fl, s.ctx
    # where the parts of each group are collected
    pair = [h for h in fl.g.of("loop") + fl.g.of("next") if h is not s.outer and touches(s, h)]
    if not pair:
        raise AnchorError(f"{s.name}: loop matching ranges to row groups not found")
    inner = [h for h in pair if not any(o is not h and o in body_of(h) for o in pair)]
    if len(inner) != 1:
        raise AnchorError(f"{s.name}: loop matching ranges to row groups not found")
    h = inner[0]
    if h.op == "loop":
        pointers(s, h, validated)
    else:
        raise AnchorError(f"{s.name}: ranges and row groups are not matched by two pointers")
    offsets(s)
    read_phase(s)
    return h


def container(s):
    """Dictionary the parts are collected in: the one whose keys are the groups read."""
    out = set()
    for i in s.fl.g.calls():
        if last(i.fn) == "read_row_group":
            t = arg_term(i, s.fl, 0, "i")
            for x in subterms(t) if t is not None else ():
                if x[0] == "keyof":
                    out.add(x[1])
    if len(out) != 1:
        raise AnchorError(f"{s.name}: row groups read not resolved")
    return out.pop()


def part_container(s, v):
    c = container(s)
    return v == wrap(c)


def touches(s, h):
    c = container(s)
    for i in body_of(h):
        if i.op == "setitem" and s.fl.term(i.args[0]) == c:
            return True
        if i.op == "call" and last(i.fn) == "append" and i.recv is not None and contains(s.fl.term(i.recv), lambda x: x == c):
            return True
    return False


def pointers(s, h, validated):
    fl, ctx = s.fl, s.ctx
    havoc = stored_in(body_of(h))
    cw = wrap(container(s))
    rng = None
    for i in body_of(h):
        if i.op == "item" and s.mine(fl.term(i.args[0])):
            rng = i
    if rng is None:
        raise AnchorError(f"{s.name}: ranges are not addressed by a pointer")
    off = offsets_list(s)
    owrap = wrap(off)
    RANGES = None
    if not validated:
        s.fail("unordered", "a request whose ranges are unsorted or overlap is not rejected: rows are dropped silently", h)
    n = 0
    for kind, p in loop_paths(fl, h):
        r0 = execute(fl, p, havoc)
        if r0 is None:
            continue
        # the pair looked at in this turn: items of the two lists at variables
        items = {}
        for v in r0.val.values():
            for x in walk(v):
                if isinstance(x, tuple) and x[:1] == ("item",) and isinstance(x[2], Lin) and len(x[2].m) == 1:
                    a = next(iter(x[2].m))[0]
                    if isinstance(a, tuple) and a[0] == "var" and a[1] in havoc:
                        if x[1] == owrap:
                            items.setdefault("g", set()).add(x)
                        elif isinstance(x[1], tuple) and x[1][0] == "t" and s.mine(x[1][1]):
                            items.setdefault("r", set()).add(x)
        if kind in ("break", "return"):
            exit_ok(s, h, p, r0, off)
            continue
        if kind == "raise":
            continue
        if len(items.get("g", ())) != 1 or len(items.get("r", ())) != 1:
            raise AnchorError(f"{s.name}: pair of range and row group not resolved")
        n += 1
        ctx.count("range_group_paths")
        g, r = next(iter(items["g"])), next(iter(items["r"]))
        if g[2] != Lin(0, {("var", next(iter(g[2].m))[0][1]): 1}) or r[2] != Lin(0, {("var", next(iter(r[2].m))[0][1]): 1}):
            s.fail("pointer", "the range or row group looked at is not the one pointed to", h)
            continue
        gk, rk = next(iter(g[2].m))[0][1], next(iter(r[2].m))[0][1]
        for k in (gk, rk):
            if init_values(fl, h, k) != 0:
                s.fail("pointer", f"{k[1]} does not start at the first element", h)
        S, E = lin(item(r, Lin(0))), lin(item(r, Lin(1)))
        G0, G1 = lin(item(g, Lin(0))), lin(item(g, Lin(1)))
        x = execute(fl, p, havoc, assume=[E - S, G1 - G0, S, G0])
        if x is None:
            continue
        end = p[-1][0]
        facts = x.facts
        adv_g, adv_r = lin(x.env.get(gk, ("var", gk))) - g[2], lin(x.env.get(rk, ("var", rk))) - r[2]
        if not adv_g.const or not adv_r.const or adv_g.c not in (0, 1) or adv_r.c not in (0, 1):
            s.fail("pointer", "a pointer moves by more than one element: what lies between is never read", end)
            continue
        if not adv_g.c and not adv_r.c:
            s.fail("pointer", "neither pointer moves", end)
        if adv_r.c and not implies(facts, G1 - E):
            s.fail("pointer", "the range is left although it may continue in the next row group", end)
        if adv_g.c and not (implies(facts, E - G1) or implies(facts, S - G1)):
            s.fail("pointer", "the row group is left although a later range may still need rows of it", end)
        # what is collected
        got = []
        for i, args, recv in x.events:
            if i.op == "call" and last(i.fn) == "append" and recv is not None and args:
                key = key_of(x, recv, cw)
                if key is not None:
                    got.append((key, args[0], i))
            if i.op == "setitem" and args[0] == cw:
                v = args[2]
                if isinstance(v, tuple) and v[0] == "new":
                    fresh = any(isinstance(c, tuple) and c[0] == "cmp" and c[2] == args[1] and c[3] == cw and (c[1] == "NotIn") == lab for c, lab, _ in x.conds if isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("In", "NotIn"))
                    if not fresh:
                        s.fail("overwritten", "the parts already collected for a row group are thrown away", i)
                elif isinstance(v, tuple) and v[0] == "tup":
                    fresh = any(isinstance(c, tuple) and c[0] == "cmp" and c[2] == args[1] and c[3] == cw and (c[1] == "NotIn") == lab for c, lab, _ in x.conds if isinstance(c, tuple) and c[0] == "cmp" and c[1] in ("In", "NotIn"))
                    if not fresh:
                        s.fail("overwritten", "the parts already collected for a row group are thrown away", i)
                    for y in v[1:]:
                        got.append((args[1], y, i))
                else:
                    raise AnchorError(f"{s.name}: collected parts not resolved")
        lo = Lin(0, {("max", S, G0): 1})
        hi = Lin(0, {("min", E, G1): 1})
        empty = implies(facts, lo - hi)
        if not got:
            if not empty:
                s.fail("dropped", "rows of a range that lie in a row group are not read", end)
            continue
        if len(got) > 1:
            s.fail("duplicated", "rows of a range are read twice", got[1][2])
        key, v, i = got[0]
        if not equal(facts, lin(key), g[2]):
            s.fail("wrong-group", "rows are read from another row group than the one they lie in", i)
        a, b = item(v, Lin(0)), item(v, Lin(1))
        if not equal(facts, lin(a), lo - G0) or not equal(facts, lin(b), hi - G0):
            if empty and implies(facts, lin(a) - lin(b)):
                continue
            s.fail("wrong-rows", f"of a row group, [{brief(a)}, {brief(b)}) is read instead of the part of the range that lies in it", i)
    if not n:
        raise AnchorError(f"{s.name}: no path through the matching loop")


def key_of(x, recv, cw):
    if isinstance(recv, tuple) and recv[0] == "item" and recv[1] == cw:
        return recv[2]
    if isinstance(recv, tuple) and recv[0] == "call" and recv[1] == "setdefault" and recv[2] == cw and recv[3]:
        return recv[3][0]
    if isinstance(recv, tuple) and recv[0] == "new":
        for i, args, _ in x.events:
            if i.op == "setitem" and args[0] == cw and args[2] == recv:
                return args[1]
    return None


def walk(v, depth=0):
    yield v
    if depth > 8:
        return
    if isinstance(v, Lin):
        for a, _ in v.m:
            yield from walk(a, depth + 1)
    elif isinstance(v, tuple):
        for x in v:
            if isinstance(x, (tuple, Lin)):
                yield from walk(x, depth + 1)


def exit_ok(s, h, p, r, off):
    """The loop ends only when one of the two lists is used up."""
    fl = s.fl
    for c, lab, i in reversed(r.conds):
        if isinstance(c, tuple) and c[0] == "cmp":
            for f in of_cmp(c, lab):
                if not isinstance(f, Lin):
                    continue
                for a, k in f.m:
                    ln = a[3][0] if isinstance(a, tuple) and a[0] == "call" and a[1] == "len" and len(a[3]) == 1 else None
                    if ln is None and isinstance(a, tuple) and a[0] == "t" and a[1][0] == "attr" and a[1][2] == "num_row_groups":
                        ln = wrap(off)
                    if ln is None or k != -1:
                        continue
                    lists = ln == wrap(off) or isinstance(ln, tuple) and ln[0] == "t" and s.mine(ln[1])
                    rest = f + Lin(0, {a: 1})
                    if lists and rest.c <= 0 and len(rest.m) == 1 and next(iter(rest.m))[0][0] == "var":
                        # var + c >= len  =>  used up
                        return
    s.fail("ends-early", "the ranges stop being matched to row groups before either is used up", p[-1][0])


def offsets_list(s):
    """List of (first row, end row) of the groups."""
    fl = s.fl
    out = []
    for h in fl.g.of("next"):
        src = loop_source(fl, h)
        if groups_range(src):
            out.append(h)
    cands = []
    for h in out:
        for i in body_of(h):
            if i.op == "call" and last(i.fn) == "append" and i.recv is not None and fl.term(i.recv)[0] == "list0":
                cands.append((h, i))
    if len(cands) != 1:
        raise AnchorError(f"{s.name}: offsets of the row groups not found")
    s.off_head, s.off_app = cands[0]
    return fl.term(cands[0][1].recv)


def groups_range(t):
    return t[0] == "call" and t[1] == "range" and len(t[3]) == 1 and contains(t[3][0], lambda x: x[0] == "attr" and x[2] == "num_row_groups") and t[3][0][0] == "attr"


def offsets(s):
    fl = s.fl
    offsets_list(s)
    h = s.off_head
    havoc = stored_in(body_of(h))
    for kind, p in loop_paths(fl, h):
        if kind != "loop":
            if kind != "raise":
                s.fail("offsets", "not all row groups are considered", p[-1][0])
            continue
        r = execute(fl, p, havoc)
        if r is None:
            continue
        s.ctx.count("offset_paths")
        app = [(i, a) for i, a, rv in r.events if i.op == "call" and last(i.fn) == "append" and rv == wrap(fl.term(s.off_app.recv))]
        if len(app) != 1:
            s.fail("offsets", "a row group has no entry in the list of offsets: later groups are read under the wrong number", s.off_app)
            continue
        a, b = lin(item(app[0][1][0], Lin(0))), lin(item(app[0][1][0], Lin(1)))
        n = b - a
        at = [x for x, k in n.m]
        rows = at[0] if len(at) == 1 and n.c == 0 and dict(n.m)[at[0]] == 1 else None
        e = elem_of(r, h)
        ok = isinstance(rows, tuple) and rows[0] == "attr" and rows[2] == "num_rows" and isinstance(rows[1], tuple) and rows[1][0] == "call" and rows[1][1] == "row_group" and rows[1][3] and lin(rows[1][3][0]) == lin(e)
        if not ok:
            s.fail("offsets", "the extent of a row group is not its number of rows", app[0][0])
        good = False
        for k in havoc:
            if a == lin(("var", k)) and init_values(fl, h, k) == 0 and equal(r.facts, lin(r.env.get(k, ("var", k))), b):
                good = True
        if not good:
            s.fail("offsets", "the first row of a row group is not the end of the group before it", app[0][0])


def read_phase(s):
    fl, ctx = s.fl, s.ctx
    c = container(s)
    ys = [i for i in fl.g.of("yield") if i.id in {x.id for x in body_of(s.outer)}]
    if len(ys) != 1:
        raise AnchorError(f"{s.name}: emitting loop not found")
    y = ys[0]
    t = fl.term(y.args[0])
    if not (t[0] == "call" and t[2] == s.parse and len(t[3]) == 1):
        s.fail("value", "an emitted value is not the parsing function applied to the row", y)
        return
    row = t[3][0]
    sl = [x for x in subterms(row) if x[0] == "call" and callname(x) == "slice"]
    if not sl:
        raise AnchorError(f"{s.name}: rows of a part not resolved")
    # loops around the yield, innermost first
    nest = [h for h in fl.g.of("next") if y in body_of(h) and h is not s.outer]
    nest.sort(key=lambda h: len(body_of(h)))
    first = True
    for n, h in enumerate(nest):
        src = loop_source(fl, h)
        ctx.count("read_loops")
        for kind, p in loop_paths(fl, h):
            r = execute(fl, p, stored_in(body_of(h)))
            if r is None or kind == "raise":
                continue
            hits = sum(1 for i, l in p if (i is y if not n else i is nest[n - 1]))
            if kind in ("break", "return"):
                s.fail("dropped", "reading a row group stops before all its parts were emitted", p[-1][0])
            elif hits > 1:
                s.fail("duplicated", "rows are emitted more than once", y)
            elif not hits:
                e = elem_of(r, h)
                if not implies(r.facts, lin(item(e, Lin(0))) - lin(item(e, Lin(1)))):
                    s.fail("dropped", "rows of a part are not emitted on some path", h)
    ok_key = False
    for x in sl:
        base = x[2]
        g = [z for z in subterms(base) if z[0] == "call" and callname(z) == "read_row_group"]
        if not g or not g[0][3]:
            raise AnchorError(f"{s.name}: table a part is taken from not resolved")
        k = g[0][3][0]
        if k != ("keyof", c):
            s.fail("wrong-group", "rows are taken from another row group than the part belongs to", y)
    for i in [i for i in fl.g.calls() if last(i.fn) == "slice" and i.id in {x.id for x in body_of(nest[0])} | {x.id for h in nest for x in body_of(h)}]:
        part = [h for h in nest if loop_source(fl, h) == ("valof", c) or loop_source(fl, h)[0] == "item" and loop_source(fl, h)[1] == c]
        if not part:
            raise AnchorError(f"{s.name}: loop over the parts not found")
        h = part[0]
        for kind, p in loop_paths(fl, h):
            r = execute(fl, p, stored_in(body_of(h)))
            if r is None:
                continue
            e = elem_of(r, h)
            a, b = lin(item(e, Lin(0))), lin(item(e, Lin(1)))
            for j, args, recv in r.events:
                if j is i:
                    ctx.count("slices")
                    kw = {k: r.v(v) for k, v in (i.kw or {}).items()}
                    o = lin(args[0]) if args else lin(kw["offset"]) if "offset" in kw else ZERO
                    ln = args[1] if len(args) > 1 else kw.get("length", ("const", None))
                    if not equal(r.facts, o, a) or ln == ("const", None) or not equal(r.facts, lin(ln), b - a):
                        s.fail("wrong-rows", "the rows taken from a row group are not those of the part", i)


# ------------------------------------------------------------------ numbering of web dataset samples
def tar_samples(ctx):
    c = ctx.proj.cls("IndexedTarSamples")
    m = ctx.proj.find_method(c, "__iter__")
    if m is None:
        return
    fl = ctx.flow(m, lambda *a: False, c)
    ys = fl.g.of("yield")
    n = 0
    for y in ys:
        t = fl.term(y.args[0])
        n += 1
        ok = t[0] == "item" and t[1] == ("self",) and t[2][0] == "elem" and t[2][1][0] == "call" and t[2][1][1] == "range" and len(t[2][1][3]) == 1 \
            and t[2][1][3][0][0] == "call" and t[2][1][3][0][1] == "len" and t[2][1][3][0][3] in ((("self",),), (("attr", ("self",), "samples"),))
        ctx.count("numbered_iterations")
        if t[0] not in ("item",):
            raise AnchorError("iteration over tar samples not resolved")
        if not ok:
            ctx.fail("tar-order", "iterating over the samples of a tar file does not visit them by increasing index: rows are numbered differently when indexing and when reading", y.loc)
    for h in fl.g.of("next"):
        for kind, p in loop_paths(fl, h):
            if kind == "raise":
                continue
            if kind != "loop" or sum(1 for i, _ in p if i.op == "yield") != 1:
                ctx.fail("tar-order", "iterating over the samples of a tar file leaves samples out or repeats them", h.loc)


# ------------------------------------------------------------------ files read through the server
def tunnel(ctx):
    c = ctx.proj.cls("ServerConnection")
    m = ctx.proj.find_method(c, "get_file_iterable")
    fl = ctx.flow(m, lambda *a: False, c)
    text = [i for i in fl.g.calls() if any(x[0] == "call" and callname(x) == "_fetch_file" for x in subterms(fl.term(i.dst)))]
    if not text:
        raise AnchorError("text fetched from the server not found")
    n = 0
    for y in fl.g.of("yield"):
        t = fl.term(y.args[0])
        src = [x for x in subterms(t) if x[0] == "call" and callname(x) in ("split", "splitlines", "StringIO")]
        if not src:
            raise AnchorError("lines of a fetched file not resolved")
        x = src[0]
        ctx.count("tunnelled_lines")
        good = callname(x) == "split" and x[3] == (("const", "\n"),) and not x[4] or callname(x) == "StringIO" and len(x[3]) == 1 and not x[4]
        if not good:
            ctx.fail("tunnel-lines", "lines of a file fetched from the server are split differently from lines of a local file: rows are numbered differently", y.loc)
        if t[0] != "elem":
            ctx.fail("tunnel-lines", "lines of a fetched file are changed or selected", y.loc) if t[0] == "call" and callname(t) not in ("rstrip", "strip") else None
    for h in fl.g.of("next"):
        for kind, p in loop_paths(fl, h):
            if kind == "raise":
                continue
            if kind != "loop" or sum(1 for i, _ in p if i.op == "yield") != 1:
                ctx.fail("tunnel-lines", "lines of a file fetched from the server are left out or repeated", h.loc)
    srv = ctx.proj.cls("MixteraServer")
    m = ctx.proj.find_method(srv, "_read_file")
    fl = ctx.flow(m, ctx.local_policy(m, srv), srv)
    w = [i for i in fl.g.calls() if last(i.fn) == "write_utf8_string" and i.args]
    if not w:
        raise AnchorError("reply with the file's text not found")
    for i in w:
        t = fl.term(i.args[0])
        if t[0] == "call" and callname(t) == "join":
            ctx.count("sent_files")
            if t[2] != ("const", ""):
                ctx.fail("tunnel-lines", "the lines of a file are sent joined by something else than what separates them in the file", i.loc)
