"""C17: the chunks and the samples inside them depend on nothing but catalog, query, mixture and seed.

An order-taint analysis over all functions between query execution and sample delivery.  Every value is described by the levels of its containers
whose iteration order is not determined (sets, directory listings, completion order, the index built by the C++ extension, shuffles that are not
properly seeded) and by whether the value itself depends on such an order or on another source that differs between runs (clock, process, hash,
unseeded draws).  Functions are summarised symbolically in their parameters; fields and parameters are joined over all their uses; the iterators
that hand out chunks and samples must come out clean."""
import ast

from .linear import *
from ..project import walk_scope, dotted
from ..sql import statements, norm, text
from .locks import LockSets

SCOPE = ("mixtera.core.query", "mixtera.core.datacollection.index", "mixtera.core.datacollection.datasets", "mixtera.core.algo", "mixtera.utils.utils",
         "mixtera.utils.prefetch_iterator", "mixtera.utils.tokenizing_iterator", "mixtera.utils.webdataset_utils")
BAD_ORDER = {"iterdir": "a directory listing", "glob": "a directory listing", "rglob": "a directory listing", "listdir": "a directory listing",
             "scandir": "a directory listing", "walk": "a directory listing", "iglob": "a directory listing",
             "imap_unordered": "the order in which workers finish", "as_completed": "the order in which workers finish"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference"}
ENTROPY = {"time.time", "time.time_ns", "time.monotonic", "time.monotonic_ns", "time.perf_counter", "time.perf_counter_ns", "time.process_time", "os.getpid", "os.getppid",
           "os.urandom", "uuid.uuid1", "uuid.uuid4", "threading.get_ident", "threading.get_native_id", "secrets.token_hex", "secrets.token_bytes", "secrets.randbelow",
           "secrets.choice", "id", "hash", "datetime.datetime.now", "datetime.now", "datetime.datetime.utcnow", "threading.current_thread", "random.SystemRandom",
           "os.times", "random.getstate"}
SCHED = {"empty", "qsize", "full", "is_alive", "poll", "is_set", "done", "locked"}
PIDS = {"os.getpid", "os.getppid", "threading.get_ident", "threading.get_native_id"}
KEEP = {"list", "tuple", "iter", "reversed", "deepcopy", "copy", "dict", "OrderedDict", "filter", "chain", "from_iterable", "tqdm", "asarray", "array", "to_numpy_array",
        "cast", "peekable", "tee"}
DRAWS = {"random", "randint", "randrange", "choice", "choices", "sample", "uniform", "shuffle", "gauss", "normalvariate", "getrandbits", "permutation", "permuted", "rand",
         "randn", "integers", "normal", "betavariate", "expovariate", "triangular", "bytes", "random_sample", "multinomial", "standard_normal", "poisson", "binomial"}
CLEAN = {"len", "sum", "any", "all", "isinstance", "min", "max", "issubset", "issuperset", "isdisjoint", "Counter", "type", "bool", "abs", "fsum"}
DEPTH = 4
TOP = frozenset()


def run(ctx):
    ctx.rule("Every function between query execution and sample delivery is evaluated over container levels of undetermined iteration order (sets, directory listings, completion order, the index of "
             "the C++ extension, shuffles) and values depending on them or on clock, process, hash or unseeded draws; sorted()/.sort() with a key without ties, commutative folds, membership and access "
             "by key remove the dependence. Draws from the process-wide generators count as determined only if seeded on every path before, from a determined seed, under one lock held from seeding to "
             "drawing. No iterator over chunks or samples, and no part of a chunk, may depend on such an order or value. The statement selecting the samples orders its rows by the interval start.")
    w = World(ctx)
    ctx.count("functions analysed for order", len(w.fns))
    ctx.count("rounds", w.run())
    ctx.part(delivered, ctx, w)
    ctx.part(chunk_parts, ctx, w)
    ctx.part(selection, ctx)
    ctx.part(schedule, ctx, w)
    ctx.floor("delivering iterators", 6)


def delivered(ctx, w):
    """Iterators that hand out chunks and samples."""
    owners = [ctx.proj.cls("QueryResult"), ctx.proj.cls("ResultChunk")]
    ds = ctx.proj.cls("Dataset")
    owners += list(ctx.proj.subclasses(ds)) + [ds]
    quals = {c.qual for c in owners}
    srcs = 0
    for a in w.fns.values():
        f = a.f
        srcs += sum(1 for i in a.fl.g.calls() if a.is_index(i))
        if not (f.cls is not None and f.cls.qual in quals or f.module.name.startswith("mixtera.utils") and f.name == "__next__"):
            continue
        if not (f.is_gen or f.name == "__next__"):
            continue
        if f.name.startswith("inform"):
            continue
        ctx.count("delivering iterators")
        v = w.concrete(w.R.get(f.qual, BOT))
        for c in sorted(v.at(0)):
            ctx.fail(f"order:{f.name}", f"the order in which {f.qual.split('.', 2)[-1]} delivers is not determined: it follows {c}", f.loc)
        for c in sorted(v.n | TOP.union(*v.lv[1:], TOP)):
            ctx.fail(f"value:{f.name}", f"what {f.qual.split('.', 2)[-1]} delivers is not determined: it depends on {c}", f.loc)
    ctx.count("index sources", srcs)
    if not srcs:
        raise AnchorError("the place where the index is built was not found")


def chunk_parts(ctx, w):
    """What a chunk consists of."""
    c = ctx.proj.cls("ResultChunk")
    init = ctx.proj.find_method(c, "__init__")
    if init is None:
        raise AnchorError("constructor of ResultChunk not found")
    for p in init.params()[1:]:
        v = w.P.get((init.qual, p), BOT)
        ctx.count("parts of a chunk")
        for x in sorted(v.n):
            ctx.fail(f"part:{p}", f"{p} of a chunk is not determined: it depends on {x}", init.loc)


def selection(ctx):
    """The rows the index is built from."""
    m = ctx.proj.find_method(ctx.proj.cls("Query"), "execute")
    fl = ctx.flow(m, None, ctx.proj.cls("Query"), key="order-sql")
    found = 0
    for i in fl.g.calls():
        if i.target is None or not hasattr(i.target, "methods") or i.target.name != "QueryResult":
            continue
        t = arg_term(i, fl, 1, "results")
        if t is None:
            raise AnchorError("rows handed to the query result not recognised")
        for x in alts(t):
            n = 0
            while x[0] == "call" and callname(x) not in ("execute", "sql", "query") and n < 6:
                if callname(x) in ("sort_by", "sort") and x[2] is not None:
                    break
                x, n = x[2] if x[2] is not None else ("none",), n + 1
            if x[0] == "call" and callname(x) in ("sort_by", "sort"):
                found += 1
                if not contains(("t", x[3], x[4]), lambda y: y[0] == "const" and y[1] == "interval_start"):
                    ctx.fail("rows", "the rows the index is built from are not sorted by the start of the interval", i.loc)
            elif x[0] == "call":
                ins = fl.g.ins[x[5]]
                for st in statements(fl, ins):
                    found += 1
                    ob = order_by(norm(text(st.alt)))
                    ctx.sample(f"{ins.loc}: rows ordered by {ob[:60]!r}")
                    if "interval_start" not in ob:
                        ctx.fail("rows", "the rows the index is built from are in no determined order: the statement does not order them by the start of the interval", ins.loc)
    if not found:
        raise AnchorError("statement selecting the samples not found")
    ctx.count("row selections", found)


GIVEUP = ("Empty", "queue.Empty", "TimeoutError", "asyncio.TimeoutError", "concurrent.futures.TimeoutError", "BlockingIOError", "TimeoutExpired")


def schedule(ctx, w):
    """Readers in other processes: whose turn it is does not depend on who is faster."""
    for a in w.fns.values():
        g, fl = a.fl.g, a.fl
        ids = {c.qual for c in (ctx.proj.cls("QueryResult"), ctx.proj.cls("ResultChunk"))}
        if not (a.f.cls is not None and a.f.cls.qual in ids or a.f.module.name.startswith("mixtera.utils")):
            continue
        for i in g.calls():
            if last(i.fn) in ("get", "get_nowait", "recv") and i.target is None and i.recv is not None and queue_like(fl, i):
                ctx.count("receptions")
                may_wait(ctx, a, i)
            if last(i.fn) in ("Process", "Thread") and (i.kw or {}).get("args") is not None:
                own_queue(ctx, a, i)
    ctx.floor("receptions", 1)


def queue_like(fl, i):
    """A reception, not a look-up by key."""
    return last(i.fn) != "get" or not i.args or "timeout" in (i.kw or {}) or "block" in (i.kw or {}) or fl.term(i.args[0]) in (("const", True), ("const", False))


def may_wait(ctx, a, i):
    """If nothing has arrived, the same source is asked again or the reading fails; nothing else is delivered instead."""
    g = a.fl.g
    dep = [h for h in a.nexts if i.id in a.body[h.id] and a.from_loop(i.recv, h)]
    for d in g.live:
        if d.op != "dispatch" or not any(s is d for s, l in i.succ if l == "exc"):
            continue
        for hd in [s for s, _ in d.succ if s.op == "handler"]:
            names = hd.data or []
            if names and not any(n in GIVEUP or last(n) in GIVEUP for n in names) and not any(last(n) in ("Exception", "BaseException") for n in names):
                continue
            ctx.count("receptions that may time out")
            for x in reach([hd], stop=lambda x: x is i, exc=False):
                if x in dep or x.op in ("yield", "exit") or x.op == "setitem":
                    what = {"next": "the next source is asked", "yield": "something else is delivered", "exit": "the reading ends"}.get(x.op, "something else is stored")
                    ctx.fail(f"turn:{a.f.name}", f"if nothing has arrived yet, {what} ({x.loc}), so that what is delivered follows the speed of the readers", i.loc)
                    break


def own_queue(ctx, a, i):
    """Each reader writes to a queue of its own."""
    d = a.fl.g.tempdef.get((i.kw or {})["args"])
    if d is None or d.op not in ("tuple", "list"):
        return
    for t in d.args:
        for o, k in a.origins(t):
            c = a.fl.g.ins[o] if isinstance(o, int) else None
            if c is None or c.op != "call" or last(c.fn) not in ("Queue", "SimpleQueue", "JoinableQueue") or k:
                continue
            ctx.count("queues of readers")
            if any(i.id in a.body[h.id] and c.id not in a.body[h.id] for h in a.nexts):
                ctx.fail(f"shared:{a.f.name}", "several readers write to the same queue, so that their samples arrive in the order in which they were read", i.loc)


def order_by(sql):
    """Text after the outermost ORDER BY."""
    depth, at = 0, None
    for k, ch in enumerate(sql):
        depth += (ch == "(") - (ch == ")")
        if depth == 0 and sql[k:k + 9].lower() == "order by ":
            at = k + 9
    return sql[at:] if at else ""


class AV:
    """lv: per container level the causes of its order being undetermined; n: causes of the value itself being undetermined."""
    __slots__ = ("lv", "n", "kind")

    def __init__(self, lv=(), n=TOP, kind=None):
        lv = tuple(lv)[:DEPTH]
        while lv and not lv[-1]:
            lv = lv[:-1]
        self.lv, self.n, self.kind = lv, n, kind

    def at(self, k):
        return self.lv[k] if k < len(self.lv) else TOP

    def key(self):
        return (self.lv, self.n, self.kind)

    def down(self):
        return AV(self.lv[1:], self.n)

    def __bool__(self):
        return bool(self.lv or self.n)


BOT = AV()


def cut(s):
    """Few representatives are enough."""
    if len(s) <= 3:
        return s
    sym = sorted((x for x in s if not isinstance(x, str)), key=str)
    return frozenset(sorted(x for x in s if isinstance(x, str))[:3] + sym[:16])


def J(*vs):
    vs = [v for v in vs if v is not None]
    if not vs:
        return BOT
    if len(vs) == 1:
        return vs[0]
    d = max(len(v.lv) for v in vs)
    kinds = {v.kind for v in vs if v.kind is not None or v}
    return AV([cut(TOP.union(*(v.at(k) for v in vs))) for k in range(d)], cut(TOP.union(*(v.n for v in vs))), kinds.pop() if len(kinds) == 1 else None)


class World:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.proj
        self.P, self.R, self.F, self.S = {}, {}, {}, {}
        self.sorts = set()  # (function, parameter) sorted in place
        self.shuffles = {}  # (function, parameter) -> causes for which it is left in no determined order
        self.rng = TOP  # causes for which no draw is reproducible
        self.locks = {}
        self.changed = False
        self.funcs = [f for f in self.p.funcs.values() if f.module.name.startswith(SCOPE) and not f.is_abstract]
        self.byname = {}
        for f in self.funcs:
            if f.cls is not None and f.parent is None:
                self.byname.setdefault(f.name, []).append(f)
        self.props = {n for n, fs in self.byname.items() if all(f.is_property for f in fs)}
        self.fns = {}
        self.callers = {}  # function -> [(analysis of the caller, call)]
        for f in self.funcs:
            self.fns[f.qual] = Fn(self, f)
        for a in self.fns.values():
            for i in a.fl.g.calls():
                for t in a.targets(i):
                    self.callers.setdefault(t.qual, []).append((a, i))
        self.draw_order()

    def run(self):
        for rnd in range(14):
            self.changed = False
            for a in self.fns.values():
                a.round()
            if not self.changed:
                return rnd
        raise AnchorError("order analysis does not settle")

    def put(self, m, k, v):
        o = m.get(k, BOT)
        n = J(o, v)
        if n.lv != o.lv or n.n != o.n:
            m[k] = n
            self.changed = True
        elif k not in m:
            m[k] = n

    def badseed(self, kind):
        """Causes for which the seed of a process-wide generator is not determined."""
        return self.S.get(kind, BOT).n

    # -- parameters
    def ground(self, s):
        """Causes with parameters replaced by what the callers pass."""
        out = set()
        for c in s:
            if isinstance(c, str):
                out.add(c)
            else:
                v = self.P.get(c[:2])
                if v is not None:
                    out |= v.n if c[2] == "n" else v.at(c[2])
        return cut(frozenset(c for c in out if isinstance(c, str)))

    def concrete(self, v):
        return AV([self.ground(x) for x in v.lv], self.ground(v.n), v.kind)

    # -- draws
    def draw_order(self):
        """Where draws are seeded and under which lock seeding and drawing exclude other threads."""
        locks = set()
        for a in self.fns.values():
            for i in a.fl.g.calls():
                if a.module_of(i) and last(i.fn) == "seed" and not self.locked(a, i):
                    self.rng |= {f"{i.loc}: the process-wide generator is seeded without a lock, so another thread can seed or draw in between"}
                d = a.draw_of(i)
                if d and d[0] != "own":
                    self.ctx.count("draws")
                    why = self.reproducible(a, i, d[0])
                    a.bad_draw[i.id] = why
                    if why is None:
                        locks |= {self.locked(a, i)}
                    self.ctx.sample(f"{i.loc}: {i.fn}() " + ("seeded under a lock" if why is None else "result is in no determined order: " + why))
        if len(locks) > 1:
            self.rng |= {"different locks protect the seeding of the process-wide generator: " + ", ".join(sorted(show(x)[:50] for x in locks))}

    def locked(self, a, i, depth=0):
        """A lock held whenever i runs, in its function or in all callers."""
        for l, _ in sorted(a.ls.must.get(i.id, ()), key=str):
            return strip_ids(l)
        if depth > 3:
            return None
        cs = self.callers.get(a.f.qual, [])
        got = {self.locked(b, c, depth + 1) for b, c in cs}
        if not cs and self.ctx is not None and a.seed_of(i):
            return ("unused",)
        got.discard(("unused",))
        return got.pop() if len(got) == 1 else None

    def reproducible(self, a, i, kind, depth=0):
        """None, or the reason why the draw at i is not reproducible."""
        seeds = [s for s in a.fl.g.calls() if kind in a.seed_of(s)]
        if seeds:
            ids = {s.id for s in seeds}
            bad, _ = must_pass(a.fl, a.fl.g.entry, lambda x: x is i, lambda x: x.id in ids)
            if not bad:
                l = self.locked(a, i)
                if l is None:
                    return "it is drawn from the process-wide generator without a lock, so another thread can seed or draw in between"
                own = [x for x, _ in a.ls.must.get(i.id, ())]
                if own and not any(a.ls.same_region(s, i, x) for s in seeds for x in own):
                    return "the lock is given up between seeding and drawing"
                return None
        if depth < 3:
            cs = self.callers.get(a.f.qual, [])
            if cs:
                why = [self.reproducible(b, c, kind, depth + 1) for b, c in cs]
                if not any(why):
                    return None
                return next(w for w in why if w)
        return "it is drawn without being seeded on every path before"


class Fn:
    def __init__(self, w, f):
        self.w, self.f = w, f
        self.fl = fl = w.ctx.flow(f, lambda fi, call, fr: fi.parent is not None, f.cls, key="order")
        g = fl.g
        self.nexts = [h for h in g.of("next")]
        self.body = {h.id: {x.id for x in body_of(h)} for h in self.nexts}
        self.ls = LockSets(fl)
        self.bad_draw = {}
        self.memo, self.prev, self.stack = {}, {}, set()
        self._org = {}
        self.muts = {}  # creation -> [(instruction, level, kind, key temp, value temp)]
        self.store_at = {}
        self.uses = {}
        for i in g.live:
            for a in tuple(i.args) + ((i.recv,) if i.recv is not None else ()) + tuple((i.kw or {}).values()):
                if a is not None:
                    self.uses.setdefault(a, []).append(i)
        self.ctl = None

    def loc(self, i, what):
        return f"{i.loc}: {what}"

    # -------------------------------------------------------------- calls
    def targets(self, i):
        t = i.target
        w = self.w
        if t is not None and hasattr(t, "methods"):
            m = w.p.find_method(t, "__init__")
            return [m] if m is not None and m.qual in w.fns else []
        if t is not None:
            out = [t]
            if t.cls is not None and t.parent is None:
                for s in w.p.subclasses(t.cls):
                    if t.name in s.methods:
                        out.append(s.methods[t.name])
            return [x for x in out if x.qual in w.fns]
        if i.recv is not None and i.fn and i.fn.startswith(".") and i.data in w.byname and i.data not in KNOWN_METHODS:
            return [x for x in w.byname[i.data] if not x.is_property]
        return []

    def binding(self, i, t):
        """parameter -> temp of the argument."""
        ps = t.all_params()
        pos = t.params()
        if t.cls is not None and t.parent is None and not t.is_static and pos:
            pos = pos[1:]
        out = {}
        for n, a in zip(pos, i.args):
            out[n] = a
        for k, a in (i.kw or {}).items():
            if k in ps:
                out[k] = a
        return out

    # -------------------------------------------------------------- randomness
    def module_of(self, i):
        fn = i.fn or ""
        if fn.startswith("random."):
            return "random"
        if fn.startswith(("numpy.random.", "np.random.")):
            return "numpy"
        return None

    def seed_of(self, i, depth=0):
        """Generators seeded by the call on every path."""
        if i.op != "call":
            return set()
        m = self.module_of(i)
        if m is not None:
            return {m} if last(i.fn) == "seed" and i.args and self.fl.term(i.args[0]) != ("const", None) else set()
        if i.target is None or hasattr(i.target, "methods") or depth > 4:
            return set()
        b = self.w.fns.get(i.target.qual)
        if b is None:
            return set()
        if b.ctl is None:
            b.ctl = set()
            for k in ("random", "numpy"):
                ids = {s.id for s in b.fl.g.calls() if k in b.seed_of(s, depth + 1)}
                if ids:
                    bad, _ = must_pass(b.fl, b.fl.g.entry, lambda x: x.op == "exit", lambda x: x.id in ids, follow_exc=False)
                    if not bad:
                        b.ctl.add(k)
        return b.ctl

    def draw_of(self, i):
        """("random"|"numpy"|"own", generator temp) if the call draws."""
        n = last(i.fn)
        m = self.module_of(i)
        if m is not None:
            if n in DRAWS:
                return (m, None)
            if n in ("Random", "default_rng", "RandomState"):
                return None
            return None
        if i.recv is not None and n in DRAWS:
            t = self.fl.term(i.recv)
            if any(is_call_term(x, "Random", "SystemRandom", "default_rng", "RandomState") for x in alts(t)):
                return ("own", i.recv)
            if t[0] == "attr" and self.made(t[2]):
                return ("own", i.recv)
        return None

    def made(self, field):
        """Creations of generators stored in the field: (analysis, call)."""
        m = self.w.__dict__.setdefault("_made", None)
        if m is None:
            m = self.w._made = {}
            for a in self.w.fns.values():
                for x in a.fl.g.of("setattr"):
                    for y in alts(a.fl.term(x.args[1])):
                        if is_call_term(y, "Random", "SystemRandom", "default_rng", "RandomState"):
                            m.setdefault(x.data, []).append((a, a.fl.g.ins[y[5]]))
        return m.get(field, [])

    # -------------------------------------------------------------- origins of containers
    def origins(self, t, depth=0):
        if t in self._org:
            return self._org[t]
        d = self.fl.g.tempdef.get(t)
        if d is None or depth > 40:
            return set()
        self._org[t] = set()
        out = set()
        rec = lambda x: self.origins(x, depth + 1)
        if d.op == "load":
            for s in self.fl.rdefs(d, d.data):
                if s is not None:
                    out |= rec(s.args[0])
        elif d.op in ("alias", "await"):
            out |= rec(d.args[0])
        elif d.op == "item":
            k = self.fl.g.tempdef.get(d.args[1])
            if k is None or k.op != "slice":
                out |= {(o, n + 1) for o, n in rec(d.args[0])}
        elif d.op == "attr":
            out.add((("F", d.data), 0))
        elif d.op == "param":
            out.add((("P", d.data), 0))
        elif d.op == "call":
            n = last(d.fn)
            if n in ("setdefault", "get") and d.recv is not None and d.target is None:
                out |= {(o, k + 1) for o, k in rec(d.recv)}
            elif n == "cast" and len(d.args) > 1:
                out |= rec(d.args[1])
            else:
                out.add((d.id, 0))
        elif d.op == "next":
            out |= {(o, n + 1) for o, n in self.view(d.args[0], "values", depth)}
        elif d.op == "unpack" and d.data == 1:
            b = self.fl.g.tempdef.get(d.args[0])
            if b is not None and b.op == "next":
                out |= {(o, n + 1) for o, n in self.view(b.args[0], "items", depth)}
        elif d.op in ("list", "dict", "set", "newcomp"):
            out.add((d.id, 0))
        self._org[t] = out
        return out

    def view(self, t, kind, depth):
        """Origins of the dictionary an iteration over .values()/.items() (in any order) ranges over."""
        d = self.fl.g.tempdef.get(t)
        n = 0
        while d is not None and n < 8:
            n += 1
            if d.op in ("iter", "alias"):
                d = self.fl.g.tempdef.get(d.args[0])
            elif d.op == "call" and last(d.fn) in ("sorted", "list", "tuple", "reversed", "tqdm") and d.args:
                d = self.fl.g.tempdef.get(d.args[0])
            elif d.op == "call" and last(d.fn) == kind and d.recv is not None:
                return self.origins(d.recv, depth + 1)
            elif d.op == "load":
                ss = self.fl.rdefs(d, d.data)
                if len(ss) != 1 or ss[0] is None:
                    return set()
                d = self.fl.g.tempdef.get(ss[0].args[0])
            else:
                return set()
        return set()

    # -------------------------------------------------------------- one round
    def round(self):
        w, g, f = self.w, self.fl.g, self.f
        self.prev, self.memo = self.memo, {}
        self._uh = {h.id: None for h in self.nexts}
        self._ctl = None
        self.collect()
        self._state = {}
        for _ in range(2):
            for i in g.live:
                if i.dst is not None:
                    self.av(i.dst)
            self.prev, self.memo = self.memo, {}
            self._uh = {h.id: None for h in self.nexts}
            self._state = {}
        for i in g.live:
            if i.op == "return" and i.frame is g.frames[0]:
                v = self.av(i.args[0])
                u = self.late(i)
                c = self.fl.term(i.args[0])
                if c[0] != "const" and u:
                    v = J(v, AV((), u))
                k = self.control(i)
                if k and not c == ("const", None):
                    v = J(v, AV((), k))
                if k and f.is_gen:
                    v = J(v, AV((), k))
                if not f.is_gen:
                    w.put(w.R, f.qual, v)
                elif k:
                    w.put(w.R, f.qual, AV((), k))
            elif i.op == "yield":
                v = self.av(i.args[0])
                u = TOP.union(*(self.uh(h) for h in self.nexts if i.id in self.body[h.id]), TOP)
                w.put(w.R, f.qual, AV((u,) + v.lv, v.n | self.control(i), None))
            elif i.op == "setattr":
                v = self.av(i.args[1])
                w.put(w.F, i.data, w.concrete(J(v, AV((), self.control(i) | self.late(i) if self.fl.term(i.args[1])[0] != "const" else TOP))))
            elif i.op == "call":
                if self.module_of(i) and last(i.fn) == "seed" and i.args:
                    v = w.concrete(self.av(i.args[0]))
                    w.put(w.S, self.module_of(i), AV((), v.n | v.at(0)))
                for t in self.targets(i):
                    for n, a in self.binding(i, t).items():
                        w.put(w.P, (t.qual, n), w.concrete(self.av(a)))
                tgt = (i.kw or {}).get("target")
                if tgt is not None and (i.kw or {}).get("args") is not None:
                    self.thread(i, tgt, i.kw["args"])
                if isinstance(i.target, object) and hasattr(i.target, "methods") and not self.targets(i):
                    ann = [s.target.id for s in i.target.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)]
                    for n, a in list(zip(ann, i.args)) + list((i.kw or {}).items()):
                        if n in ann:
                            w.put(w.F, n, w.concrete(self.av(a)))
        # fields changed in place
        for o in self.muts:
            if isinstance(o, tuple) and o[0] == "F":
                w.put(w.F, o[1], w.concrete(self.content(o)))
        # parameters sorted or shuffled in place
        for p in f.params():
            for i, lvl, kind, _, _ in self.muts.get(("P", p), ()):
                why = self.shuffled(i, p) if kind in ("shuffle", "shuffled") and lvl == 0 else TOP
                if kind == "shuffled" and why or kind == "shuffle":
                    o = w.shuffles.get((f.qual, p), TOP)
                    if not why <= o:
                        w.shuffles[(f.qual, p)] = cut(o | why)
                        w.changed = w.changed or w.shuffles[(f.qual, p)] != o
            if ("P", p) in self.muts and any(k == "sort" and l == 0 for _, l, k, _, _ in self.muts[("P", p)]):
                st = self.states(("P", p))
                if not st.get(g.exit.id, True) and (f.qual, p) not in w.sorts:
                    w.sorts.add((f.qual, p))
                    w.changed = True

    def thread(self, i, tgt, args):
        d = self.fl.g.tempdef.get(args)
        t = self.fl.term(tgt)
        fs = []
        if t[0] == "attr":
            fs = self.w.byname.get(t[2], [])
        elif t[0] == "fn":
            fs = [self.w.p.funcs[t[1]]] if t[1] in self.w.fns else []
        if d is None or d.op not in ("tuple", "list"):
            return
        for x in fs:
            ps = x.params()
            if x.cls is not None and not x.is_static and ps:
                ps = ps[1:]
            for n, a in zip(ps, d.args):
                self.w.put(self.w.P, (x.qual, n), self.w.concrete(self.av(a)))

    def collect(self):
        if self.muts or getattr(self, "_collected", False):
            self._sortcalls()
            return
        self._collected = True
        g = self.fl.g

        def add(t, i, kind, k=None, v=None, dl=0):
            for o, n in self.origins(t):
                self.muts.setdefault(o, []).append((i, n + dl, kind, k, v))

        for i in g.live:
            if i.op == "setitem":
                add(i.args[0], i, "set", i.args[1], i.args[2])
            elif i.op == "call" and i.recv is not None and i.target is None:
                n = last(i.fn)
                if n in ("append", "add", "appendleft", "put") and i.args and n != "put":
                    add(i.recv, i, "set", None, i.args[0])
                elif n == "insert" and len(i.args) > 1:
                    add(i.recv, i, "set", None, i.args[1])
                elif n == "setdefault" and i.args:
                    add(i.recv, i, "set", i.args[0], i.args[1] if len(i.args) > 1 else None)
                elif n in ("extend", "update") and i.args:
                    add(i.recv, i, "merge", None, i.args[0])
                elif n == "sort":
                    add(i.recv, i, "sort", None, (i.kw or {}).get("key"))
            if i.op == "call":
                d = self.draw_of(i)
                if d and last(i.fn) in ("shuffle",) and i.args:
                    add(i.args[0], i, "shuffle", None, i.args[0])
            if i.op == "bin" and i.data == "Add" and isinstance(i.node, ast.AugAssign):
                add(i.args[0], i, "merge", None, i.args[1])
        self._sortcalls()

    def _sortcalls(self):
        """Helpers of the project that sort an argument in place."""
        done = self.__dict__.setdefault("_sc", set())
        if not self.w.sorts and not self.w.shuffles:
            return
        for i in self.fl.g.calls():
            for t in self.targets(i):
                for n, a in self.binding(i, t).items():
                    if (t.qual, n) in self.w.shuffles and (i.id, n, "s") not in done:
                        done.add((i.id, n, "s"))
                        for o, k in self.origins(a):
                            self.muts.setdefault(o, []).append((i, k, "shuffled", None, a))
                    if (t.qual, n) in self.w.sorts and (i.id, n) not in done:
                        done.add((i.id, n))
                        for o, k in self.origins(a):
                            self.muts.setdefault(o, []).append((i, k, "sort", None, None))

    # -------------------------------------------------------------- loops
    def uh(self, h):
        """Causes for the iteration at h being in no determined order."""
        if self._uh.get(h.id) is None:
            self._uh[h.id] = TOP
            self._uh[h.id] = self.av(h.args[0]).at(0)
        return self._uh[h.id]

    def uloops(self, i):
        return [h for h in self.nexts if i.id in self.body[h.id] and self.uh(h)]

    def late(self, i):
        """A return from inside a loop over something unordered: which element it sees first decides."""
        out = TOP
        for h in self.nexts:
            if i.id in self.leaving(h) and self.uh(h):
                out |= self.uh(h)
        return out

    def leaving(self, h):
        """Instructions after h delivered an element that never come back to h, before the loop's own end is passed."""
        k = "_leave"
        m = self.__dict__.setdefault(k, {})
        if h.id not in m:
            first = [s for s, l in h.succ if l == "next"]
            after = {x.id for x in reach([s for s, l in h.succ if l == "stop"], exc=False)}
            m[h.id] = {x.id for x in reach(first, stop=lambda x: x is h, exc=False) if x.id not in self.body[h.id] and x.id not in after}
        return m[h.id]

    def control(self, i):
        """Causes of undetermined conditions that decide whether i runs."""
        if self._ctl is None:
            self._ctl = {}
            self._regions()
        return self._ctl.get(i.id, TOP)

    def _regions(self):
        g = self.fl.g
        for b in g.of("branch"):
            if not b.args:
                continue
            n = self.av(b.args[0]).n
            if not n:
                continue
            deps = self.decided(b)
            if any(x[0] == "call" and x[1] in PIDS for x in subterms(self.fl.term(b.args[0]))):
                sides = [{x.id: x for x in reach([s], exc=False)} for s, l in b.succ if l in (True, False)]
                if any(b.id not in s and all(self.harmless(x, deps) for x in s.values()) for s in sides):
                    continue  # a reader of another process gives up
            for k in deps:
                self._ctl[k] = cut(self._ctl.get(k, TOP) | n)

    def decided(self, b):
        """Instructions that run or do not run because of the branch (control dependence over normal completion)."""
        m = self.__dict__.setdefault("_deps", {})
        if b.id in m:
            return m[b.id]
        m[b.id] = out = set()
        pd = self.postdom()
        work = [b]
        seen = {b.id}
        while work:
            x = work.pop()
            if x.id not in pd:
                continue
            for s, l in x.succ:
                if l in ("exc", "exc-base") or s.id not in pd:
                    continue
                k = pd[s.id] & ~(pd[x.id] & ~(1 << x.id))
                while k:
                    j = (k & -k).bit_length() - 1
                    k &= k - 1
                    out.add(j)
                    y = self.fl.g.ins[j]
                    if j not in seen and len(y.succ) > 1:
                        seen.add(j)
                        work.append(y)
        return out

    def postdom(self):
        """Instruction -> set (bits) of those that follow it on every way to the normal end."""
        if self.__dict__.get("_pd") is None:
            g = self.fl.g
            ok = {g.exit.id}
            pred = {}
            for i in g.live:
                for s, l in i.succ:
                    if l not in ("exc", "exc-base"):
                        pred.setdefault(s.id, []).append(i)
            work, order = [g.exit.id], []
            while work:
                k = work.pop(0)
                for i in pred.get(k, ()):
                    if i.id not in ok:
                        ok.add(i.id)
                        order.append(i)
                        work.append(i.id)
            full = 0
            for k in ok:
                full |= 1 << k
            pd = {k: full for k in ok}
            pd[g.exit.id] = 1 << g.exit.id
            change = True
            while change:
                change = False
                for i in order:
                    v = full
                    for s, l in i.succ:
                        if l not in ("exc", "exc-base") and s.id in ok:
                            v &= pd[s.id]
                    v |= 1 << i.id
                    if v != pd[i.id]:
                        pd[i.id] = v
                        change = True
            self._pd = pd
        return self._pd

    def harmless(self, i, diff):
        """Nothing is delivered or changed (other than announcing the end of a reader)."""
        if i.op in ("yield", "setitem", "setattr", "delitem"):
            return False
        if i.op == "store":
            return not any(d.id not in diff and any(s is i for s in self.fl.rdefs(d, d.data)) for d in self.fl.g.of("load") if d.data == i.data)
        if i.op == "call" and last(i.fn) in ("append", "add", "extend", "put", "update", "put_nowait"):
            return last(i.fn) in ("put", "put_nowait") and bool(i.args) and "EndOfStream" in str(self.fl.term(i.args[0])) + " " or \
                last(i.fn) in ("put", "put_nowait") and bool(i.args) and "END_OF_STREAM" in str(self.fl.term(i.args[0]))
        return True

    # -------------------------------------------------------------- container contents
    def content(self, o):
        """What was put into container o: levels and values."""
        out = []
        for i, lvl, kind, k, v in self.muts.get(o, ()):
            if kind == "sort":
                if self.key_bad(k if k is not None else v):
                    out.append(AV((TOP,) * lvl + (self.key_bad(v),)))
                continue
            if kind in ("shuffle", "shuffled"):
                out.append(AV((TOP,) * lvl + (self.shuffled(i),)))
                continue
            u = self.control(i)
            hs = [h for h in self.uloops(i) if not (isinstance(o, int) and o in self.body[h.id])]
            lv = [TOP] * (lvl + 1)
            for h in hs:
                for j in self.levels(i, h, lvl, k):
                    if j or not lvl or not self.is_list(o):
                        lv[j] = lv[j] | self.uh(h)
            val = self.av(v) if v is not None else BOT
            kn = self.av(k).n if k is not None else TOP
            if kind == "merge":
                lv[lvl] = lv[lvl] | val.at(0)
                out.append(AV(tuple(lv) + val.lv[1:], val.n | u))
            else:
                out.append(AV(tuple(lv) + val.lv, val.n | kn | u))
        return J(*out) if out else BOT

    def is_list(self, o):
        """Writing to an element of a list leaves its order as it is."""
        c = self.fl.g.ins[o] if isinstance(o, int) else None
        return c is not None and (c.op == "list" or c.op == "newcomp" and c.data == "list")

    def levels(self, i, h, lvl, k):
        """Levels 0..lvl whose keys are taken from the loop h at insertion i."""
        keys = []
        d = i
        t = i.args[0] if i.op == "setitem" else i.recv if i.op == "call" else None
        keys.append(k)
        n = 0
        while t is not None and n < 10:
            n += 1
            d = self.fl.g.tempdef.get(t)
            if d is None:
                break
            if d.op == "item":
                keys.append(d.args[1])
                t = d.args[0]
            elif d.op == "load":
                ss = self.fl.rdefs(d, d.data)
                t = ss[0].args[0] if len(ss) == 1 and ss[0] is not None else None
            elif d.op == "alias":
                t = d.args[0]
            elif d.op == "call" and last(d.fn) in ("setdefault", "get") and d.args:
                keys.append(d.args[0])
                t = d.recv
            else:
                break
        keys = keys[:lvl + 1][::-1]
        got = [j for j, x in enumerate(keys) if x is not None and self.from_loop(x, h)]
        if len(keys) == lvl + 1 and got:
            return got
        return [lvl]

    def from_loop(self, t, h, depth=0, seen=None):
        """The value is computed from the element loop h is at."""
        seen = set() if seen is None else seen
        if t == h.dst:
            return True
        if t in seen or depth > 25:
            return False
        seen.add(t)
        d = self.fl.g.tempdef.get(t)
        if d is None:
            return False
        if d.op == "load":
            return any(s is not None and self.from_loop(s.args[0], h, depth + 1, seen) for s in self.fl.rdefs(d, d.data))
        xs = list(d.args) + ([d.recv] if d.recv is not None else []) + list((d.kw or {}).values())
        return any(a is not None and self.from_loop(a, h, depth + 1, seen) for a in xs)

    def states(self, o):
        """Instruction -> the order of o may be undetermined before it (True) although its building was over."""
        if o in self._state:
            return self._state[o]
        self._state[o] = {}
        g = self.fl.g
        ev = {}
        for i, lvl, kind, k, v in self.muts.get(o, ()):
            if lvl != 0:
                continue
            if kind == "sort":
                if self.key_bad(v):
                    ev[i.id] = True
                elif self.keyed_ok(v, o):
                    ev[i.id] = False
            elif kind in ("shuffle", "shuffled"):
                if self.shuffled(i):
                    ev[i.id] = True
            elif kind == "merge" or self.uloops(i):
                ev.setdefault(i.id, True)
        start = g.entry if not isinstance(o, int) else g.ins[o]
        st = {start.id: True}
        work = [start]
        while work:
            i = work.pop()
            v = ev.get(i.id, st[i.id])
            for s, l in i.succ:
                x = v if l not in ("exc", "exc-base") else st[i.id] or v
                if s.id not in st or x and not st[s.id]:
                    st[s.id] = x
                    work.append(s)
        self._state[o] = st
        return st

    def shuffled(self, i, p=None):
        """Causes for the list being in no determined order after the shuffle."""
        d = self.draw_of(i)
        if d is None:
            return TOP.union(*(self.w.shuffles.get((t.qual, n), TOP) for t in self.targets(i) for n in self.binding(i, t)), TOP)
        if d[0] == "own":
            return self.own_bad(i)
        why = self.bad_draw.get(i.id)
        return cut(self.w.rng | self.w.badseed(d[0]) | ({self.loc(i, "shuffled, but " + why)} if why else TOP))

    def own_bad(self, i):
        """A generator object: created here from a determined seed."""
        t = self.fl.term(i.recv)
        made = []
        for x in alts(t):
            if x[0] == "attr" and self.made(x[2]):
                made += self.made(x[2])
            elif not is_call_term(x, "Random", "default_rng", "RandomState"):
                return frozenset({self.loc(i, "drawn from a generator other code draws from as well" if not is_call_term(x, "SystemRandom") else "drawn from the entropy of the system")})
            else:
                made.append((self, self.fl.g.ins[x[5]]))
        for b, c in made:
            a = c.args[0] if c.args else (c.kw or {}).get("seed", (c.kw or {}).get("x"))
            if last(c.fn) == "SystemRandom" or a is None or b.fl.term(a) == ("const", None):
                return frozenset({b.loc(c, "a generator without a seed")})
            v = b.av(a)
            n = self.w.ground(v.n | (v.at(0) if v.kind in ("set", "seq") else TOP))
            if n:
                return n
        return TOP

    def key_bad(self, key):
        """Causes for the sorting key not being determined."""
        if key is None:
            return TOP
        d = self.fl.g.tempdef.get(key)
        if d is not None and d.op == "func" and d.data[0] is not None:
            v = self.w.R.get(d.data[0].qual, BOT)
            out = {c for c in v.n | TOP.union(*v.lv, TOP) if isinstance(c, str)}
            for x in ast.walk(d.data[0].node):
                nm = dotted(x.func) if isinstance(x, ast.Call) else None
                if isinstance(x, ast.Call) and (nm in ENTROPY or isinstance(x.func, ast.Attribute) and x.func.attr in SCHED and not x.args):
                    out.add(self.loc(d, f"sorted by {nm or x.func.attr}(), which differs between runs"))
            return frozenset(out)
        t = self.fl.term(key)
        if t[0] == "global" and last(t[1]) in ("id", "hash"):
            return frozenset({self.loc(self.fl.g.tempdef[key], f"sorted by {last(t[1])}(), which differs between runs")})
        return TOP

    def keyed_ok(self, key, o=None, pairs=False):
        """Sorting with this key leaves no ties between different elements."""
        if key is None:
            return True
        d = self.fl.g.tempdef.get(key)
        t = self.fl.term(key)
        if t[0] == "const" and t[1] is None:
            return True
        if d is not None and d.op == "func" and d.data[0] is not None:
            fi = d.data[0]
            body = fi.node.body if isinstance(fi.node, ast.Lambda) else None
            ps = fi.params()
            if body is None or not ps:
                rs = [s for s in ast.walk(fi.node) if isinstance(s, ast.Return)]
                body = rs[0].value if len(rs) == 1 else None
            if body is None:
                return False
            return injective(body, ps[0])
        if t[0] == "global" and last(t[1]) in ("str", "repr", "int", "as_posix"):
            return True
        if is_call_term(t, "itemgetter") and t[3] and t[3][0] == ("const", 0):
            return True
        if is_call_term(t, "attrgetter") or is_call_term(t, "itemgetter"):
            return False
        return t[0] in ("builtin", "global") and str(t[-1]).split(".")[-1] in ("str", "repr")

    # -------------------------------------------------------------- values
    def av(self, t):
        if t is None:
            return BOT
        if t in self.memo:
            return self.memo[t]
        if t in self.stack:
            return self.prev.get(t, BOT)
        d = self.fl.g.tempdef.get(t)
        if d is None:
            return BOT
        self.stack.add(t)
        try:
            v = self._av(d)
        finally:
            self.stack.discard(t)
        v = J(v, self.prev.get(t, BOT)) if self.prev.get(t, BOT) else v
        if t in self.prev and v.kind is None:
            v = AV(v.lv, v.n, self.prev[t].kind)
        self.memo[t] = v
        return v

    def hidden(self, d, v, org):
        """Drop the order of a list that is certainly sorted here."""
        if not v.lv or not v.lv[0]:
            return v
        os = [o for o, k in org if k == 0]
        if os and len(os) == len(org):
            if all(any(kd == "sort" and l == 0 for _, l, kd, _, _ in self.muts.get(o, ())) and not self.states(o).get(d.id, True) for o in os):
                return AV((TOP,) + v.lv[1:], v.n, v.kind)
        if org and all(k > 0 for _, k in org):
            if all(any(kd == "sort" and l == k for _, l, kd, _, _ in self.muts.get(o, ())) for o, k in org):
                return v
        return v

    def _av(self, d):
        w, fl, op = self.w, self.fl, d.op
        A = self.av
        if op == "param":
            f = fl.g.func
            ps = f.params()
            if f.cls is not None and f.parent is None and not f.is_static and ps and d.data == ps[0]:
                return BOT
            q = f.qual
            v = AV([frozenset({(q, d.data, k)}) for k in range(DEPTH)], frozenset({(q, d.data, "n")}))
            return J(v, self.content(("P", d.data))) if ("P", d.data) in self.muts else v
        if op == "load":
            out = []
            ss = fl.rdefs(d, d.data)
            for s in ss:
                if s is None:
                    out.append(self.free(d))
                    continue
                v = A(s.args[0])
                k = self.control(s)
                k = k if k and d.id not in self.decided_like(s) else TOP
                out.append(J(v, AV((), k | self.carried(d, s))))
            v = J(*out) if out else BOT
            return self.hidden(d, v, self.origins(d.dst))
        if op in ("alias", "await", "star"):
            return A(d.args[0])
        if op == "attr":
            v = w.F.get(d.data, BOT)
            if d.data in w.props:
                v = J(v, *(self.result(d, x, {}) for x in w.byname[d.data]))
            b = A(d.args[0])
            return self.hidden(d, J(v, AV((), b.n)), {(("F", d.data), 0)})
        if op == "item":
            b = A(d.args[0])
            kd = fl.g.tempdef.get(d.args[1])
            if kd is not None and kd.op == "slice":
                n = b.n | (b.at(0) if b.kind != "dict" else TOP)
                return AV(b.lv, n, b.kind)
            k = A(d.args[1])
            bd = fl.g.tempdef.get(d.args[0])
            if bd is not None and bd.op == "tuple" and kd is not None and kd.op == "const" and isinstance(kd.data, int) and -len(bd.args) <= kd.data < len(bd.args):
                return A(bd.args[kd.data])
            return self.pick(d, b, kd, k)
        if op == "unpack":
            b = A(d.args[0])
            bd = fl.g.tempdef.get(d.args[0])
            if bd is not None and bd.op == "tuple" and isinstance(d.data, int) and -len(bd.args) <= d.data < len(bd.args):
                return A(bd.args[d.data])
            if b.kind == "pair":
                return AV((), b.n) if d.data == 0 else AV(b.lv, b.n)
            if b.kind == "epair":
                return AV((), b.n | b.at(0)) if d.data == 0 else AV(b.lv[1:], b.n)
            if b.kind == "seq":
                return AV(b.lv[1:], b.n | b.at(0))
            return J(AV(b.lv, b.n), AV(b.lv[1:], b.n))
        if op == "bin":
            l, r = A(d.args[0]), A(d.args[1])
            if d.data in ("BitOr", "BitAnd", "Sub", "BitXor") and "set" in (l.kind, r.kind):
                return J(l, r, AV((frozenset({self.loc(d, "a set")}),), TOP, "set"))
            if d.data == "Mod":
                return AV((), l.n | r.n | (r.at(0) if l.kind == "str" else TOP))
            return J(l, r)
        if op == "unary":
            return AV((), A(d.args[0]).n)
        if op == "cmp":
            l, r = A(d.args[0]), A(d.args[1])
            n = l.n | r.n
            if d.data in ("Eq", "NotEq") and l.kind == "seq" and r.kind == "seq":
                n |= l.at(0) | r.at(0)
            return AV((), n)
        if op in ("fstr", "fmt"):
            return AV((), TOP.union(*(x.n | x.at(0) for x in map(A, d.args)), TOP), "str")
        if op == "const":
            return AV((), TOP, "str" if isinstance(d.data, str) else None)
        if op == "set":
            e = J(*map(A, d.args)) if d.args else BOT
            return AV((frozenset({self.loc(d, "a set")}),) + e.lv, e.n, "set")
        if op in ("list", "tuple"):
            out = []
            for a in d.args:
                x = fl.g.tempdef.get(a)
                v = A(a)
                if x is not None and x.op == "star":
                    out.append(v)
                else:
                    out.append(AV((TOP,) + v.lv, v.n))
            v = J(*out) if out else BOT
            v = AV(v.lv, v.n, "seq")
            return J(v, self.content(d.id)) if d.id in self.muts else v
        if op == "dict":
            out = []
            for j in range(0, len(d.args), 2):
                v = A(d.args[j + 1])
                out.append(v if d.args[j] is None else AV((TOP,) + v.lv, v.n | A(d.args[j]).n))
            v = J(*out) if out else BOT
            v = AV(v.lv, v.n, "dict")
            return self.typed(J(v, self.content(d.id)) if d.id in self.muts else v, "dict")
        if op == "newcomp":
            out = [BOT]
            for e in fl.g.of("elem"):
                if e.args[0] != d.dst:
                    continue
                u = TOP.union(*(self.uh(h) for h in self.nexts if e.id in self.body[h.id] and d.id not in self.body[h.id]), TOP)
                if d.data == "set":
                    u = u | {self.loc(d, "a set")}
                vs = [A(x) for x in e.args[1:]]
                v = vs[-1]
                out.append(AV((u,) + v.lv, TOP.union(*(x.n for x in vs)) | self.control(e)))
            v = J(*out)
            kind = {"set": "set", "dict": "dict"}.get(d.data, "seq")
            v = AV(v.lv, v.n, kind)
            return self.typed(J(v, self.content(d.id)) if d.id in self.muts else v, kind)
        if op == "iter":
            return A(d.args[0])
        if op == "next":
            return self.element(A(d.args[0]))
        if op == "with_enter":
            return A(d.args[0])
        if op == "call":
            v = self.call(d)
            if d.id in self.muts:
                v = self.typed(J(v, self.content(d.id)), v.kind)
            return v
        return BOT

    def typed(self, v, kind):
        return AV(v.lv, v.n, kind)

    def free(self, d):
        """Variable of an enclosing function."""
        p = self.f.parent
        while p is not None:
            a = self.w.fns.get(p.qual)
            if a is None:
                return BOT
            out = [a.memo.get(s.args[0], a.prev.get(s.args[0], BOT)) for s in a.fl.g.of("store") if s.data[1] == d.data[1]]
            if out:
                return J(*out)
            p = p.parent
        return BOT

    def element(self, b):
        if b.kind == "items":
            return AV(b.lv[1:], b.n, "pair")
        if b.kind == "enum":
            return AV(b.lv, b.n, "epair")
        return AV(b.lv[1:], b.n)

    def pick(self, d, b, kd, k):
        if b.kind == "pair":
            return AV((), b.n) if kd is not None and kd.op == "const" and kd.data == 0 else AV(b.lv, b.n)
        if b.kind == "epair":
            return AV((), b.n | b.at(0)) if kd is not None and kd.op == "const" and kd.data == 0 else AV(b.lv[1:], b.n)
        n = b.n | k.n
        if b.kind in ("seq", "items", "set"):
            n |= b.at(0)
        if b.kind == "items":
            return AV(b.lv[1:], n, "pair")
        return AV(b.lv[1:], n)

    def carried(self, d, s):
        """What a variable holds because of the position in an unordered iteration."""
        out = TOP
        for h in self.nexts:
            body = self.body[h.id]
            inside = s.id in body or s.id in self.leaving(h)
            if not inside or not self.uh(h):
                continue
            if d.id in body:
                if s.id not in body or self.direct(s, d, h) or self.accumulates(d, s):
                    continue
                out |= self.uh(h)
            elif d.id not in self.leaving(h):
                sd = self.fl.g.tempdef.get(s.args[0])
                if sd is None or sd.op == "const" or self.accumulated(s):
                    continue
                os = self.origins(s.args[0])
                if not self.from_loop(s.args[0], h) and all(not isinstance(o, int) or o not in body for o, _ in os) and sd.op in ("load", "alias", "attr", "param"):
                    continue
                out |= self.uh(h)
        return out

    def direct(self, s, d, h):
        m = self.__dict__.setdefault("_direct", {})
        k = (s.id, d.id, h.id)
        if k not in m:
            m[k] = any(x is d for x in reach([x for x, l in s.succ], stop=lambda x: x is h, exc=False))
        return m[k]

    def accumulates(self, d, s):
        """The load only feeds a commutative update of the same variable (or is tested for being the same)."""
        us = self.uses.get(d.dst, [])
        return bool(us) and all(u.op in ("bin", "call") and self.commutes(u, d.data) or u.op == "branch" for u in us)

    def commutes(self, u, key):
        if u.op == "bin" and u.data not in ("Add", "Mult", "BitOr", "BitAnd", "BitXor", "Sub"):
            return False
        if u.op == "bin" and u.data == "Sub" and not (self.fl.g.tempdef.get(u.args[0]) is not None and self.fl.g.tempdef[u.args[0]].data == key):
            return False
        if u.op == "call" and last(u.fn) not in ("max", "min", "union"):
            return False
        us = self.uses.get(u.dst, [])
        return bool(us) and all(x.op == "store" and x.data == key for x in us)

    def accumulated(self, s):
        d = self.fl.g.tempdef.get(s.args[0])
        if d is None or d.op not in ("bin", "call"):
            return False
        for a in d.args:
            x = self.fl.g.tempdef.get(a)
            if x is not None and x.op == "load" and x.data == s.data and self.commutes(d, s.data):
                return True
        return False

    def decided_like(self, s):
        """Instructions decided by the same conditions as store s."""
        return {k for k, v in (self._ctl or {}).items() if v >= self.control(s)} if self.control(s) else ()

    # -------------------------------------------------------------- calls
    def result(self, i, t, b):
        """Summary of t instantiated with the arguments."""
        v = self.w.R.get(t.qual, BOT)

        def inst(s):
            out = set()
            for c in s:
                if isinstance(c, str):
                    out.add(c)
                elif c[0] == t.qual:
                    if c[1] in b:
                        a = self.av(b[c[1]])
                        out |= a.n if c[2] == "n" else a.at(c[2])
                else:
                    out |= self.w.ground({c})
            return cut(frozenset(out))

        return AV([inst(x) for x in v.lv], inst(v.n), v.kind)

    def call(self, i):
        w, A = self.w, self.av
        fn, n = i.fn or "", last(i.fn)
        args = [A(a) for a in i.args]
        kws = {k: A(a) for k, a in (i.kw or {}).items()}
        recv = A(i.recv) if i.recv is not None else BOT
        an = TOP.union(*(a.n for a in args), *(a.n for a in kws.values()), recv.n)
        a0 = args[0] if args else BOT
        ts = self.targets(i)
        if ts and not hasattr(i.target, "methods"):
            return J(*(self.result(i, t, self.binding(i, t)) for t in ts))
        if hasattr(i.target, "methods"):
            return BOT
        if i.target is not None:
            return BOT  # outside of the analysed part: catalog, server
        d = self.draw_of(i)
        if d is not None:
            if n == "shuffle":
                return BOT
            if d[0] == "own":
                return AV((), an | self.own_bad(i) | (a0.at(0) if n in ("choice", "choices", "sample", "permutation") else TOP))
            why = self.bad_draw.get(i.id)
            return AV((), an | w.rng | w.badseed(d[0]) | ({self.loc(i, "drawn, but " + why)} if why else TOP) | (a0.at(0) if n in ("choice", "choices", "sample", "permutation") else TOP))
        if n in SCHED and i.recv is not None and not i.args and not i.kw:
            return AV((), frozenset({self.loc(i, f"{fn}() depends on how far other threads or processes are")}))
        if fn in ENTROPY or fn.startswith("builtins.") and fn[9:] in ENTROPY:
            if fn == "hash" and a0.kind is None and self.f.name in ("__hash__", "__eq__"):
                return BOT
            return AV((), frozenset({self.loc(i, f"{fn}() differs between runs")}))
        if self.is_index(i):
            c = frozenset({self.loc(i, "the index as built by the extension (its hash maps are in no fixed order)")})
            return AV((c, c, c), TOP, "dict")
        if n in BAD_ORDER and (i.recv is not None or fn.startswith(("os.", "glob.", "concurrent", "asyncio"))):
            return AV((frozenset({self.loc(i, BAD_ORDER[n])}),) + (a0.lv[1:] if n == "imap_unordered" else ()), TOP, "seq")
        if n in ("set", "frozenset") and i.recv is None:
            return AV((frozenset({self.loc(i, "a set")}),) + a0.lv[1:], an, "set")
        if n in SETOPS and i.recv is not None:
            return AV((frozenset({self.loc(i, "a set")}),) + recv.lv[1:], an, "set")
        if n == "sorted" and i.recv is None:
            key = (i.kw or {}).get("key")
            bad = self.key_bad(key)
            if bad:
                return AV((a0.at(0) | bad,) + a0.lv[1:], an, a0.kind if a0.kind == "items" else "seq")
            ok = self.keyed_ok(key)
            return AV(((TOP if ok else a0.at(0)),) + a0.lv[1:], an, a0.kind if a0.kind == "items" else "seq")
        if n in ("keys",) and i.recv is not None:
            return AV((recv.at(0),), recv.n, "seq")
        if n == "values" and i.recv is not None:
            return AV(recv.lv, recv.n, "seq")
        if n == "items" and i.recv is not None:
            return AV(recv.lv, recv.n, "items")
        if n in KEEP:
            if i.recv is not None and n in ("copy",):
                return AV(recv.lv, recv.n, recv.kind)
            vs = args[1:] if n in ("filter", "cast") else args
            v = J(*vs) if vs else BOT
            return AV(v.lv, v.n | an, {"list": "items" if v.kind == "items" else "seq", "tuple": "items" if v.kind == "items" else "seq", "dict": "dict"}.get(n, v.kind))
        if n == "map" and i.recv is None and len(args) > 1:
            v = J(*args[1:])
            return AV(v.lv, an, "seq")
        if n == "enumerate" and args:
            return AV(a0.lv, an, "enum")
        if n == "zip":
            v = J(*args) if args else BOT
            u = v.at(0)
            same = len({str(strip_ids(self.viewed(a))) for a in i.args}) == 1
            return AV(v.lv, an | (TOP if same or len(args) < 2 else u), "seq")
        if n in CLEAN and not (i.recv is not None and n in ("min", "max")):
            return AV((), an)
        if n == "next" and i.recv is None:
            return AV(a0.lv[1:], an | a0.at(0), "pair" if a0.kind == "items" else None)
        if n == "islice":
            return AV(a0.lv, an | a0.at(0), a0.kind)
        if n == "pop" and i.recv is not None:
            return AV(recv.lv[1:], an | (recv.at(0) if recv.kind in ("seq", "set") or not i.args and recv.kind is None else TOP))
        if n in ("popitem", "popleft") and i.recv is not None:
            return AV(recv.lv[1:], an | recv.at(0), "pair" if n == "popitem" else None)
        if n in ("get", "setdefault") and i.recv is not None:
            return J(AV(recv.lv[1:], an), args[1] if len(args) > 1 else BOT)
        if n == "join" and i.recv is not None:
            return AV((), an | a0.at(0), "str")
        if n in ("str", "repr", "format") and i.recv is None:
            return AV((), an | (a0.at(0) if a0.kind else TOP), "str")
        if n == "dumps" and args:
            srt = i.kw and i.kw.get("sort_keys") is not None and self.fl.term(i.kw["sort_keys"]) == ("const", True)
            return AV((), an | (TOP if srt or not fn.startswith("json") else a0.at(0)), "str")
        if n in ("defaultdict", "create_chunker_index", "Queue", "deque"):
            return AV((), TOP, "dict")
        if n == "reduce" and len(args) > 1:
            return AV((), an | args[1].at(0))
        return AV((), an)

    def viewed(self, a):
        t = self.fl.term(a)
        while t[0] == "call" and callname(t) in ("keys", "values", "items", "list", "tuple") and (t[2] is not None or t[3]):
            t = t[2] if t[2] is not None else t[3][0]
        return t

    def is_index(self, i):
        return "chunker_extension" in (i.fn or "")


KNOWN_METHODS = {"append", "add", "extend", "insert", "update", "sort", "get", "pop", "keys", "values", "items", "copy", "join", "split", "put", "close", "start", "run", "read", "write",
                 "remove", "clear", "send", "wait", "acquire", "release", "format", "set", "is_set", "exists", "mkdir", "map", "shuffle", "imap_unordered"}


def injective(body, p):
    """Expression in p that differs for different elements: p itself, its first item (key of a pair), or a text of those; also as part of a tuple."""
    if isinstance(body, ast.Name):
        return body.id == p
    if isinstance(body, ast.Subscript):
        return isinstance(body.value, ast.Name) and body.value.id == p and isinstance(body.slice, ast.Constant) and body.slice.value == 0
    if isinstance(body, ast.Call):
        d = dotted(body.func) or ""
        return last(d) in ("str", "repr", "tuple", "sorted", "int") and len(body.args) == 1 and injective(body.args[0], p)
    if isinstance(body, ast.Tuple):
        return any(injective(x, p) for x in body.elts)
    if isinstance(body, ast.Attribute):
        return isinstance(body.value, ast.Name) and body.value.id == p and body.attr in ("name", "path", "stem")
    return False
