"""C14: progress and mixture history of a job are recorded truthfully and replayed exactly."""
from ..core import *
from ..flow import Explorer, strip_ids
from .util import *


def run(ctx):
    ctx.rule("Path exploration of QueryResult.__next__ (index and hand-out counter change by exactly one iff a chunk was handed out, the generator is asked "
             "with the mixture in force and the index claimed), of the chunk generator (every mixture handed in is recorded as a deep copy under the index of the "
             "next chunk before a chunk made from it leaves the generator, never while replaying; the chunk index advances exactly once per chunk and "
             "only then; a chunk leaves the generator only for the index asked for; no yield forgets what was sent), of replay (each recorded "
             "mixture is applied, as a copy, before the chunk it was recorded for) and of the cache loader (counters reset before replaying the recorded number).")
    ctx.part(counters, ctx)
    ctx.part(sent, ctx)
    ctx.part(history, ctx)
    ctx.part(indexes, ctx)
    ctx.part(replaying, ctx)
    ctx.part(reload, ctx)
    ctx.part(server_map, ctx)
    ctx.part(restart, ctx)


def cls(ctx):
    return ctx.proj.cls("QueryResult")


def is_value_of(t, name):
    """term of the shared value behind self.<name> (with or without get_obj)."""
    return contains(t, lambda x: x == ("attr", ("self",), name))


# ---------------------------------------------------------------- __next__
def counters(ctx):
    c = cls(ctx)
    m = ctx.proj.find_method(c, "__next__")
    gen = generator(ctx)
    fl = ctx.flow(m, ctx.local_policy(m, c, stop=(gen.name,)), c, key="next")
    g = fl.g
    sends = [i for i in g.calls() if last(i.fn) == "send" and i.recv is not None]
    ctx.count("generator_requests", len(sends))
    ctx.floor("generator_requests", 1)
    ctr = "_num_returns_gen"

    def kind(i):
        if i.op != "setattr":
            return None
        b = fl.term(i.args[0])
        if b == ("self",) and i.data == ctr:
            return "n"
        if i.data == "value" and is_value_of(b, "_index"):
            return "i"
        return None

    for i in g.live:
        if kind(i) and attr_delta(fl, i) is None:
            ctx.fail("counter-set", f"{'hand-out counter' if kind(i) == 'n' else 'chunk index'} is set to {show(fl.term(i.args[1]))} instead of advanced", i.loc)
    # the value read for the request and the number of advances before reading it
    asked = {}  # attr instruction -> expected offset
    for s in sends:
        a = fl.term(s.args[0]) if s.args else ("none",)
        d = defining(fl, s.args[0]) if s.args else None
        if d is None or d.op != "tuple" or len(d.args) != 2:
            raise AnchorError(f"{s.loc}: request to the generator not recognised: {show(a)}")
        for x in alts(fl.term(d.args[0])):
            if x != ("attr", ("self",), "_mixture"):
                ctx.fail("wrong-mixture-sent", f"the generator is asked with {show(x)} instead of the mixture in force", s.loc)
        off, e = 0, defining(fl, d.args[1])
        for _ in range(4):
            if e is not None and e.op == "bin" and e.data in ("Add", "Sub") and fl.term(e.args[1])[0] == "const":
                off += fl.term(e.args[1])[1] * (1 if e.data == "Add" else -1)
                e = defining(fl, e.args[0])
        if e is None or e.op != "attr" or e.data != "value" or not is_value_of(fl.term(e.args[0]), "_index"):
            ctx.fail("wrong-index-sent", f"the generator is asked for index {show(fl.term(d.args[1]))} instead of the job's next index", s.loc)
            continue
        asked[e.id] = off
    sid = {s.id: s for s in sends}

    for scen in ("chunk", "none"):
        def hook(d):
            if d.id in sid:
                return "truthy" if scen == "chunk" else ("c", None)

        def step(ins, st):
            n, i, sent = st
            k = kind(ins)
            if k:
                dl = attr_delta(fl, ins)
                if dl is None:
                    return [st]
                if k == "n":
                    n += dl
                else:
                    i += dl
                if abs(n) > 3 or abs(i) > 3:
                    return []
            if ins.id in asked and i + asked[ins.id] != 0:
                reads_bad.add(ins.id)
            if ins.id in sid:
                sent += 1
            return [(n, i, sent)]

        reads_bad = set()
        ex = Explorer(fl, step, follow_exc=False, hook=hook)
        vis = ex.run((0, 0, 0))
        for rb in reads_bad:
            ctx.fail("wrong-index-sent", f"the index asked for is not the first one not handed out yet", g.ins[rb].loc)
        for k in vis:
            ins, st = g.ins[k[0]], k[2]
            if ins is not g.exit and not (ins.op == "raise_exit"):
                continue
            ctx.count("handout_scenarios")
            if st[2] == 0:
                continue
            if st[2] > 1:
                ctx.fail("asked-twice", f"one request takes {st[2]} chunks from the generator; path {trace(ex.path((ins, k[1], st)))}", m.loc)
            want = (1, 1) if scen == "chunk" else (0, 0)
            if scen == "chunk" and ins is not g.exit:
                ctx.fail("chunk-lost", f"a chunk taken from the generator is not handed out; path {trace(ex.path((ins, k[1], st)))}", m.loc)
            if st[:2] != want:
                ctx.fail("progress", f"after {'a chunk was handed out' if scen == 'chunk' else 'no chunk was available'}, the hand-out counter changed by {st[0]} "
                                     f"and the chunk index by {st[1]} (expected {want[0]}); path {trace(ex.path((ins, k[1], st)))}", m.loc)
    ctx.floor("handout_scenarios", 2)
    for r in root_returns(fl):
        v = fl.term(r.args[0]) if r.args and r.args[0] is not None else ("const", None)
        for a in alts(v):
            if not (a[0] == "call" and a[5] in sid) and a != ("const", None):
                ctx.fail("other-chunk", f"__next__ returns {show(a)} instead of the chunk taken", r.loc)
    # nothing else advances the counter
    for mm in c.methods.values():
        f2 = ctx.flow(mm, lambda *a: False, c, key="own")
        for i in f2.g.of("setattr"):
            if i.data == ctr and f2.term(i.args[0]) == ("self",) and i.loc not in {x.loc for x in g.of("setattr")}:
                v = f2.term(i.args[1])
                if v != ("const", 0):
                    ctx.fail("counter-set", f"{mm.name} sets the hand-out counter to {show(v)}", i.loc)


# ---------------------------------------------------------------- generator
def generator(ctx):
    c = cls(ctx)
    cand = []
    for m in c.methods.values():
        if m.name == "_chunk_generator":
            return m
        f = ctx.flow(m, lambda *a: False, c, key="own")
        ys = f.g.of("yield")
        if len(ys) > 1 and any(i.op == "call" and last(i.fn) == "mixture_in_rows" for i in f.g.live):
            cand.append(m)
    if len(cand) != 1:
        raise AnchorError("chunk generator not found")
    return cand[0]


class Gen:
    def __init__(self, ctx):
        c = cls(ctx)
        m = generator(ctx)
        self.fl = fl = ctx.flow(m, None, c, key="gen")
        self.g = g = fl.g
        self.m = m
        self.yields = [y for y in g.of("yield") if y.frame is g.frames[0]]
        self.first = [y for y in self.yields if not y.args or y.args[0] is None or fl.term(y.args[0]) in (("none",), ("const", None))]
        # the mixture handed in: first component of what a yield received
        self.sent0 = lambda t: t[0] == "item" and t[1][0] == "sent" and t[2] == ("const", 0)
        self.sent1 = lambda t: t[0] == "item" and t[1][0] == "sent" and t[2] == ("const", 1)
        self.rows = [i for i in g.calls() if last(i.fn) == "mixture_in_rows" and i.recv is not None and any(self.sent0(a) for a in alts(fl.term(i.recv)))]
        if not self.rows:
            raise AnchorError("the generator does not ask the mixture handed in for its quotas")
        # comparison of a local index with the requested one
        self.cmps, keys = [], set()
        for i in g.of("cmp"):
            for a, b in ((0, 1), (1, 0)):
                if any(self.sent1(x) for x in alts(fl.term(i.args[a]))):
                    k = var_key(fl, i.args[b])
                    if k is not None:
                        self.cmps.append((i, i.args[a], i.args[b]))
                        keys.add(k)
        if len(keys) != 1:
            raise AnchorError("chunk index of the generator not recognised")
        self.ikey = next(iter(keys))
        self.istores = [i for i in g.of("store") if i.data == self.ikey]

    def handouts(self):
        """Yields that hand out a chunk."""
        out = []
        for y in self.yields:
            v = self.fl.term(y.args[0]) if y.args and y.args[0] is not None else ("const", None)
            if not all(a in (("const", None), ("none",)) for a in alts(v)):
                out.append(y)
        return out

    def is_idx(self, t):
        return var_key(self.fl, t) == self.ikey


def sent(ctx):
    G = Gen(ctx)
    fl, g = G.fl, G.g
    for y in G.yields:
        succ = [s for s, l in y.succ if l not in ("exc", "exc-base")]
        r = {i.id for i in reach(succ, exc=False)}
        for what, users, sel in (("mixture", [(i, i.recv) for i in G.rows], 0), ("index", [(i, a) for i, a, _ in G.cmps], 1)):
            hit = [(i, t) for i, t in users if i.id in r]
            if not hit:
                continue
            ctx.count("yields")
            if not any(x == ("item", ("sent", y.id), ("const", sel)) for i, t in hit for x in alts(fl.term(t))):
                ctx.fail("sent-ignored", f"the {what} handed in at this yield is ignored for the next chunk", y.loc)
    ctx.floor("yields", 4)
    for i in G.rows:
        for x in alts(fl.term(i.recv)):
            if not G.sent0(x):
                ctx.fail("other-mixture", f"quotas are taken from {show(x)} instead of the mixture handed in", i.loc)


def log_appends(G):
    """(instruction, index temp, mixture temp) of the additions to the mixture history."""
    fl, g = G.fl, G.g
    out = []
    for i in g.live:
        if i.op == "call" and i.recv is not None and last(i.fn) in ("append", "insert", "extend") and fl.term(i.recv) == ("attr", ("self",), "_mixture_log"):
            d = defining(fl, i.args[-1]) if i.args else None
            if last(i.fn) == "extend" and d is not None and d.op in ("list", "tuple") and len(d.args) == 1:
                d = defining(fl, d.args[0])
            if last(i.fn) == "insert" or d is None or d.op != "tuple" or len(d.args) != 2:
                raise AnchorError(f"{i.loc}: addition to the mixture history not recognised")
            out.append((i, d.args[0], d.args[1]))
    if not out:
        raise AnchorError("no addition to the mixture history found")
    return out


def history(ctx):
    G = Gen(ctx)
    fl, g = G.fl, G.g
    app = log_appends(G)
    ok = set()
    for i, x, v in app:
        ctx.count("history_additions")
        good = True
        if not G.is_idx(x):
            ctx.fail("history-index", f"a mixture is recorded under {show(fl.term(x))} instead of the index of the next chunk", i.loc)
            good = False
        for a in alts(fl.term(v)):
            b = deep_copy_of(a)
            if b is None or not all(G.sent0(z) for z in alts(b)):
                ctx.fail("history-alias", f"recorded in the mixture history: {show(a)}, which is not a deep copy of the mixture handed in", i.loc)
                good = False
        ok.add(i.id)
    appid = {i.id for i, _, _ in app}
    rowids = {i.id for i in G.rows}

    def is_rows(t, fresh):
        """t only holds (copies of) quotas of mixtures handed in."""
        al = [a for a in alts(t) if a not in (("const", None),)]
        if not al:
            return False
        for a in al:
            while deep_copy_of(a) is not None or (a[0] == "call" and callname(a) in ("dict", "copy", "frozenset", "sorted", "tuple") and (a[3] or a[2] is not None)):
                a = deep_copy_of(a) or (a[3][0] if a[3] else a[2])
            if not (a[0] == "call" and a[5] in rowids) and not (fresh is False and a[0] == "phi" and is_rows(a, False)):
                return False
        return True

    def fact(br, lab):
        """Facts from a branch: 'same' (quotas unchanged), 'prev-none', 'not-first'."""
        out = set()
        neg, d = False, g.tempdef.get(br.args[0])
        for _ in range(6):
            if d is None:
                return out
            if d.op == "unary" and d.data == "Not":
                neg, d = not neg, g.tempdef.get(d.args[0])
            elif d.op in ("alias",):
                d = g.tempdef.get(d.args[0])
            elif d.op == "load":
                dd = defining(fl, d.dst)
                if dd is None or dd is d:
                    break
                d = dd
            else:
                break
        if d is None:
            return out
        val = lab != neg
        if d.op == "cmp":
            l, r = fl.term(d.args[0]), fl.term(d.args[1])
            eq = (d.data in ("Eq", "Is") and val) or (d.data in ("NotEq", "IsNot") and not val)
            ne = (d.data in ("NotEq", "IsNot") and val) or (d.data in ("Eq", "Is") and not val) or (d.data in ("Gt", "Lt") and val)
            if eq and d.data in ("Eq", "NotEq") and is_rows(l, False) and is_rows(r, False):
                out.add("same")
            if eq and ("const", None) in (l, r):
                o, od = (r, d.args[1]) if l == ("const", None) else (l, d.args[0])
                if is_rows(o, False):
                    out.add("prev-none")
            for a, b in ((0, 1), (1, 0)):
                c = fl.term(d.args[b])
                if ne and c == ("const", 0) and G.is_idx(d.args[a]):
                    out.add("not-first")
                if c == ("const", 0) and is_len_log(fl.term(d.args[a])) and ne:
                    out.add("not-first")
        else:
            t = fl.term(d.dst)
            if t == ("attr", ("self",), "_mixture_log") and val or is_len_log(t) and val:
                out.add("not-first")
            if is_rows(t, False) and not val and any(a == ("const", None) for a in alts(t)):
                out.add("prev-none")
        return out

    def is_len_log(t):
        return t[0] == "call" and t[1] == "len" and t[3] and t[3][0] == ("attr", ("self",), "_mixture_log")

    ho = {y.id for y in G.handouts()}
    yid = {y.id for y in G.yields}
    for replay in (False, True):
        def hook(d):
            if d.op == "attr" and d.data == "_is_replay":
                return ("c", replay)

        def step(ins, st):
            if ins.id in appid:
                return ["done"]
            if ins.id in yid:
                return ["new"]
            return [st]

        def edge(ins, succ, lab, st):
            if ins.op == "branch" and lab in (True, False) and st not in ("done", "new0"):
                f = fact(ins, lab)
                if "same" in f:
                    return "done"
                if "prev-none" in f:
                    return "done" if st == "not-first" else "prev-none"
                if "not-first" in f:
                    return "done" if st == "prev-none" else "not-first"
            return st

        ex = Explorer(fl, step, edge=edge, follow_exc=True, hook=hook)
        vis = ex.run("new")
        for k in vis:
            ins, st = g.ins[k[0]], k[2]
            if not replay and ins.id in ho:
                ctx.count("handouts_explored")
                if st != "done":
                    ctx.fail("history-missing", f"a chunk leaves the generator although its mixture may not be in the history; path {trace(ex.path((ins, k[1], st)))}", ins.loc)
            if replay and ins.id in appid:
                ctx.fail("history-replay", f"the mixture history grows while replaying; path {trace(ex.path((ins, k[1], st)))}", ins.loc)
    ctx.floor("handouts_explored", 2)
    # a mixture whose attempt fails but consumed samples
    cons = [i for i in g.calls() if last(i.fn) == "send" and i.recv is not None]
    nones = [y for y in G.yields if y.id not in ho and any(i.id == y.id for s in cons for i in reach([x for x, l in s.succ if l not in ("exc", "exc-base")], stop=lambda z: z.id in yid, exc=False))]
    for n, y in enumerate(nones):
        ctx.fail("failed-attempt" + (f"-{n + 1}" if n else ""), "an attempt that fails keeps the samples it consumed but leaves no trace in the progress, so that a replay does not repeat it", y.loc)
    # other writers of the history
    c = cls(ctx)
    for m in c.methods.values():
        f2 = ctx.flow(m, lambda *a: False, c, key="own")
        for i in f2.g.live:
            if i.op == "setattr" and i.data == "_mixture_log" and f2.term(i.args[0]) == ("self",) and m.name not in ("__init__", "__setstate__"):
                ctx.fail("history-replaced", f"{m.name} replaces the mixture history", i.loc)
            if i.op == "call" and i.recv is not None and last(i.fn) in ("pop", "clear", "remove", "insert", "reverse", "sort", "append", "extend") \
                    and f2.term(i.recv) == ("attr", ("self",), "_mixture_log") and i.loc not in {x.loc for x, _, _ in app}:
                ctx.fail("history-changed", f"{m.name} changes the mixture history ({last(i.fn)})", i.loc)
            if i.op in ("setitem", "delitem") and f2.term(i.args[0]) == ("attr", ("self",), "_mixture_log"):
                ctx.fail("history-changed", f"{m.name} changes the mixture history", i.loc)


def indexes(ctx):
    G = Gen(ctx)
    fl, g = G.fl, G.g
    inc = {}
    for s in G.istores:
        dl = var_delta(fl, s, G.ikey)
        if dl is None:
            if fl.term(s.args[0]) != ("const", 0):
                ctx.fail("index-set", f"the chunk index is set to {show(fl.term(s.args[0]))}", s.loc)
            elif in_loop(fl, s):
                ctx.fail("index-set", "the chunk index is reset while chunks are generated", s.loc)
        else:
            inc[s.id] = dl
            if dl != 1:
                ctx.fail("index-step", f"the chunk index changes by {dl}", s.loc)
    ctx.count("index_advances", len(inc))
    if not inc:
        ctx.fail("index-step", "the chunk index never advances", G.m.loc)
        return
    ho = {y.id for y in G.handouts()}
    yid = {y.id for y in G.yields}
    test = {}
    for c, _, b in G.cmps:
        if c.data not in ("Eq", "NotEq"):
            ctx.fail("index-test", f"the chunk index is compared to the requested one with {c.data}", c.loc)
        test[c.dst] = c.data == "Eq"
        if not G.is_idx(b):
            ctx.fail("index-test", f"{show(fl.term(b))} instead of the chunk index is compared to the requested one", c.loc)
    bad = set()

    def testof(br):
        neg, t = False, br.args[0]
        for _ in range(6):
            if t in test:
                return test[t] != neg
            d = defining(fl, t)
            if d is None:
                return None
            if d.dst in test:
                return test[d.dst] != neg
            if d.op == "unary" and d.data == "Not":
                neg, t = not neg, d.args[0]
                continue
            return None
        return None

    def step(ins, st):
        k, n = st
        if ins.id in inc:
            n = min(n + 1, 2)
        if ins.id in yid:
            if ins.id in ho:
                if k != "T":
                    bad.add((ins.id, "unguarded", st))
                return [("H", 0)]
            if k == "T":
                bad.add((ins.id, "kept", st))
            if (k, n) in (("H", 0), ("S", 0)):
                bad.add((ins.id, "stuck", st))
            if (k, n) == ("N", 1) or n > 1:
                bad.add((ins.id, "skip", st))
            return [("N", 0)]
        return [(k, n)]

    def edge(ins, succ, lab, st):
        if ins.op == "branch" and lab in (True, False):
            t = testof(ins)
            if t is not None:
                k, n = st
                if k == "T":
                    bad.add((ins.id, "kept", st))
                elif (k in ("H", "S") and n == 0):
                    bad.add((ins.id, "stuck", st))
                elif n > 1 or (k in ("N", "I") and n > 0):
                    bad.add((ins.id, "skip", st))
                return ("T", 0) if lab == t else ("S", 0)
        return st

    ex = Explorer(fl, step, edge=edge, follow_exc=False)
    vis = ex.run(("I", 0))
    ctx.count("index_states", len(vis))
    msgs = {"unguarded": "a chunk leaves the generator without its index being the requested one", "kept": "a chunk made for the requested index is dropped",
            "stuck": "the next chunk is made without advancing the index past the previous one", "skip": "the index advances more than once per chunk, or without a chunk"}
    for iid, why, st in sorted(bad, key=str):
        it = next((( g.ins[k[0]], k[1], k[2]) for k in vis if k[0] == iid and k[2] == st), None)
        ctx.fail("index-" + why, msgs[why] + (f"; path {trace(ex.path(it))}" if it else ""), g.ins[iid].loc)


# ---------------------------------------------------------------- replay
def replaying(ctx):
    c = cls(ctx)
    m = ctx.proj.find_method(c, "replay")
    if m is None:
        raise AnchorError("replay not found")
    fl = ctx.flow(m, ctx.local_policy(m, c, stop=("__next__",)), c, key="replay")
    g = fl.g
    LOG = ("attr", ("self",), "_mixture_log")
    n = m.params()[1] if len(m.params()) > 1 else None
    P = ("param", n)
    nexts = [i for i in g.calls() if (i.fn == "next" and i.args and fl.term(i.args[0]) == ("self",)) or (last(i.fn) == "__next__" and i.recv is not None and fl.term(i.recv) == ("self",))]
    if not nexts:
        raise AnchorError("replay does not ask for chunks")
    ctx.count("replay_requests", len(nexts))
    sets = [i for i in g.of("setattr") if i.data == "_mixture" and fl.term(i.args[0]) == ("self",)]

    def from_log(t, k):
        """t is component k of an entry of the history."""
        if t[0] == "item" and t[2] == ("const", k):
            b = t[1]
            return (b[0] in ("item", "elem") and contains(b, lambda x: x == LOG)) or (b[0] == "call" and callname(b) in ("next", "popleft", "pop") and contains(b, lambda x: x == LOG))
        return False

    for s in sets:
        ctx.count("replay_mixtures")
        for a in alts(fl.term(s.args[1])):
            if a == ("const", None):
                continue
            b = deep_copy_of(a)
            if b is None:
                if from_log(a, 1) or contains(a, lambda x: x == LOG):
                    ctx.fail("replay-alias", f"the mixture of the history itself ({show(a)}), not a copy, is put in force and will be changed by later updates", s.loc)
                else:
                    ctx.fail("replay-mixture", f"replay puts {show(a)} in force, which is not from the history", s.loc)
            elif not all(from_log(z, 1) for z in alts(b)):
                ctx.fail("replay-mixture", f"replay puts {show(b)} in force, which is not a mixture of the history", s.loc)
    ctx.floor("replay_mixtures", 1)
    sid = {s.id for s in sets}
    nid = {i.id for i in nexts}
    # loop over exactly the recorded number
    loops = [i for i in g.of("next") if any(x.id in {y.id for y in reach([s for s, l in i.succ if l == "next"], stop=lambda z: z is i, exc=False)} for x in nexts)]
    idx = None
    for l in loops:
        t = fl.term(l.args[0])
        t = t[1] if t[0] == "iterof" else t
        if t[0] == "call" and t[1] == "range":
            if len(t[3]) == 1 and t[3][0] == P or len(t[3]) == 2 and t[3] == (("const", 0), P):
                idx = ("elem", t)
            elif contains(t, lambda x: x == P):
                ctx.fail("replay-count", f"replay asks for {show(t)} chunks instead of the recorded number", l.loc)
    if idx is None:
        raise AnchorError("replay loop not recognised")
    # tests of the index against the recorded one
    eqs = {}
    for i in g.of("cmp"):
        for a, b in ((0, 1), (1, 0)):
            ta = fl.term(i.args[a])
            tb = [x for x in alts(fl.term(i.args[b])) if x != ("const", None)]
            if contains(ta, lambda x: x == idx) and tb and all(contains(x, lambda y: from_log(y, 0)) for x in tb):
                exact = ta == idx and all(from_log(x, 0) for x in tb)
                op = i.data if a == 0 else {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(i.data, i.data)
                if not exact or op in ("Gt", "Lt", "LtE"):
                    ctx.fail("replay-when", f"a recorded mixture is applied when {show(fl.term(i.dst))}, not at the chunk it was recorded for", i.loc)
                eqs[i.dst] = op != "NotEq"
                ctx.count("replay_tests")
    if not eqs:
        raise AnchorError("replay's test for a recorded change not recognised")

    def eqtest(br):
        neg, t = False, br.args[0]
        for _ in range(5):
            if t in eqs:
                return eqs[t] != neg
            d = defining(fl, t)
            if d is None:
                return None
            if d.dst in eqs:
                return eqs[d.dst] != neg
            if d.op == "unary" and d.data == "Not":
                neg, t = not neg, d.args[0]
            else:
                return None
        return None

    def ends(br, lab):
        """Edge on which no recorded change is left."""
        t = fl.term(br.args[0])
        while t[0] == "un" and t[1] == "Not":
            t, lab = t[2], not lab
        if t[0] == "cmp":
            l, r = t[2], t[3]
            if ("const", None) in (l, r):
                o = r if l == ("const", None) else l
                return any(from_log(a, 0) or from_log(a, 1) or deep_copy_of(a) is not None for a in alts(o)) and lab == (t[1] in ("Is", "Eq"))
            if is_len(r):
                return lab is (t[1] in ("GtE", "Gt", "Eq"))
            if is_len(l):
                return lab is (t[1] in ("LtE", "Lt", "Eq"))
            return False
        return contains(t, lambda x: x == LOG) and lab is False

    def is_len(t):
        return t[0] == "call" and t[1] == "len" and contains(t, lambda x: x == LOG)

    lid = {l.id for l in loops}
    # state: (mixture applied at all, replay flag, phase) phase: out/fresh/tested/due/applied
    bad = set()

    def step(ins, st):
        ap, rep, ph = st
        if ins.op == "setattr" and ins.data == "_is_replay" and fl.term(ins.args[0]) == ("self",):
            v = fl.term(ins.args[1])
            rep = v == ("const", True)
        if ins.id in sid:
            if ph in ("fresh", "tested", "applied") and ap:
                bad.add((ins.id, "unasked", st))
            ap = True
            if ph != "out":
                ph = "applied"
        if ins.id in nid:
            if not ap:
                bad.add((ins.id, "first", st))
            if not rep:
                bad.add((ins.id, "flag", st))
            if ph == "due":
                bad.add((ins.id, "late", st))
            if ph == "fresh":
                bad.add((ins.id, "untested", st))
            if ph == "applied":
                bad.add((ins.id, "once", st))
            ph = "asked"
        return [(ap, rep, ph)]

    def edge(ins, succ, lab, st):
        ap, rep, ph = st
        if ins.id in lid and lab == "next":
            return (ap, rep, "fresh")
        if ins.id in lid and lab == "stop":
            return (ap, rep, "out")
        if ins.op == "branch" and lab in (True, False) and ph in ("fresh", "applied", "tested"):
            e = eqtest(ins)
            if e is not None:
                return (ap, rep, "due" if lab == e else "tested")
            if ends(ins, lab):
                return (ap, rep, "tested")
        return st

    ex = Explorer(fl, step, edge=edge, follow_exc=False)
    vis = ex.run((False, False, "out"))
    ctx.count("replay_states", len(vis))
    msgs = {"unasked": "replay changes the mixture at a chunk no change was recorded for", "first": "replay asks for a chunk before the first recorded mixture is in force",
            "flag": "replay asks for a chunk without marking the job as replaying", "late": "replay asks for a chunk before applying the mixture recorded for it",
            "untested": "replay asks for a chunk without testing whether a change was recorded for it",
            "once": "replay applies only one of several mixtures recorded for the same chunk"}
    for iid, why, st in sorted(bad, key=str):
        it = next(((g.ins[k[0]], k[1], k[2]) for k in vis if k[0] == iid and k[2] == st), None)
        ctx.fail("replay-" + why, msgs[why] + (f"; path {trace(ex.path(it))}" if it else ""), g.ins[iid].loc)
    for k in vis:
        if g.ins[k[0]] is g.exit and k[2][1]:
            ctx.fail("replay-flag", "the job stays marked as replaying, so that later mixtures are not recorded", m.loc)
    # index and mixture come from the same entry
    pairs(ctx, fl, sets, eqs)


def pairs(ctx, fl, sets, eqs):
    """The mixture applied at a test is the one of the entry whose index was tested: reads of both parts use the same subscripts."""
    LOG = ("attr", ("self",), "_mixture_log")

    def subs(t, k):
        return {strip_ids(x[1]) for x in subterms(t) if x[0] == "item" and x[2] == ("const", k) and x[1][0] == "item" and x[1][1] == LOG}

    i0 = set()
    for d in eqs:
        c = fl.g.tempdef[d]
        i0 |= subs(fl.term(c.args[0]), 0) | subs(fl.term(c.args[1]), 0)
    i1 = set()
    for s in sets:
        i1 |= subs(fl.term(s.args[1]), 1)
    first = strip_ids(("item", LOG, ("const", 0)))
    if i0 and i1 and i0 - {first} != i1 - {first}:
        ctx.fail("replay-pair", f"replay applies the mixtures of entries {sorted(show(x) for x in i1)} at the chunks of entries {sorted(show(x) for x in i0)}",
                 sets[0].loc)
    if i1 and first not in i1 and not any(x[2][0] != "const" and x[2] != ("const", 0) and "0" in show(x) for x in i1):
        ctx.fail("replay-first", "replay does not start with the first recorded mixture", sets[0].loc)


# ---------------------------------------------------------------- loading a cached job
def reload(ctx):
    c = cls(ctx)
    m = ctx.proj.find_method(c, "from_cache")
    if m is None:
        raise AnchorError("from_cache not found")
    fl = ctx.flow(m, ctx.local_policy(m, c, stop=("replay", "__next__")), c, key="load")
    g = fl.g
    reps = [i for i in g.calls() if last(i.fn) == "replay" and i.recv is not None]
    ctx.count("reload_replays", len(reps))
    if not reps:
        ctx.fail("no-replay", "a job loaded from the cache is not brought back to its recorded progress", m.loc)
        return
    for r in reps:
        obj = fl.term(r.recv)
        cnt = fl.term(r.args[0]) if r.args else ("none",)
        for a in alts(cnt):
            if not (a == ("attr", obj, "_num_returns_gen") or a[0] in ("item", "call") and contains(a, lambda x: x == ("const", "_num_returns_gen"))):
                ctx.fail("reload-count", f"replays {show(a)} chunks instead of the recorded number", r.loc)
        d = defining(fl, r.args[0]) if r.args else None
        resets = [i for i in g.of("setattr") if i.data == "_num_returns_gen" and fl.term(i.args[0]) == obj]
        idset = {i.id for i in resets if fl.term(i.args[1]) == ("const", 0)}
        for what, pred in (("hand-out counter", lambda i: i.id in idset),
                           ("chunk index", lambda i: i.op == "setattr" and i.data == "_index" and fl.term(i.args[0]) == obj),
                           ("generator", lambda i: i.op == "setattr" and i.data == "_generator" and fl.term(i.args[0]) == obj and fl.term(i.args[1]) == ("const", None))):
            bad, ex = must_pass(fl, g.entry, lambda i: i is r, pred, follow_exc=False)
            for b in bad[:1]:
                ctx.fail("reload-reset", f"replay starts without resetting the {what}; path {trace(ex.path(b))}", r.loc)
        if d is not None and d.op == "attr":
            after = {i.id for x in resets for i in reach([s for s, l in x.succ], exc=False)}
            if d.id in after:
                ctx.fail("reload-count", "the number of chunks to replay is read after it was reset", d.loc)
        # skipped only if nothing was handed out, or when the caller replays itself
        def skip(i, lab):
            t = fl.term(i.args[0])
            return contains(t, lambda x: x == ("param", "replay")) or contains(t, lambda x: x[0] == "attr" and x[2] == "_num_returns_gen")
        bad, ex = must_pass(fl, g.entry, lambda i: i is g.exit, lambda i: i is r, via_edge=lambda i, l: l is False and skip(i, l) or l is True and skip(i, l) and neg(fl, i),
                            follow_exc=False)
        for b in bad[:1]:
            ctx.fail("no-replay", f"a job loaded from the cache is not brought back to its recorded progress; path {trace(ex.path(b))}", m.loc)


def neg(fl, i):
    t = fl.term(i.args[0])
    return t[0] == "un" and t[1] == "Not" or t[0] == "cmp" and t[1] in ("Eq", "LtE", "Lt")


def server_map(ctx):
    """The server serves a restored job from the restored distributor, not from one it had for the job before."""
    c = ctx.proj.cls("MixteraServer")
    maps = set()
    for m in c.methods.values():
        fl = ctx.flow(m, None, c, key="maps")
        for i in fl.g.calls():
            if last(i.fn) == "next_chunk_for" and i.recv is not None:
                t = strip_ids(fl.term(i.recv))
                for x in subterms(t):
                    if x[0] == "attr" and x[1] == ("self",) and not is_stub(x[2]):
                        maps.add(x)
    n = 0
    for m in c.methods.values():
        fl = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="restore-map")
        ops = [i for i in fl.g.calls() if last(i.fn) == "restore_checkpoint" or last(i.fn) == "to_thread" and i.args and
               (lambda t: t[0] == "attr" and t[2] == "restore_checkpoint")(fl.term(i.args[0]))]
        done = [i for i in fl.g.of("setitem") if strip_ids(fl.term(i.args[0])) == ("attr", ("self",), "_query_registration") and
                fl.term(i.args[2]) != ("const", False)]
        for op in ops:
            if not any(x in reach([op], exc=False) for x in done):
                continue
            for mp in maps:
                n += 1
                fresh = lambda i: (i.op in ("setitem", "delitem") and strip_ids(fl.term(i.args[0])) == mp or
                                   i.op == "call" and last(i.fn) in ("pop", "clear", "update") and i.recv is not None and strip_ids(fl.term(i.recv)) == mp)
                bad, ex = must_pass(fl, op, lambda i: any(i is x for x in done), fresh)
                if bad:
                    ctx.fail("stale-distributor", "a job can be reported restored while the server still hands out chunks from the distributor it had for the job before", bad[0][0].loc)
    if not n:
        raise AnchorError("restoring a job on the server not recognised")
    ctx.count("server_restores", n)


def is_stub(name):
    return name.endswith("stub")


def restart(ctx):
    """After a checkpoint was restored, the data set does not start the query again."""
    c = ctx.proj.cls("MixteraTorchDataset")
    m = ctx.proj.find_method(c, "__init__")
    fl = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="restart")
    rs = [i for i in fl.g.calls() if last(i.fn) == "restore_checkpoint"]
    if not rs:
        raise AnchorError("the data set never restores a checkpoint")
    for r in rs:
        ctx.count("dataset_restores")
        # the flags tested on the way decide which of the two a path takes
        for i in [x for x in fl.g.calls() if last(x.fn) == "execute_query"]:
            bad, ex = must_pass(fl, r, lambda x: x is i, lambda x: False, follow_exc=False)
            if bad:
                ctx.fail("restarted", "the query is started again after its checkpoint was restored: the job begins from the first chunk", i.loc)
