"""C37: chunk generation always makes progress.

 - the search for the next live key of an arbitrary mixture: every turn leaves the loop, gives up a key that reported its end, moves
   on by exactly one key, or is limited by a counter;
 - filling a mixture's chunk: another turn is taken only after samples were received or a key was given up;
 - every turn of the generator hands something out, ends, or moves on to the next chunk index;
 - no division by a quantity that can be zero;
 - a key is given up only after its source reported the end."""
from .linear import *
from .nonzero import *
from .c18 import key_value, entry_facts, none_ok, whiles, loops_around

QR = "QueryResult"


def loops_of(fl, ins):
    return sorted([h for h in fl.g.of("loop") if any(x is ins for x in body_of(h))], key=lambda h: -len(body_of(h)))


def get_flow(ctx):
    c = ctx.proj.cls(QR)
    m = ctx.proj.find_method(c, "_chunk_generator")
    if m is None:
        raise AnchorError("QueryResult has no chunk generator")
    return ctx.flow(m, ctx.local_policy(m, c, stop=("_persist_mixture_log", "_persist_chunk_idx", "_update_key_id_map", "merge_sorted_lists")), selfcls=c, key="gen")


def steps(v, start, n):
    """Number of +1 (mod n) steps from start to v, or None."""
    k = 0
    while True:
        if v == start or isinstance(v, Lin) and v == lin(start):
            return k
        if isinstance(v, Lin) and len(v.m) == 1 and not v.c:
            (a, c), = v.m
            if c == 1:
                v = a
                continue
        if isinstance(v, tuple) and v[0] == "bin" and v[1] == "Mod" and scalar(v[3]) and lin(v[3]) == n and scalar(v[2]):
            x = lin(v[2]) - Lin(1)
            if len(x.m) != 1 or x.c:
                return None
            (a, c), = x.m
            if c != 1:
                return None
            k += 1
            v = a
            continue
        return None


def arbitrary(ctx, fl, s):
    g = fl.g
    hs = loops_of(fl, s)
    if len(hs) < 2:
        raise AnchorError(f"{s.loc}: search for the next key of an arbitrary mixture not recognised")
    h = hs[-1]
    body = body_of(h)
    start = [i for i in body if i.op == "body" and loops_of(fl, i)[-1] is h]
    if len(start) != 1:
        raise AnchorError("search loop not recognised")
    start = start[0]
    havoc = stored_in(body)
    kd = defining(fl, s.recv)
    if kd is None or kd.op != "item":
        raise AnchorError("source of a key's samples not recognised")
    kv = key_value(fl, kd.args[1], havoc)
    if not (isinstance(kv, tuple) and kv[0] == "item" and isinstance(kv[2], Lin) and len(kv[2].m) == 1):
        raise AnchorError("key of an arbitrary mixture is not taken from a list by position")
    keys, IDX = kv[1], next(iter(kv[2].m))[0]
    n = Lin(0, {("call", "len", None, (keys,), ()): 1})
    res = ("call", "send", None, (), (), s.id, 1)
    # set of exhausted keys: what the loop adds to
    adds = [i for i in body if i.op == "call" and last(i.fn) == "add" and i.recv is not None]
    if not adds:
        ctx.fail("give-up", "exhausted keys are never remembered, so the search for a key with samples left does not end", s.loc)
        return
    pathsl = segments(fl, [(start, None)], {start.id} | (whiles(fl) - {h.id}), exc_of={s.id})
    ints = [k for k in havoc if k != IDX[1]]
    mono = None
    runs = []
    for kind, at, path in pathsl:
        if kind == "raise":
            continue
        r = Run(fl)
        r.havoc = havoc
        r.facts = entry_facts(fl, start, r, None, None)
        for i, lab in path:
            if i is s and lab != "exc":
                r.do(i, lab)
                r.val[s.dst] = res
                continue
            if i is s:
                r.events.append((i, ("exc",), None))
                continue
            if at.op != "body" and not any(i is x for x in body) and i is not h:
                break
            r.do(i, lab)
        if infeasible(r.facts) or not none_ok(r, res):
            continue
        runs.append((kind if at is start else "exit", at, path, r))
    back = [x for x in runs if x[0] == "cut"]
    counters = [k for k in ints if all(_delta(r, k) is not None and implies([], _delta(r, k)) for *_, r in back)]
    for kind, at, path, r in back:
        ctx.count("search_turns")
        ended = any(i is s and a == ("exc",) for i, a, _ in r.events)
        add = [(i, a) for i, a, _ in r.events if any(i is x for x in adds)]
        if add and not ended:
            ctx.fail("give-up", "a key is given up although its source did not report its end (its remaining samples are never handed out)", add[0][0].loc)
            continue
        end = r.env.get(IDX[1], IDX)
        k = steps(end, IDX, n)
        if add:
            ai, aa = add[0]
            v = aa[0]
            sent_idx = idx_at_send(fl, s, path, havoc, IDX)
            if sent_idx is not None and v != sent_idx and lin(v) != lin(sent_idx):
                ctx.fail("give-up", "a key other than the exhausted one is given up", ai.loc)
            continue
        if ended:
            ctx.fail("give-up", "a key that reported its end is not remembered as exhausted: the search can visit it forever", path[-1][0].loc)
            continue
        guard = entry_facts(fl, start, r, None, None)
        if k == 1:
            cond = any(implies(guard, n - Lin(1) - lin(x)) for x in len_atoms(guard) if lin(x) != n)
            if not cond:
                ctx.fail("search-end", "the search for a key with samples left does not stop when every key is exhausted", h.loc)
            continue
        # limited by a counter
        ok = False
        for c in counters:
            d = _delta(r, c)
            if implies([], d - Lin(1)):
                cv = lin(r.env.get(c))
                for f in r.facts:
                    if isinstance(f, Lin) and dict(f.m).get(("var", c), 0) < 0 and not any(isinstance(a, tuple) and a[0] == "var" and a[1] in havoc and a[1] != c for a, _ in f.m):
                        ok = True
        if not ok:
            what = "does not move on to another key" if k == 0 else "moves on by more than one key at a time, so it can pass over the only key with samples left on every turn" if k else "does not step through the keys one by one"
            ctx.fail("search-step", f"a turn of the search for a key with samples left {what}", path[-1][0].loc)
    for kind, at, path, r in runs:
        if kind == "cut":
            continue
        ctx.count("search_exits")
    ctx.floor("search_turns", 1)


def _delta(r, k):
    v = r.env.get(k, ("var", k))
    return lin(v) - lin(("var", k)) if scalar(v) else None


def len_atoms(facts):
    return {a for f in facts if isinstance(f, Lin) for a, _ in f.m if isinstance(a, tuple) and a[:2] == ("call", "len")}


def idx_at_send(fl, s, path, havoc, IDX):
    r = Run(fl)
    r.havoc = havoc
    for i, lab in path:
        if i is s:
            return r.env.get(IDX[1], IDX)
        r.do(i, lab)
    return None


def filling(ctx, fl, s):
    """The loop filling the chunk of a mixture: repeated only after progress."""
    g = fl.g
    hs = loops_of(fl, s)
    if len(hs) < 2:
        ctx.count("fill_loops")
        return  # filled in a single pass
    h = hs[-1]
    body = body_of(h)
    start = [i for i in body if i.op == "body" and loops_of(fl, i)[-1] is h]
    if len(start) != 1:
        raise AnchorError("loop filling a chunk not recognised")
    start = start[0]
    Rd = defining(fl, s.args[0])
    Rt = strip_ids(fl.term(Rd.args[0]))
    isR = lambda t: t is not None and strip_ids(fl.term(t)) == Rt
    removed = lambda i: i.op == "delitem" and isR(i.args[0]) or i.op == "call" and last(i.fn) in ("pop", "popitem", "clear") and i.recv is not None and isR(i.recv)

    def received(b, lab):
        """Edge on which samples have been received."""
        t = fl.term(b.args[0])
        while t[0] == "un" and t[1] == "Not":
            t, lab = t[2], not lab
        if t[0] == "cmp" and t[3] == ("const", 0) and contains(t[2], lambda x: x[0] == "call" and callname(x) == "send"):
            return t[1] in ("Gt", "NotEq") and lab or t[1] in ("LtE", "Eq") and not lab
        return t[0] == "call" and t[1] == "sum" and lab and contains(t, lambda x: x[0] == "call" and callname(x) == "send")

    flags = set()
    x = start
    conds = []
    for _ in range(20):
        ps = list(x.pred)
        if len(ps) != 1:
            break
        p, l = ps[0]
        if p.op == "branch":
            d = g.tempdef.get(p.args[0])
            neg = False
            while d is not None and d.op == "unary":
                neg, d = not neg, g.tempdef.get(d.args[0])
            if d is not None and d.op == "load" and (l is True) != neg:
                flags.add(d.data)
            conds.append(p)
        if p.op == "loop":
            break
        x = p
    ok = []
    for f in flags:
        bad = []
        for st in g.of("store"):
            if st.data != f or not any(y is st for y in body):
                continue
            for v in alts(fl.term(st.args[0])):
                vv = v
                while vv[0] == "call" and last(vv[1]) == "bool" and vv[3]:
                    vv = vv[3][0]
                if vv == ("const", False) or vv == ("rec",):
                    continue
                if vv == ("const", True):
                    # only where a key has been given up since the turn began (or the flag is already true)
                    src = sources(fl, st.args[0], f)
                    for c in src:
                        miss, ex = must_pass(fl, start.succ[0][0], lambda i: i is c, lambda i: removed(i), via_edge=received, kill=lambda i: i is start)
                        for b in miss:
                            bad.append((c, "another turn of filling the chunk is requested although nothing was received and no key was given up"))
                    continue
                if vv[0] == "cmp" and vv[1] == "Gt" and vv[3] == ("const", 0) or vv[0] == "cmp" and vv[1] == "GtE" and vv[3] == ("const", 1) or \
                        vv[0] == "cmp" and vv[1] == "NotEq" and ("const", 0) in vv[2:4]:
                    continue
                if vv[0] == "cmp":
                    bad.append((st, f"another turn of filling the chunk is requested although nothing need have been received ({show(vv)[-40:]})"))
                    continue
                bad.append((st, None))
        reset = [st for st in g.of("store") if st.data == f and any(y is st for y in body) and fl.term(st.args[0]) == ("const", False)]
        miss, ex = must_pass(fl, start.succ[0][0], lambda i: i.op in ("call", "next") and i is s or i is h, lambda i: i in reset, follow_exc=True) if reset else ([1], None)
        if miss:
            bad.append((start, "the loop filling a chunk repeats for ever because progress of earlier turns is never reset"))
        ok.append(bad)
    if not ok:
        raise AnchorError("the loop filling a chunk is not guarded by a progress flag")
    best = min(ok, key=len)
    for st, m in best:
        if m is None:
            raise AnchorError(f"{st.loc}: progress of filling a chunk not recognised")
        ctx.fail("fill", m, st.loc)
    ctx.count("fill_loops")


def sources(fl, t, f):
    """Instructions at which the constant True reaches temp t."""
    d = fl.g.tempdef.get(t)
    if d is None:
        return []
    if d.op == "const":
        return [next((u for u in fl.g.ins if t in u.args), d)]
    if d.op == "load" and d.data != f:
        out = []
        for r in fl.rdefs(d, d.data):
            if r is not None:
                out += sources(fl, r.args[0], f)
        return out
    return []


def turns(ctx, fl, sends):
    g = fl.g
    outer = None
    for h in g.of("loop"):
        if all(any(x is s for x in body_of(h)) for s in sends):
            if outer is None or len(body_of(h)) > len(body_of(outer)):
                outer = h
    if outer is None:
        raise AnchorError("main loop of the chunk generator not recognised")
    body = body_of(outer)
    start = [i for i in body if i.op == "body" and loops_of(fl, i)[-1] is outer]
    if len(start) != 1:
        raise AnchorError("main loop of the chunk generator not recognised")
    start = start[0]
    # chunk index: the integer compared with the requested index
    idx = {st.data for st in g.of("store") if any(x is st for x in body) and var_delta(fl, st, st.data) == 1}
    cmpd = set()
    for i in g.of("cmp"):
        for a in i.args:
            d = g.tempdef.get(a)
            if d is not None and d.op == "load" and d.data in idx and i.data in ("Eq", "NotEq", "Lt", "GtE"):
                o = [x for x in i.args if x != a]
                if o and contains(fl.term(o[0]), lambda x: x[0] == "sent"):
                    cmpd.add(d.data)
    via = lambda i: i.op == "yield" or i.op == "store" and i.data in cmpd and var_delta(fl, i, i.data) == 1
    ctx.count("turn_checks")
    hk = None
    bad, ex = must_pass(fl, start.succ[0][0], lambda i: i is start, via, follow_exc=True)
    for ins, _, _ in bad:
        ctx.fail("turn", "a turn of the chunk generator can neither hand out anything nor move on to the next chunk", outer.loc)


def divide(ctx, fl):
    """Giving missing samples to other keys never divides by zero: keys may have no share of a chunk."""
    for i, t in divisions(fl):
        tm = fl.term(i.args[0])
        if tm[0] == "const" and isinstance(tm[1], str) or contains(tm, lambda x: x[0] == "fstr"):
            continue
        ctx.count("divisions")
        if unguarded(fl, i, t):
            ctx.fail("divide", f"the chunk generator can divide by zero ({show(strip_ids(fl.term(t)))[:80]}), which ends the job instead of "
                     "the chunk: keys may have a share of zero samples", i.loc)


def run(ctx):
    ctx.rule("every turn of the search for a key with samples left exits, records a key that raised StopIteration, steps by exactly one "
             "key under a guard that stops once all keys are exhausted, or is bounded by a counter")
    ctx.rule("the progress flag of the filling loop is reset every turn and set only by received samples or a removed key; every turn of "
             "the generator yields, returns or advances the chunk index")
    ctx.rule("every division of the generator happens only where the divisor is known not to be zero (tested, or a sum over the same "
             "elements of which one is known to be positive)")
    fl = get_flow(ctx)
    sends = [i for i in fl.g.calls() if last(i.fn) == "send" and i.args]
    if not sends:
        raise AnchorError("the chunk generator requests nothing from its sources")
    for s in sends:
        d = defining(fl, s.args[0])
        if d is not None and d.op == "item":
            ctx.part(filling, ctx, fl, s)
        elif d is not None and d.op == "attr":
            ctx.part(arbitrary, ctx, fl, s)
        else:
            raise AnchorError(f"{s.loc}: size requested from a key not recognised")
    ctx.part(turns, ctx, fl, sends)
    ctx.part(divide, ctx, fl)
