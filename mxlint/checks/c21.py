"""C21: feedback changes only the job's own mixture, forwards only, and keeps the state of mixing algorithms consistent."""
from .shapes import *
from .c18 import loops_around
from .nonzero import divisions, unguarded
from .c19 import methods_of
from .locks import LockSets, lock_fields

ALG = "DynamicMixingAlgorithm"
SELF = ("self",)


def run(ctx):
    ctx.rule("Length analysis of every concrete mixing algorithm: an abstract interpretation of process_losses (helpers, super() calls and loops over lists of arrays "
             "included) carries for every array its length as a linear expression over the lengths at entry and what it is the sum of, for every combination of "
             "attributes that are None or set; at every exit all per-domain arrays kept in attributes, and all elements of kept lists, must have the length of "
             "the accumulators, losses and counts must both hold exactly the old plus the incoming values, and the returned mixture must be None or cover the "
             "same domains. Dataflow of feedback: steps only via max(), losses forwarded iff losses and counts are given, state updated before the mixture is "
             "computed, no new mixture -> mixture in force untouched, weights keyed by the domain's id, adopted only after everything that can fail. "
             "Ownership: a job's mixture is a deep copy; feedback is applied to the mixture of the job named, under the lock. Explorer over the chunk generator: "
             "different rows -> new mixture id before the chunk is yielded. Divisions of the averaging "
             "algorithm only where the divisor is known not to be zero.")
    ctx.part(lengths, ctx)
    ctx.part(averages, ctx)
    ctx.part(protocol, ctx)
    ctx.part(adoption, ctx)
    ctx.part(id_map, ctx)
    ctx.part(steps, ctx)
    ctx.part(feedback, ctx)
    ctx.part(job, ctx)
    ctx.part(isolation, ctx)
    ctx.part(mixture_ids, ctx)
    ctx.part(failed_update, ctx)


# ------------------------------------------------------------------ divisions
def averages(ctx):
    """Averages and normalisations of an algorithm: divided by what is known not to be zero (ADO: see C34)."""
    for c in algorithms(ctx)[1]:
        m = ctx.proj.find_method(c, "calc_mixture")
        if m is None or any(k.name == "AdoDynamicMixing" for k in ctx.proj.mro(c)):
            continue
        fl = ctx.flow(m, ctx.local_policy(m, c), c, key="all")
        for i, t in divisions(fl):
            ctx.count("divisions")
            if unguarded(fl, i, t):
                ctx.fail("divide", f"the weights proposed by {c.name} are divided by a quantity that can be zero ({show(strip_ids(fl.term(t)))[:60]}): "
                         "a domain without samples, or losses that are all zero, make them not a number", i.loc)


# ------------------------------------------------------------------ length analysis
D, P, I = [Lin(0, {("L", x): 1}) for x in "DPI"]
BASE = (D, P, I - Lin(1))


def algorithms(ctx):
    base = ctx.proj.cls(ALG)
    out = []
    for cs in ctx.proj.classes.values():
        for c in cs:
            if c is not base and base in ctx.proj.mro(c):
                out.append(c)
    if not out:
        raise AnchorError("no mixing algorithm found")
    return base, sorted(out, key=lambda c: c.name)


def accumulators(ctx, base):
    """Arrays the constructor starts as empty and methods change: [losses, counts]."""
    init = ctx.proj.find_method(base, "__init__")
    fl = ctx.flow(init, None, base)
    empty, other = {}, {}
    for i in fl.g.of("setattr"):
        if fl.term(i.args[0]) != SELF:
            continue
        t = fl.term(i.args[1])
        if t[0] == "call" and (t[1] or "").startswith(NP) and t[3]:
            a = t[3][0]
            if callname(t) in ("array", "asarray") and a[0] in ("list0", "list", "tuple", "const"):
                (empty if is_empty(fl, i.args[1]) else other)[i.data] = i
            elif callname(t) in SIZED:
                (empty if a == ("const", 0) else other)[i.data] = i
    return empty, other


def is_empty(fl, t):
    d = defining(fl, t)
    if d is None or not d.args:
        return False
    a = fl.g.tempdef.get(d.args[0])
    return a is not None and a.op in ("list", "tuple") and not a.args


def lengths(ctx):
    base, algs = algorithms(ctx)
    empty, other = accumulators(ctx, base)
    pl = ctx.proj.find_method(base, "process_losses")
    if pl is None or len([p for p in pl.params() if p != "self"]) != 3:
        raise AnchorError("process_losses not recognised")
    pn = [p for p in pl.params() if p != "self"]
    if set(empty) != {"losses", "counts"}:
        have = {i.data for c in [base] + algs for m in methods_of(ctx, c) for i in ctx.flow(m, lambda *a: False, c, key="raw").g.of("setattr")}
        if "losses" in have and "counts" in have and len(empty) == 1:
            ctx.fail("initial", f"the accumulators do not start with the same domains (none): only {sorted(empty)} start empty", ctx.proj.find_method(base, "__init__").loc)
            return
        raise AnchorError(f"the accumulators are not recognised: {sorted(empty)}")
    for c in algs:
        ctx.part(lengths_of, ctx, base, c, sorted(other), pn)
    ctx.part(resets, ctx, base, algs)
    ctx.floor("algorithms", 2)


def init_attrs(ctx, c):
    """(attributes the constructors set to None, to an empty list)."""
    none, lists = set(), set()
    for k in reversed(list(ctx.proj.mro(c))):
        m = next((f for f in methods_of(ctx, k) if f.name == "__init__"), None)
        if m is None:
            continue
        fl = ctx.flow(m, lambda *a: False, c, key="raw")
        for i in fl.g.of("setattr"):
            if fl.term(i.args[0]) != SELF:
                continue
            d = defining(fl, i.args[1])
            if d is not None and d.op == "const" and d.data is None:
                none.add(i.data)
            elif d is not None and d.op == "list" and not d.args:
                lists.add(i.data)
    return none, lists


def lengths_of(ctx, base, c, external, pn):
    m = ctx.proj.find_method(c, "process_losses")
    calc = ctx.proj.find_method(c, "calc_mixture")
    none, lists = init_attrs(ctx, c)
    upd = ctx.flow(m, ctx.local_policy(m, c, stop=("calc_mixture",)), c, key="upd")
    cal = ctx.flow(calc, ctx.local_policy(calc, c), c, key="all")
    acc = {"losses": arr(D, ("losses0",)), "counts": arr(D, ("counts0",))}
    params = {pn[0]: arr(P, ("losses",)), pn[1]: arr(P, ("counts",))}

    def fields(opts, arrs):
        f = dict(acc)
        for e in external:
            f[e] = arr(I, (e,))
        for o in opts:
            f[o] = ("opt", arr(D, (o,)), o)
        for a in arrs:
            f[a] = ("arrs", (D,), 0, a)
        return f

    opts, arrs = set(), set()
    for _ in range(8):
        runs = [Shapes(upd, fields(opts, arrs), params, BASE), Shapes(cal, fields(opts, arrs), {}, BASE)]
        no = opts | {a for s in runs for a, x, i, f in s.sets if a in none and isarr(x)}
        na = arrs | {a for s in runs for a, x, i, f in s.appends if a in lists and isarr(x)}
        if no == opts and na == arrs:
            break
        opts, arrs = no, na
    kept = {o for o in opts if any(o in s.exposed for s in runs)}
    ctx.count("algorithms")
    ctx.count("per_domain_attributes", 2 + len(kept) + len(arrs))
    for s, when in zip(runs, ("recording losses", "computing a mixture")):
        if not s.exits:
            raise AnchorError(f"{c.name}: {when} never ends")
        exits(ctx, c, s, when, kept, opts, arrs, s is runs[1])
    ctx.sample(f"{c.name}: {', '.join(['losses', 'counts'] + sorted(kept) + [a + '[…]' for a in sorted(arrs)])} keep equal lengths on {sum(len(s.exits) for s in runs)} abstract exits")
    # what is accumulated (before the mixture is computed)
    u = runs[0]
    want = {"losses": ("losses", "losses0"), "counts": ("counts", "counts0")}
    for r, st, i in u.exits:
        for a, w in want.items():
            ctx.count("accumulations")
            v = st.fields[a]
            if not isarr(v):
                raise AnchorError(f"{c.name}: what {a} holds is not recognised")
            if "?" in v[2]:
                raise AnchorError(f"{c.name}: what is accumulated in {a} is not recognised")
            got = tuple(sorted(v[2]))
            if got != w:
                ctx.fail(f"{c.name}:accumulate", f"{c.name}: after feedback, {a} hold {spell(got)} instead of the previous {a} plus the ones received", where(u, a, i))


def exits(ctx, c, s, when, kept, opts, arrs, mixture):
    for r, st, i in s.exits:
        ctx.count("abstract_exits")
        facts = list(st.facts)
        n = st.fields["losses"]
        if not isarr(n):
            raise AnchorError(f"{c.name}: accumulated losses not recognised at {i.loc}")
        if unknown(n[1]):
            raise AnchorError(f"{c.name}: length of the accumulated losses not recognised: {n[1]}")
        for a in ["counts"] + sorted(kept):
            v = st.fields.get(a)
            if v in (("none",),) and a in opts:
                continue
            if kind(v) == "opt":
                v = v[1]
            if not isarr(v) or unknown(v[1]):
                raise AnchorError(f"{c.name}: length of {a} not recognised ({v})")
            if not equal(facts, v[1], n[1]):
                ctx.fail(f"{c.name}:{a}", f"{c.name}: {a} does not cover the same domains as the accumulated losses after {when} ({brief_len(v[1])} instead of {brief_len(n[1])})", where(s, a, i))
        for a in sorted(arrs):
            v = st.fields.get(a)
            if kind(v) != "arrs":
                raise AnchorError(f"{c.name}: list {a} not recognised ({v})")
            for x in v[1]:
                if unknown(x):
                    raise AnchorError(f"{c.name}: length of the entries of {a} not recognised")
                if not equal(facts, x, n[1]):
                    ctx.fail(f"{c.name}:{a}", f"{c.name}: entries of {a} do not cover the same domains as the accumulated losses after {when} ({brief_len(x)} instead of {brief_len(n[1])})", where(s, a, i))
        cnt = {st.fields[a][2] for a in arrs}
        if len(cnt) > 1:
            ctx.fail(f"{c.name}:history", f"{c.name}: the per-step histories ({', '.join(sorted(arrs))}) do not grow together", i.loc)
        if not mixture:
            continue
        if kind(r) == "opt":
            r = r[1]
        if r == ("none",):
            continue
        ctx.count("mixtures_returned")
        if isarr(r) and len(r[1].m) == 1 and "masked" in str(r[1]):
            ctx.fail(f"{c.name}:result", f"{c.name}: the mixture returned covers only some of the domains", i.loc)
            continue
        if not isarr(r) or unknown(r[1]):
            raise AnchorError(f"{c.name}: length of the returned mixture not recognised ({r})")
        if not equal(facts, r[1], n[1]):
            ctx.fail(f"{c.name}:result", f"{c.name}: the mixture returned covers other domains than the losses ({brief_len(r[1])} instead of {brief_len(n[1])})", i.loc)


def spell(got):
    return " + ".join({"losses0": "the previous losses", "counts0": "the previous counts", "losses": "the losses received", "counts": "the counts received", "ones": "ones"}.get(x, x) for x in got) or "zeros"


def where(s, a, i):
    at = [x for n, v, x, f in s.sets if n == a]
    return at[-1].loc if at else i.loc


def unknown(n):
    return not length_only(n) or any(x in str(n) for x in ("unknown", "masked", "slice", "'any'"))


def brief_len(n):
    return str(n).replace("('L', 'D')", "known domains").replace("('L', 'P')", "domains reported").replace("('L', 'I')", "initial domains")


def resets(ctx, base, algs):
    """Accumulators are emptied together."""
    for c in [base] + algs:
        for m in methods_of(ctx, c):
            if m.name == "__init__":
                continue
            fl = ctx.flow(m, lambda *a: False, c, key="raw")
            cleared = {}
            for i in fl.g.of("setattr"):
                if i.data in ("losses", "counts") and fl.term(i.args[0]) == SELF and is_empty(fl, i.args[1]):
                    cleared.setdefault(i.data, []).append(i)
            for a, ins in cleared.items():
                b = "counts" if a == "losses" else "losses"
                ctx.count("resets")
                for x in ins:
                    before, _ = must_pass(fl, fl.g.entry, lambda y: y is x, lambda y: y in cleared.get(b, ()), follow_exc=False)
                    after, _ = must_pass(fl, x, lambda y: y.op == "exit", lambda y: y in cleared.get(b, ()), follow_exc=False)
                    if before and after:
                        ctx.fail(f"{c.name}:{m.name}", f"{m.qual} empties {a} but not {b}", x.loc)


# ------------------------------------------------------------------ processing losses
def protocol(ctx):
    base, algs = algorithms(ctx)
    done = set()
    for c in [base] + algs:
        m = ctx.proj.find_method(c, "process_losses")
        if m in done:
            continue
        done.add(m)
        pn = [p for p in m.params() if p != "self"]
        upd = [f.name for f in methods_of(ctx, base) if f.name == "_update_state"]
        fl = ctx.flow(m, ctx.local_policy(m, c, stop=("calc_mixture", *upd)), c, key="proto")
        calc = [i for i in fl.g.calls() if last(i.fn) == "calc_mixture" and i.recv is not None and fl.term(i.recv) == SELF]
        if not calc:
            raise AnchorError(f"{m.qual} does not compute a mixture")
        ups = [i for i in fl.g.calls() if last(i.fn) in upd and i.recv is not None and fl.term(i.recv) == SELF]
        if ups:
            for u in ups:
                ctx.count("state_updates")
                f = ctx.proj.find_method(c, last(u.fn))
                up = [p for p in f.params() if p != "self"]
                for k, name in enumerate(up[:2]):
                    if arg_term(u, fl, k, name) != ("param", pn[k]):
                        ctx.fail("update-args", f"{m.qual} updates the state with {show(arg_term(u, fl, k, name) or ('none',))[:40]} as {name}", u.loc)
        else:
            ups = [i for i in fl.g.live if i.op in ("setattr", "setitem") and "losses" in str(i.data or show(fl.term(i.args[0])))]
            if not ups:
                raise AnchorError(f"{m.qual}: where losses are accumulated is not recognised")
        bad, _ = must_pass(fl, fl.g.entry, lambda i: i in calc, lambda i: i in ups, follow_exc=False)
        if bad:
            ctx.fail("order", f"{m.qual} computes a mixture without the losses just reported", bad[0][0].loc)
        bad, _ = must_pass(fl, fl.g.entry, lambda i: i.op == "exit", lambda i: i in ups, follow_exc=False)
        if bad:
            ctx.fail("order", f"{m.qual} may return without recording the losses reported", m.loc)
        for r in root_returns(fl):
            for t in alts(fl.term(r.args[0]) if r.args and r.args[0] is not None else ("const", None)):
                ctx.count("results")
                if not is_call_term(t, "calc_mixture") and t != ("const", None):
                    raise AnchorError(f"{m.qual}: result not recognised")
        bad, _ = must_pass(fl, fl.g.entry, lambda i: i.op == "exit", lambda i: i in calc, follow_exc=False)
        if bad:
            ctx.fail("order", f"{m.qual} may return without computing a mixture", m.loc)
        ctx.part(flag, ctx, fl, m, pn[2], calc)


LAST = "last_received_mixture"


def flag(ctx, fl, m, p, calc):
    """The algorithm is told that the client uses a new mixture iff the id reported is higher than all before."""
    mid = None
    for kind_, at, path in segments(fl, [(fl.g.entry, None)], {i.id for i in calc}):
        if kind_ != "cut":
            continue
        r = execute(fl, path, frozenset())
        if r is None:
            continue
        ctx.count("flag_paths")
        arg = at.args[0] if at.args else next(iter((at.kw or {}).values()), None)
        v = r.v(arg)
        mid, before = lin(wrap(("param", p))), lin(("attr", ("t", SELF), LAST))
        after = r.fields.get((("t", SELF), LAST))
        newer = implies(r.facts, mid - before - Lin(1))
        older = implies(r.facts, before - mid)
        truth = const_truth(v)
        if truth is None and isinstance(v, tuple) and v[0] == "cmp":
            f = of_cmp(v, True)
            g = of_cmp(v, False)
            want = mid - before - Lin(1)
            if not (len(f) == 1 and not isinstance(f[0], tuple) and implies(list(r.facts) + f, want) and len(g) == 1 and implies(list(r.facts) + g, before - mid)):
                ctx.fail("flag", f"{m.qual} tells the algorithm something other than whether the client uses a newer mixture", at.loc)
            # the value was taken before the update of the attribute (terms are evaluated in order)
        elif truth is None:
            raise AnchorError(f"{m.qual}: flag passed to the algorithm not recognised ({v})")
        elif truth and not newer:
            ctx.fail("flag", f"{m.qual} tells the algorithm that the client uses a newer mixture although the id reported need not be higher than the last one", at.loc)
        elif not truth and not older:
            ctx.fail("flag", f"{m.qual} does not tell the algorithm that the client uses a newer mixture", at.loc)
        if after is None:
            if not older:
                ctx.fail("last-id", f"{m.qual} does not remember the newest mixture id reported by the client", at.loc)
        else:
            a = lin(after)
            want = Lin(0, {("max", mid, before): 1})
            if not (equal(r.facts, a, want) or older and equal(r.facts, a, before) or newer and equal(r.facts, a, mid)):
                ctx.fail("last-id", f"{m.qual} does not remember the newest mixture id reported by the client but another value", at.loc)
    ctx.floor("flag_paths", 1)


def const_truth(v):
    if isinstance(v, Lin) and v.const:
        return bool(v.c)
    if isinstance(v, tuple) and v[0] == "const":
        return bool(v[1])
    if isinstance(v, tuple) and v[0] == "t" and v[1][0] == "const":
        return bool(v[1][1])
    if isinstance(v, tuple) and v[0] == "not":
        x = const_truth(v[1])
        return None if x is None else not x
    return None


# ------------------------------------------------------------------ adopting a mixture
def dynamic(ctx):
    """(class, method, flow, call) of the mixture that drives an algorithm."""
    base = ctx.proj.cls("Mixture")
    out = []
    for cs in ctx.proj.classes.values():
        for c in cs:
            if base not in ctx.proj.mro(c) or c is base:
                continue
            for m in methods_of(ctx, c):
                if m.name != "_process_losses":
                    continue
                fl = ctx.flow(m, ctx.local_policy(m, c), c, key="c21")
                calls = [i for i in fl.g.calls() if last(i.fn) == "process_losses" and i.recv is not None]
                if calls:
                    out.append((c, m, fl, calls))
    if len(out) != 1:
        raise AnchorError(f"expected one mixture driven by an algorithm, found {len(out)}")
    return out[0]


def in_force_attr(ctx, c):
    m = ctx.proj.find_method(c, "mixture_in_rows")
    fl = ctx.flow(m, ctx.local_policy(m, c), c, key="c21")
    names = set()
    for i in root_returns(fl):
        for t in alts(fl.term(i.args[0])):
            for x in subterms(t):
                if x[0] == "call" and callname(x) == "mixture_in_rows" and x[2] is not None and x[2][0] == "attr" and x[2][1] == SELF:
                    names.add(x[2][2])
    if len(names) != 1:
        raise AnchorError(f"{c.name}: the mixture in force is not recognised")
    return names.pop()


def adoption(ctx):
    c, m, fl, calls = dynamic(ctx)
    g = fl.g
    cur = in_force_attr(ctx, c)
    if len(calls) != 1:
        raise AnchorError(f"{m.qual}: expected one call of the algorithm")
    call = calls[0]
    ctx.count("algorithm_calls")
    pn = [p for p in m.params() if p != "self"]
    base = ctx.proj.find_method(ctx.proj.cls(ALG), "process_losses")
    names = [p for p in base.params() if p != "self"]
    for k, n in enumerate(names):
        if arg_term(call, fl, k, n) != ("param", pn[k]):
            ctx.fail("algorithm-args", f"{m.qual} gives the algorithm {show(arg_term(call, fl, k, n) or ('const', None))[:50]} as {n}", call.loc)
    res = fl.term(call.dst)
    sets = [i for i in g.of("setattr") if i.data == cur and fl.term(i.args[0]) == SELF]
    if not sets:
        ctx.fail("adopt", f"{m.qual} never adopts the mixture an algorithm proposes", call.loc)
        return

    def isres(t):
        d = defining(fl, t)
        return d is call or fl.term(t) == res

    def value(v):
        def hook(d):
            return v if d is call else None
        return hook

    # nothing proposed: unchanged.   (None is ("c", None))
    ex = Explorer(fl, lambda i, s: [1 if i in sets else s], hook=value(("c", None)), follow_exc=False)
    vis = ex.run(0, start=g.entry)
    for i in g.live:
        if i.op == "setattr" and i in sets and reached(vis, i):
            ctx.fail("none", f"{m.qual} replaces the mixture in force although the algorithm proposes none", i.loc)
            break
    for s, l in call.succ:
        if l in ("exc", "exc-base"):
            continue
        bad, _ = must_pass(fl, s, lambda i: i.op == "exit", lambda i: i in sets, follow_exc=False, hook=value("notnone"))
        if bad:
            ctx.fail("adopt", f"{m.qual} may ignore a mixture the algorithm proposes", call.loc)
    ctx.count("adoption_obligations", 2)
    # value adopted
    for i in sets:
        d = defining(fl, i.args[1])
        if d is None or d.op != "call":
            raise AnchorError(f"{i.loc}: adopted mixture not recognised")
        k = ctx.proj.classes.get(last(d.fn)) or ctx.proj.classes.get((d.fn or "").split(".")[-2] if "." in (d.fn or "") else "")
        init = ctx.proj.find_method(ctx.proj.cls(last(d.fn)), "__init__") if k else None
        if init is None:
            raise AnchorError(f"{i.loc}: adopted mixture not recognised")
        ip = [p for p in init.params() if p != "self"]
        got = {p: arg_term(d, fl, n, p) for n, p in enumerate(ip)}
        ctx.count("adopted_values")
        if got.get("chunk_size") != ("attr", SELF, "chunk_size"):
            ctx.fail("adopt-size", f"{m.qual}: the mixture adopted does not have the chunk size of the job", d.loc)
        if "strict" in ip and got.get("strict") != ("attr", SELF, "strict"):
            ctx.fail("adopt-strict", f"{m.qual}: the mixture adopted does not have the strictness of the mixture it belongs to", d.loc)
        w = d.args[1] if len(d.args) > 1 else (d.kw or {}).get(ip[1])
        ctx.part(weights, ctx, c, m, fl, w, res)
        # nothing that may fail on purpose after the switch
        for x in reach([s for s, l in i.succ if l not in ("exc", "exc-base")], exc=False):
            if x.op in ("raise", "assertfail"):
                ctx.fail("late-check", f"{m.qual} checks the proposed mixture only after having adopted it", x.loc)
                break


def reached(vis, i):
    return any((k[0] if isinstance(k, tuple) else k) == i.id for k in vis)


def id_attrs(ctx, c):
    """(key -> id attribute, id -> key attribute) of the dynamic mixture."""
    m = ctx.proj.find_method(c, "process_id_map")
    fl = ctx.flow(m, ctx.local_policy(m, c), c, key="c21")
    p = [x for x in m.params() if x != "self"][0]
    fwd, inv, und = [], [], []
    for i in fl.g.of("setattr"):
        if fl.term(i.args[0]) != SELF:
            continue
        t = fl.term(i.args[1])
        u = t
        while u[0] == "call" and callname(u) in ("dict", "copy", "deepcopy") and (u[3] or u[2] is not None):
            u = u[3][0] if u[3] else u[2]
        if u == ("param", p):
            fwd.append(i)
            continue
        o = orientation(fl, i.args[1], p)
        if o == "inv":
            inv.append(i)
        elif o == "same":
            und.append(i)
    return m, fl, p, fwd, inv, und


def orientation(fl, t, p):
    """How a dict built from parameter p maps: 'inv' (value -> key), 'same', or None."""
    src = map_source(p)
    out = set()
    d = defining(fl, t)
    if d is None:
        return None
    if d.op == "newcomp":
        for e in fl.g.of("elem"):
            if defining(fl, e.args[0]) is d or fl.g.tempdef.get(e.args[0]) is d:
                if len(e.args) == 3:
                    out.add(pair(fl, e.args[1], e.args[2], src))
        return out.pop() if len(out) == 1 else None
    if d.op == "dict" and not d.args:
        for s in fl.g.of("setitem"):
            if defining(fl, s.args[0]) is d:
                out.add(pair(fl, s.args[1], s.args[2], src))
        return out.pop() if len(out) == 1 else None
    if d.op == "call" and d.fn == "dict" and d.args:
        x = defining(fl, d.args[0])
        if x is not None and x.op == "newcomp":
            for e in fl.g.of("elem"):
                if fl.g.tempdef.get(e.args[0]) is x:
                    q = defining(fl, e.args[-1])
                    if q is not None and q.op == "tuple" and len(q.args) == 2:
                        out.add(pair(fl, q.args[0], q.args[1], src))
            return out.pop() if len(out) == 1 else None
        if x is not None and x.op == "call" and last(x.fn) == "zip" and len(x.args) == 2:
            a, b = fl.term(x.args[0]), fl.term(x.args[1])
            if is_call_term(a, "values") and is_call_term(b, "keys"):
                return "inv"
            if is_call_term(a, "keys") and is_call_term(b, "values"):
                return "same"
    return None


def map_source(p):
    return lambda t: t == ("param", p) or t[0] == "attr" and t[1] == SELF and "key_id" in t[2]


def pair(fl, k, v, src):
    a, b = role(fl.term(k), src), role(fl.term(v), src)
    return "inv" if (a, b) == ("value", "key") else "same" if (a, b) == ("key", "value") else None


def role(t, src):
    """'key' | 'value' of the mapping src."""
    if t[0] == "keyof" and src(t[1]):
        return "key"
    if t[0] == "valof" and src(t[1]):
        return "value"
    if t[0] == "elem":
        b = t[1]
        if src(b) or is_call_term(b, "keys") and src(b[2]):
            return "key"
        if is_call_term(b, "values") and src(b[2]):
            return "value"
    if t[0] == "item":
        if t[1][0] == "elem" and is_call_term(t[1][1], "items") and src(t[1][1][2]):
            return {("const", 0): "key", ("const", 1): "value"}.get(t[2])
        if src(t[1]) and role(t[2], src) == "key":
            return "value"
    return None


def weights(ctx, c, m, fl, w, res):
    """Each weight goes to the key whose id is the weight's position."""
    _, _, _, fwd, inv, _ = id_attrs(ctx, c)
    fa, ia = {i.data for i in fwd}, {i.data for i in inv}
    d = defining(fl, w)
    pairs = []
    if d is not None and d.op == "newcomp":
        pairs = [(e, e.args[1], e.args[2]) for e in fl.g.of("elem") if fl.g.tempdef.get(e.args[0]) is d and len(e.args) == 3]
    elif d is not None and d.op == "dict":
        pairs = [(s, s.args[1], s.args[2]) for s in fl.g.of("setitem") if defining(fl, s.args[0]) is d]
    if not pairs:
        raise AnchorError(f"{m.qual}: weights of the adopted mixture not recognised")

    def seq(t):
        while t[0] == "call" and callname(t) in ("tolist", "list", "enumerate", "copy", "iterof", "array", "asarray", "flatten", "ravel"):
            t = t[3][0] if t[3] else t[2]
        return t[1] if t[0] == "iterof" else t

    def isres(t):
        return any(x == res for x in alts(t))

    fwds = lambda t: t[0] == "attr" and t[1] == SELF and t[2] in fa
    invs = lambda t: t[0] == "attr" and t[1] == SELF and t[2] in ia

    def index_of(t):
        """('idx', X): position in the result; ('id', key term): id of a key."""
        while t[0] == "call" and t[1] in ("int",) and t[3]:
            t = t[3][0]
        if t[0] == "index" and isres(seq(t[1])):
            return ("pos",)
        if t[0] == "elem" and is_call_term(t[1], "range"):
            a = t[1][3]
            if len(a) == 1 and is_call_term(a[0], "len") and isres(seq(a[0][3][0])):
                return ("pos",)
        r = role(t, fwds)
        if r == "value":
            return ("mapid",)
        r = role(t, invs)
        if r == "key":
            return ("mapid",)
        return None

    for at, k, v in pairs:
        ctx.count("weight_assignments")
        tk, tv = fl.term(k), fl.term(v)
        while tv[0] == "call" and tv[1] in ("float",) and tv[3]:
            tv = tv[3][0]
        ok = None
        # value: element of the result
        if tv[0] in ("elem", "valof") and isres(seq(tv[1])):
            vpos = ("pos",)
        elif tv[0] == "item" and isres(seq(tv[1])):
            vpos = index_of(tv[2])
            if vpos is None:
                raise AnchorError(f"{at.loc}: which weight is taken is not recognised ({show(tv[2])[:60]})")
        else:
            if not any(x == res for x in subterms(tv)):
                ctx.fail("weights", f"{m.qual}: the weights adopted are not the ones the algorithm proposes ({show(tv)[:60]})", at.loc)
                continue
            raise AnchorError(f"{at.loc}: weight not recognised ({show(tv)[:60]})")
        # key
        if tk[0] == "item" and invs(tk[1]):
            kpos = index_of(tk[2])
        elif role(tk, fwds) == "key" or role(tk, invs) == "value":
            kpos = ("mapid",)
        elif tk[0] == "item" and fwds(tk[1]):
            ctx.fail("weights", f"{m.qual}: weights are assigned using the map from keys to ids in the wrong direction", at.loc)
            continue
        elif tk[0] in ("elem", "item", "keyof", "valof"):
            ctx.fail("weights", f"{m.qual}: a weight is assigned to {show(tk)[:60]} instead of the key with that domain's id", at.loc)
            continue
        else:
            raise AnchorError(f"{at.loc}: key not recognised ({show(tk)[:60]})")
        if kpos is None:
            if tk[0] == "item" and tk[2][0] == "bin":
                ctx.fail("weights", f"{m.qual}: a weight is assigned to the key of another domain (id {show(tk[2])[:40]})", at.loc)
                continue
            raise AnchorError(f"{at.loc}: id of the key not recognised ({show(tk)[:60]})")
        if kpos != vpos:
            ctx.fail("weights", f"{m.qual}: a weight is not assigned to the key with the id of its domain", at.loc)
        # what may be left out: weights of zero
        for b in fl.g.of("branch"):
            hs = loops_around(fl, at)
            if not hs or not any(h.id in {x.id for x in loops_around(fl, b)} for h in hs[-1:]):
                continue
            ct = fl.term(b.args[0])
            neg = False
            while ct[0] == "un" and ct[1] == "Not":
                ct, neg = ct[2], not neg
            if ct[0] != "cmp":
                continue
            x, op, y = ct[2], ct[1], ct[3]
            if y[0] != "const":
                x, y, op = y, x, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            if y[0] != "const" or not isinstance(y[1], (int, float)) or isinstance(y[1], bool):
                continue
            if not any(z == res for z in subterms(x)):
                continue
            ctx.count("weight_filters")
            if y[1] > 0 and op in ("Gt", "GtE", "Lt", "LtE") or y[1] != 0 and op in ("Eq", "NotEq"):
                ctx.fail("dropped", f"{m.qual}: weights that are not zero are left out of the mixture adopted ({show(ct)[:60]})", b.loc)


# ------------------------------------------------------------------ ids
def id_map(ctx):
    c, _, _, _ = dynamic(ctx)
    m, fl, p, fwd, inv, und = id_attrs(ctx, c)
    g = fl.g
    if not fwd or not inv:
        if und and not inv:
            ctx.fail("inverse", f"{m.qual}: the map from ids to keys maps in the wrong direction", und[0].loc)
            return
        raise AnchorError(f"{m.qual}: the two maps between keys and ids are not recognised")
    for s, text in ((fwd, "from keys to ids"), (inv, "from ids to keys")):
        bad, _ = must_pass(fl, g.entry, lambda i: i.op == "exit", lambda i: i in s, follow_exc=False)
        ctx.count("id_maps")
        if bad:
            ctx.fail("maps", f"{m.qual}: the map {text} is not refreshed on some path: weights of new domains get the wrong key", m.loc)
    # the initial distribution
    fa = {i.data for i in fwd}
    src = lambda t: t == ("param", p) or t[0] == "attr" and t[1] == SELF and t[2] in fa
    im = [i for i in g.of("setattr") if i.data == "initial_mixture" and fl.term(i.args[0])[0] == "attr"]
    if not im:
        ctx.fail("initial", f"{m.qual} never informs the algorithm about the initial mixture", m.loc)
        return
    rows = lambda t: t[0] == "call" and callname(t) == "mixture_in_rows"
    vecs = [i for i in g.of("setitem")]
    n = 0
    for s in vecs:
        k, v = fl.term(s.args[1]), fl.term(s.args[2])
        if not any(rows(x) for x in subterms(v)):
            continue
        n += 1
        ctx.count("initial_weights")
        vr = role(v, rows)
        ok = False
        if k[0] == "item" and src(k[1]):
            kr = role(k[2], rows)
            ok = kr == "key" and vr == "value"
            if v[0] == "item" and rows(v[1]):
                ok = kr == "key" or strip_ids(v[2]) == strip_ids(k[2])
        elif role(k, src) == "value" and v[0] == "item" and rows(v[1]):
            ok = role(v[2], src) == "key"
        elif role(k, src) == "value" and v[0] == "call" and callname(v) == "get":
            ok = bool(v[3]) and role(v[3][0], src) == "key" and (len(v[3]) < 2 or v[3][1] == ("const", 0))
        if not ok:
            ctx.fail("initial-weights", f"{m.qual}: the initial weight of a domain is not stored at its id ({show(k)[:50]} <- {show(v)[:50]})", s.loc)
    if not n:
        raise AnchorError(f"{m.qual}: how the initial distribution is built is not recognised")
    for i in im:
        t = fl.term(i.args[1])
        norm = any(x[0] == "bin" and x[1] == "Div" for a in alts(t) for x in subterms(a))
        inplace = any(b.op == "bin" and b.data == "Div" for b in g.of("bin"))
        ctx.count("initial_mixtures")
        if not norm and not inplace:
            ctx.fail("initial-norm", f"{m.qual}: the initial mixture given to the algorithm is not normalised", i.loc)
        for x in [y for a in alts(t) for y in subterms(a)]:
            if x[0] == "call" and callname(x) in ("zeros", "full") and x[3]:
                sz = x[3][0]
                if sz[0] == "bin" and sz[1] == "Add" and ("const", 1) in sz[2:] and any(is_call_term(y, "max") for y in sz[2:]):
                    continue
                if is_call_term(sz, "len") or is_call_term(sz, "max"):
                    if is_call_term(sz, "max"):
                        ctx.fail("initial-size", f"{m.qual}: the initial mixture given to the algorithm does not cover the domain with the highest id", i.loc)
                    elif not any(src(y) for y in subterms(sz)):
                        ctx.fail("initial-size", f"{m.qual}: the initial mixture given to the algorithm does not cover all domains with ids", i.loc)


# ------------------------------------------------------------------ steps
STEP = "current_step"


def steps(ctx):
    base = ctx.proj.cls("Mixture")
    n = 0
    for cs in ctx.proj.classes.values():
        for c in cs:
            if base not in ctx.proj.mro(c):
                continue
            for m in methods_of(ctx, c):
                if m.name == "__init__" or m.cls is not c:
                    continue
                fl = ctx.flow(m, lambda *a: False, c, key="raw")
                ws = [i for i in fl.g.of("setattr") if i.data == STEP]
                for i in ws:
                    n += 1
                    ctx.count("step_writes")
                    ok = True
                    for kind_, at, path in segments(fl, [(fl.g.entry, None)], {i.id}):
                        if kind_ != "cut":
                            continue
                        r = execute(fl, path, frozenset())
                        if r is None:
                            continue
                        old = r.fields.get((r.v(i.args[0]), STEP), ("attr", r.v(i.args[0]), STEP))
                        new = r.v(i.args[1])
                        if not (isinstance(new, Lin) or scalar(new)) or not implies(r.facts, lin(new) - lin(old)):
                            ok = False
                    if not ok:
                        ctx.fail("backwards", f"{m.qual} may set the training step back", i.loc)
    # and the new step takes effect
    m = ctx.proj.find_method(base, "_update_training_step")
    if m is None:
        raise AnchorError("_update_training_step not found")
    p = [x for x in m.params() if x != "self"][0]
    fl = ctx.flow(m, ctx.local_policy(m, base), base, key="c21")
    for kind_, at, path in segments(fl, [(fl.g.entry, None)], set()):
        if kind_ == "raise":
            continue
        r = execute(fl, path, frozenset())
        if r is None:
            continue
        ctx.count("step_paths")
        old = ("attr", ("t", SELF), STEP)
        new = r.fields.get((("t", SELF), STEP), old)
        if not implies(r.facts, lin(new) - lin(wrap(("param", p)))):
            ctx.fail("step", f"{m.qual} may ignore the training step reported", m.loc)
    for cs in ctx.proj.classes.values():
        for c in cs:
            if base not in ctx.proj.mro(c) or c is base:
                continue
            f = next((x for x in methods_of(ctx, c) if x.name == m.name and x.cls is c), None)
            if f is None:
                continue
            fl = ctx.flow(f, ctx.local_policy(f, c, stop=(m.name,)), c, key="c21s")
            sup = [i for i in fl.g.live if i.op == "setattr" and i.data == STEP and fl.term(i.args[0]) == SELF or
                   i.op == "call" and last(i.fn) == m.name and i.recv is None and i.target is m and
                   (arg_term(i, fl, 0, p) or ("?",))[0] in ("param",)]
            bad, _ = must_pass(fl, fl.g.entry, lambda i: i.op == "exit", lambda i: i in sup, follow_exc=False)
            ctx.count("step_overrides")
            if bad:
                ctx.fail("step", f"{f.qual} does not record the training step on some path", f.loc)
    if not n:
        raise AnchorError("no write of the training step found")


# ------------------------------------------------------------------ feedback
def feedback(ctx):
    base = ctx.proj.cls("Mixture")
    m = ctx.proj.find_method(base, "process_client_feedback")
    p = [x for x in m.params() if x != "self"][0]
    overrides = [c.name for cs in ctx.proj.classes.values() for c in cs if c is not base and base in ctx.proj.mro(c)
                 and any(f.name == m.name and f.cls is c for f in methods_of(ctx, c))]
    if overrides:
        raise AnchorError(f"{m.name} is overridden in {overrides}")
    fl = ctx.flow(m, ctx.local_policy(m, base, stop=("_update_training_step", "_process_losses")), base, key="c21")
    g = fl.g
    F = ("param", p)
    ups = [i for i in g.calls() if last(i.fn) == "_update_training_step"]
    pls = [i for i in g.calls() if last(i.fn) == "_process_losses"]
    if not pls:
        ctx.fail("forward", f"{m.qual} never processes the losses reported", m.loc)
        return
    good = [i for i in ups if arg_term(i, fl, 0, "training_steps") == ("attr", F, "training_steps")]
    for i in ups:
        if i not in good:
            ctx.fail("step", f"{m.qual} updates the training step with {show(arg_term(i, fl, 0, 'training_steps') or ('const', None))[:50]}", i.loc)
    ctx.count("feedback_obligations", 3)
    bad, _ = must_pass(fl, g.entry, lambda i: i.op == "exit" or i in pls, lambda i: i in ups, follow_exc=False)
    if bad:
        ctx.fail("step-first", f"{m.qual}: the training step is not updated before losses are processed on all paths, so losses may go to a mixture not in force", bad[0][0].loc)

    def has(losses, counts):
        def hook(d):
            t = fl.term(d.dst) if d.dst is not None else None
            for n, v in (("losses", losses), ("counts", counts)):
                if t == ("attr", F, n):
                    return "notnone" if v else ("c", None)
            return None
        return hook

    for l in (True, False):
        for k in (True, False):
            bad, ex = must_pass(fl, g.entry, lambda i: i.op == "exit", lambda i: i in pls, follow_exc=False, hook=has(l, k))
            if l and k:
                if bad:
                    ctx.fail("forward", f"{m.qual} may drop the losses and counts reported", m.loc)
            else:
                ex = Explorer(fl, lambda i, s: [s], hook=has(l, k), follow_exc=False)
                vis = ex.run(0, start=g.entry)
                if any(reached(vis, i) for i in pls):
                    ctx.fail("partial", f"{m.qual} processes losses although {'counts' if l else 'losses'} are missing", pls[0].loc)
    pn = [x for x in ctx.proj.find_method(base, "_process_losses").params() if x != "self"]
    for i in pls:
        for k, n in enumerate(pn):
            if arg_term(i, fl, k, n) != ("attr", F, n):
                ctx.fail("forward-args", f"{m.qual} passes {show(arg_term(i, fl, k, n) or ('const', None))[:50]} on as {n}", i.loc)


# ------------------------------------------------------------------ the job
def job(ctx):
    c = ctx.proj.cls("LocalStub")
    m = ctx.proj.find_method(c, "process_feedback")
    p = [x for x in m.params() if x != "self"]
    fl = ctx.flow(m, ctx.local_policy(m, c), c, key="c21")
    g = fl.g
    pcs = [i for i in g.calls() if last(i.fn) == "process_client_feedback"]
    if not pcs:
        raise AnchorError(f"{m.qual}: where feedback is processed is not recognised")
    for i in pcs:
        ctx.count("feedback_deliveries")
        if fl.term(i.args[0] if i.args else next(iter(i.kw.values()))) != ("param", p[1]):
            ctx.fail("deliver", f"{m.qual} delivers something other than the feedback received", i.loc)
        for t in alts(fl.term(i.recv)):
            ok = t[0] == "attr" and t[2] in ("_mixture", "mixture")
            jobs = [x for x in subterms(t) if x[0] == "item" and x[1][0] == "attr" and x[1][1] == SELF and "query_map" in x[1][2]] + [
                x for x in subterms(t) if is_call_term(x, "_get_query_result", "get", "pop") and x[3]]
            if not ok or not jobs:
                raise AnchorError(f"{i.loc}: mixture the feedback goes to not recognised ({show(t)[:90]})")
            if not all(x[2] == ("param", p[0]) if x[0] == "item" else x[3][0] == ("param", p[0]) for x in jobs):
                ctx.fail("deliver", f"{m.qual} delivers the feedback to a mixture that is not the one of the job named", i.loc)
    if any(loops_around(fl, i) for i in pcs):
        ctx.fail("deliver", f"{m.qual} delivers feedback in a loop: more than once or to several jobs", pcs[0].loc)
    for r in root_returns(fl):
        for t in alts(fl.term(r.args[0]) if r.args and r.args[0] is not None else ("const", None)):
            ctx.count("feedback_results")
            if t == ("const", True):
                bad, _ = must_pass(fl, g.entry, lambda i: i is r, lambda i: i in pcs, follow_exc=False)
                if bad:
                    ctx.fail("truth", f"{m.qual} reports success without having processed the feedback", r.loc)
            elif t[0] == "const" and not t[1]:
                pass
    fields = lock_fields(ctx, c)
    ls = LockSets(fl, fields)
    for i in pcs:
        if not ls.must.get(i.id):
            ctx.fail("unlocked", f"{m.qual} changes the mixture without holding the lock, concurrently with chunk generation", i.loc)


# ------------------------------------------------------------------ isolation
def copied(fl, t):
    """All values of the term are deep copies (or built on the spot)."""
    return all(deep_copy_of(x) is not None for x in alts(t))


def isolation(ctx):
    """The mixture object a caller passes in never becomes the mixture of a job itself."""
    q = ctx.proj.cls("QueryResult")

    def takes_copy(name):
        m = ctx.proj.find_method(q, name)
        fl = ctx.flow(m, lambda *a: False, q, key="raw")
        st = [i for i in fl.g.of("setattr") if i.data == "_mixture" and fl.term(i.args[0]) == SELF]
        if not st:
            raise AnchorError(f"{m.qual}: where the mixture is stored is not recognised")
        return all(copied(fl, fl.term(i.args[1])) for i in st), [p for p in m.params() if p != "self"].index("mixture")

    ctor, cpos = takes_copy("__init__")
    upd, upos = takes_copy("update_mixture")
    qc = ctx.proj.cls("Query")
    ex = ctx.proj.find_method(qc, "execute")
    fl = ctx.flow(ex, ctx.local_policy(ex, qc), qc, key="c21")
    made = [i for i in fl.g.calls() if last(i.fn) == "QueryResult"]
    if not made:
        raise AnchorError(f"{ex.qual}: where the result is created is not recognised")
    inside = ctor or all(copied(fl, arg_term(i, fl, cpos, "mixture") or ("const", None)) for i in made)
    ctx.count("mixture_handovers", len(made))
    epos = [p for p in ex.params() if p != "self"].index("mixture")
    c = ctx.proj.cls("LocalStub")
    n = 0
    for m in methods_of(ctx, c):
        if m.cls is not c:
            continue
        fl = ctx.flow(m, lambda *a: False, c, key="raw")
        for i in fl.g.calls():
            fn = last(i.fn)
            if fn == "update_mixture":
                ok, t = upd, arg_term(i, fl, upos, "mixture")
            elif fn == "execute" and i.recv is not None and (arg_term(i, fl, epos, "mixture") or ("?",))[0] != "?" and len(i.args) + len(i.kw or {}) >= 2 and "quer" in show(fl.term(i.recv)).lower():
                ok, t = inside, arg_term(i, fl, epos, "mixture")
            else:
                continue
            n += 1
            ctx.count("mixture_handovers")
            if not ok and not copied(fl, t):
                ctx.fail(f"shared:{fn}", f"{m.qual} makes the mixture object of the caller the mixture of the job: feedback for one job changes the other jobs executed with it", i.loc)
    if n < 2:
        raise AnchorError("where jobs get their mixture is not recognised")


# ------------------------------------------------------------------ mixture ids
def mixture_ids(ctx):
    q = ctx.proj.cls("QueryResult")
    m = ctx.proj.find_method(q, "_chunk_generator")
    if m is None:
        raise AnchorError("no chunk generator")
    fl = ctx.flow(m, ctx.local_policy(m, q, stop=("_persist_mixture_log", "_persist_chunk_idx", "_update_key_id_map", "merge_sorted_lists", "_generate_per_mixture_component_chunks")), selfcls=q)
    g = fl.g
    rc = ctx.proj.find_method(ctx.proj.cls("ResultChunk"), "__init__")
    pos = [p for p in rc.params() if p != "self"].index("mixture_id")
    made = [i for i in g.calls() if last(i.fn) == "ResultChunk"]
    if not made:
        raise AnchorError("where chunks are made is not recognised")
    keys = {var_key(fl, i.args[pos] if len(i.args) > pos else (i.kw or {}).get("mixture_id")) for i in made}
    if len(keys) != 1 or None in keys:
        raise AnchorError("mixture id of chunks not recognised")
    M = keys.pop()
    st = [i for i in g.of("store") if i.data == M]
    incs = []
    for i in st:
        d = var_delta(fl, i, M)
        ctx.count("mixture_id_writes")
        if d is not None and d >= 1:
            incs.append(i)
        elif d is not None or in_loop(fl, i):
            ctx.fail("id-write", "the mixture id of chunks is changed otherwise than by counting up", i.loc)
    if not incs:
        ctx.fail("id-write", "the mixture id of chunks never changes", made[0].loc)
        return
    # comparisons with the previous rows
    def rows(t):
        for x in alts(t):
            while deep_copy_of(x) is not None or is_call_term(x, "dict", "copy") and (x[3] or x[2] is not None):
                x = deep_copy_of(x) or (x[3][0] if x[3] else x[2])
            if not is_call_term(x, "mixture_in_rows"):
                return None
        return True

    cmps = []
    for i in g.of("cmp"):
        if i.data not in ("Eq", "NotEq"):
            continue
        for a, b in ((i.args[0], i.args[1]), (i.args[1], i.args[0])):
            if rows(fl.term(a)) is not None and any(x == ("const", None) for x in alts(fl.term(b))):
                k = prev_key(fl, b)
                if k is not None and k != var_key(fl, a):
                    cmps.append((i, a, k))
                    break
    if not cmps:
        # new id for each chunk would do as well
        raise AnchorError("comparison of the mixture with the previous one not recognised")
    ctx.count("mixture_comparisons", len(cmps))
    prev = {k for _, _, k in cmps}
    ids = {i.id for i, _, _ in cmps}

    def differ(d):
        if d.id in ids:
            return ("c", d.data == "NotEq")
        return None

    yields = [i for i in g.of("yield") if any(defining(fl, a) in made or any(is_call_term(x, "ResultChunk") for x in alts(fl.term(a))) for a in i.args if a is not None)]
    if not yields:
        raise AnchorError("where chunks are handed out is not recognised")
    for i, a, k in cmps:
        ps = [s for s in g.of("store") if s.data == k and in_loop(fl, s)]
        good = [s for s in ps if rows(fl.term(s.args[0])) is not None]
        copies = [s for s in good if fresh(fl, s, a)]
        bad, _ = must_pass(fl, i, lambda x: x in yields or x in made, lambda x: x in incs, follow_exc=False, hook=differ)
        ctx.count("mixture_id_obligations", 2)
        if bad:
            ctx.fail("same-id", "chunks made from a changed mixture may carry the id of the mixture before", i.loc)
        bad, _ = must_pass(fl, i, lambda x: x in yields, lambda x: x in good, follow_exc=False, hook=differ)
        if bad:
            ctx.fail("previous", "the mixture chunks are compared with is not replaced when the mixture changes: later changes go unnoticed", i.loc)
        elif len(copies) != len(good):
            s = next(x for x in good if x not in copies)
            ctx.fail("previous", "the mixture chunks are compared with is the object that is changed while a chunk is made", s.loc)
    # every way to a chunk made from rows passes a comparison
    src = [c for c in g.calls() if last(c.fn) == "mixture_in_rows" and in_loop(fl, c)]
    for c in src:
        truthy = lambda d: "truthy" if d.dst is not None and rows(fl.term(d.dst)) is not None else None
        bad, _ = must_pass(fl, c, lambda x: x in made, lambda x: x.id in ids, follow_exc=False, hook=truthy)
        ctx.count("mixture_id_obligations")
        if bad:
            ctx.fail("unchecked", "a chunk may be made without checking whether the mixture has changed", bad[0][0].loc)

        # no rows (any mixture will do): as different from rows as other rows are
        k0 = cmps[0][2]

        def nothing(d):
            if d.op == "load" and d.data == k0:
                return "notnone"
            return "falsy" if d.dst is not None and rows(fl.term(d.dst)) is not None else None

        bad, _ = must_pass(fl, c, lambda x: x in made, lambda x: x in incs, follow_exc=False, hook=nothing)
        if bad:
            ctx.fail("same-id", "chunks made after the mixture was given up may carry the id of the mixture before", bad[0][0].loc)
        bad, _ = must_pass(fl, c, lambda x: x in made, lambda x: x.op == "store" and x.data == k0 and fl.term(x.args[0]) == ("const", None), follow_exc=False, hook=nothing)
        if bad:
            ctx.fail("previous", "the mixture chunks are compared with is kept after the mixture was given up", bad[0][0].loc)


def prev_key(fl, t):
    d = fl.g.tempdef.get(t)
    while d is not None and d.op == "alias":
        d = fl.g.tempdef.get(d.args[0])
    return d.data if d is not None and d.op == "load" else None


def fresh(fl, s, a):
    """The value stored is a copy, not the rows the chunk generation works on."""
    d = defining(fl, s.args[0])
    da = defining(fl, a)
    if d is not None and d.op == "call" and last(d.fn) in ("deepcopy", "copy", "dict"):
        return d is not da
    t = fl.term(s.args[0])
    return d is not da and d is not None and d.op in ("call", "newcomp") and not same(t, fl.term(a))


# ------------------------------------------------------------------ failed updates
def failing(ctx, f, depth=0, seen=None):
    """f (or a project function it uses) raises deliberately."""
    import ast
    seen = set() if seen is None else seen
    if f in seen or depth > 4:
        return False
    seen.add(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Raise):
            return True
    for n in ast.walk(f.node):
        name = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
        if name is None or name == f.name:
            continue
        for x in ctx.proj.funcs.values():
            if x.name == name and x.module is f.module and failing(ctx, x, depth + 1, seen):
                return True
    return False


def failed_update(ctx):
    base, algs = algorithms(ctx)
    n = 0
    for c in algs:
        for m in methods_of(ctx, c):
            if m.name.startswith("__"):
                continue
            fl = ctx.flow(m, ctx.local_policy(m, c), c, key="all")
            g = fl.g
            risky = []
            for i in g.calls():
                cands = [i.target] if i.target is not None and hasattr(i.target, "node") else []
                for a in list(i.args) + list((i.kw or {}).values()):
                    t = fl.term(a) if a is not None else ("?",)
                    if t[0] == "fn":
                        cands += [x for x in ctx.proj.funcs.values() if x.qual == t[1]]
                if any(getattr(x, "node", None) is not None and failing(ctx, x) for x in cands if i.frame is not None and not inlined(fl, i)):
                    risky.append(i)
            ctx.count("failing_calls", len(risky))
            for i in g.of("setattr"):
                if fl.term(i.args[0]) != SELF:
                    continue
                d = defining(fl, i.args[1])
                hold = d is not None and (d.op == "const" and d.data is None or d.op == "call" and (d.fn or "").startswith(NP) and last(d.fn) in {**SIZED, **LIKE})
                if not hold:
                    continue
                n += 1
                ctx.count("placeholders")
                after = reach([s for s, l in i.succ if l not in ("exc", "exc-base")], exc=False)
                for r in after:
                    if r not in risky and r.op != "raise":
                        continue
                    later = reach([s for s, l in r.succ if l not in ("exc", "exc-base")], exc=False)
                    done = [x for x in later if x.op == "setitem" and is_attr(fl, x.args[0], i.data) or x.op == "setattr" and x.data == i.data and fl.term(x.args[0]) == SELF and x is not i]
                    if r in risky and done:
                        ctx.fail(f"{c.name}:{i.data}", f"{m.qual} replaces {i.data} by a placeholder before {last(r.fn)}(), which may fail: a failed update leaves the placeholder in force", i.loc)
                        break
    if not ctx.counts.get("failing_calls"):
        ctx.sample("no algorithm makes calls that fail deliberately")


def is_attr(fl, t, name):
    d = defining(fl, t)
    return d is not None and d.op == "attr" and d.data == name


def inlined(fl, i):
    return any(s.op == "enter" for s, l in i.succ)
