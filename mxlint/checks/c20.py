"""C20: mixtures that wrap other mixtures answer as the wrapped mixture in force and keep all of them informed."""
import ast

from .linear import *
from .wrap import *
from .c19 import methods_of, is_noop, int_param


def run(ctx):
    ctx.rule("Wrapping mixtures (found by their mixture_in_rows() asking another mixture): rows, losses and strictness go to the mixture in force (the one "
             "selector), keys are the union of all wrapped ones, and every notification some mixture reacts to (index, key ids, step, chunk size, logs) is "
             "passed on with the same arguments to every wrapped mixture on all paths. The selector is decided by the linear facts of its loop paths: an entry "
             "is selected iff start_step <= current_step, the last such of the entries sorted by start_step, else the first. Strictness is refreshed after "
             "each change of the step. A new mixture in a query result gets the index first, then the ids, on all paths.")
    ws = wrappers(ctx)
    ctx.count("wrapping_mixtures", len(ws))
    if len(ws) < 2:
        raise AnchorError("fewer than two wrapping mixtures found")
    for w in ws:
        sel = None
        if w.many:
            found = ctx.part(selector, ctx, w)
            if found is None:
                continue
            ctx.part(verify_selector, ctx, w, *found)
            sel = found[0].name
        ctx.part(rows, ctx, w, sel)
        ctx.part(keys, ctx, w)
        ctx.part(losses, ctx, w, sel)
        ctx.part(told, ctx, w)
        ctx.part(strict, ctx, w, sel)
    ctx.part(introduced, ctx)


# ------------------------------------------------------------------ which mixture is in force
def in_force(w, sel, t):
    """t denotes the wrapped mixture in force."""
    if not w.many:
        return t == ("attr", ("self",), w.attr) if not w.path else place(t) == (w.attr, False, w.path)
    if t == ("attr", ("self",), sel):
        return True
    return t[0] == "call" and callname(t) == sel and t[2] in (("self",), None)


def selector(ctx, w):
    """Name of the method/property returning the mixture in force, after verifying it."""
    c = w.cls
    found = []
    for m in methods_of(ctx, c):
        if m.name.startswith("__"):
            continue
        fl = ctx.flow(m, None, c, key="sel")
        rs = [i for i in root_returns(fl) if i.args and i.args[0] is not None]
        ts = [x for i in rs for x in alts(fl.term(i.args[0]))]
        if ts and all(x[0] in ("attr", "item", "elem", "call", "comp") for x in ts) and any(place(x) == (w.attr, True, w.path) for x in ts):
            if all(place(x) == (w.attr, True, w.path) or is_call_term(x, "next", "max") for x in ts):
                found.append((m, fl))
    if len(found) != 1:
        raise AnchorError(f"{c.name}: the method selecting the mixture in force is not recognised ({len(found)} candidates)")
    m, fl = found[0]
    return m, fl


STEP = ("attr", ("t", ("self",)), "current_step")


def start_of(v):
    """v is the start step of an element: (element value) or None."""
    if isinstance(v, Lin):
        at = list(v.m)
        if len(at) != 1 or v.c or at[0][1] != 1:
            return None
        v = at[0][0]
    if isinstance(v, tuple) and v and v[0] == "attr" and "start" in v[2]:
        return v[1]
    return None


def direction(fl, h, w):
    """+1 / -1: the loop visits the entries in ascending/descending order; with the number of reversals."""
    t = fl.term(h.args[0])
    d = 1
    while True:
        if t[0] == "iterof":
            t = t[-1]
        elif t[0] == "call" and callname(t) == "reversed" and t[3]:
            d, t = -d, t[3][0]
        elif t[0] == "call" and callname(t) in ("list", "tuple", "iter") and t[3]:
            t = t[3][0]
        elif t[0] == "call" and callname(t) == "enumerate" and t[3]:
            t = t[3][0]
        elif t[0] == "item" and t[2][0] == "slice" and t[2][1:] in ((("const", None), ("const", None), ("const", -1)),):
            d, t = -d, t[1]
        elif t[0] == "call" and callname(t) == "sorted":
            kw = dict(t[4])
            if "key" not in kw or not by_start(fl, kw["key"]):
                return None
            rv = kw.get("reverse", ("const", False))
            if rv[0] != "const":
                return None
            d = d * (-1 if rv[1] else 1)
            return d if t[3] and unorder(t[3][0]) == ("attr", ("self",), w.attr) else None
        else:
            return d if t == ("attr", ("self",), w.attr) else None


def by_start(fl, k):
    """The sort key is the start step."""
    if k[0] == "fn":
        for d in fl.g.of("func"):
            f = d.data[0] if isinstance(d.data, tuple) else d.data
            if getattr(f, "qual", None) != k[1]:
                continue
            x = d.node
            if isinstance(x, ast.Lambda):
                return start_expr(x.body)
            if isinstance(x, ast.FunctionDef):
                r = [y for y in ast.walk(x) if isinstance(y, ast.Return)]
                return len(r) == 1 and start_expr(r[0].value)
    if k[0] == "call" and callname(k) == "attrgetter" and k[3]:
        return k[3][0][0] == "const" and "start" in str(k[3][0][1])
    return False


def start_expr(e):
    if isinstance(e, ast.Tuple) and e.elts:
        e = e.elts[0]
    return isinstance(e, ast.Attribute) and "start" in e.attr


def mixture_of(v, w, ev):
    """v is the mixture of the element value ev."""
    for p in reversed(w.path):
        if not (isinstance(v, tuple) and v and v[0] == "attr" and v[2] == p):
            return False
        v = v[1]
    return v == ev


def first_entry(v, w):
    for p in reversed(w.path):
        if not (isinstance(v, tuple) and v and v[0] == "attr" and v[2] == p):
            return False
        v = v[1]
    return isinstance(v, tuple) and v and v[0] == "item" and v[1] == ("attr", ("t", ("self",)), w.attr) and v[2] == Lin(0)


def verify_selector(ctx, w, m, fl):
    g = fl.g
    hs = [h for h in g.of("next") if any(fl.term(h.args[0]) and unorder(fl.term(h.args[0])) == ("attr", ("self",), w.attr) for _ in (0,))]
    rets = [i for i in root_returns(fl) if i.args and i.args[0] is not None]
    if len(hs) != 1:
        raise AnchorError(f"{m.qual}: not one loop over the entries")
    h = hs[0]
    d = direction(fl, h, w)
    if d is None:
        raise AnchorError(f"{m.qual}: order of the entries not recognised")
    body = {x.id for x in body_of(h)}
    elems = [i for i in g.of("elem") if i.id in body]
    bad = set()

    def fail(k, t, loc):
        if k not in bad:
            bad.add(k)
            ctx.fail(f"{w.cls.name}:{k}", t, loc)

    def classify(r):
        """Whether the path's conditions say that the current element has started: True/False/None."""
        ev = elem_of(r, h)
        st = None
        for f in r.facts:
            if isinstance(f, tuple):
                continue
            for a, _ in f.m:
                if start_of(a) == ev:
                    st = lin(a)
        if st is None:
            return None
        diff = lin(STEP) - st
        if implies(r.facts, diff):
            return True
        if implies(r.facts, -diff - Lin(1)):
            return False
        for k in range(1, 9):
            # only a margin around the start step is known
            if implies(r.facts, diff + Lin(k)):
                return "early"
            if implies(r.facts, Lin(k - 1) - diff):
                return "late"
        return "vague"

    # what the variables/returns do on each path through the body
    if elems:
        # a comprehension/generator over the entries, with the first (next) or last ([-1]) match taken
        c = fl.term(elems[0].args[0])
        sel = False
        for kind, path in loop_paths(fl, h):
            r = execute(fl, path, stored_in(body_of(h)))
            if r is None:
                continue
            k = classify(r)
            took = any(i.op == "elem" for i, _ in path)
            ctx.count("selection_paths")
            if took:
                e = next(i for i, _ in path if i.op == "elem")
                v = r.v(e.args[-1])
                if k is not True:
                    fail("selection", f"{m.qual}: a mixture is taken into account although its start step " + why(k), h.loc)
                if not (mixture_of(v, w, elem_of(r, h)) or v == elem_of(r, h)):
                    raise AnchorError(f"{m.qual}: what is collected is not recognised")
                sel = True
            elif k is not False and kind == "loop":
                fail("selection", f"{m.qual}: an entry is skipped although its start step may have been reached", h.loc)
        if not sel:
            raise AnchorError(f"{m.qual}: no selection")
        key = strip_ids(c)
        for i in rets:
            for t in alts(fl.term(i.args[0])):
                s = strip_ids(t)
                while s[0] == "attr" and s[2] in w.path:
                    s = s[1]
                if s[0] == "call" and callname(s) == "next" and s[3]:
                    base = s[3][0]
                    while base[0] == "call" and callname(base) == "iter" and base[3]:
                        base = base[3][0]
                    if base == key:
                        if d != -1:
                            fail("order", f"{m.qual}: the first entry that has started is used instead of the last one", i.loc)
                        if len(s[3]) < 2 or place(s[3][1]) is None and unorder(s[3][1]) == s[3][1] and not head(s[3][1], w):
                            raise AnchorError(f"{m.qual}: default not recognised")
                        if not head(s[3][1], w):
                            fail("default", f"{m.qual}: before the first start step, not the first mixture is used", i.loc)
                        continue
                if s[0] == "item" and s[1] == key and s[2] in (("const", -1), ("const", 0)):
                    if d != (1 if s[2][1] == -1 else -1):
                        fail("order", f"{m.qual}: the first entry that has started is used instead of the last one", i.loc)
                    continue
                if head(s, w) or head(attrs(s, w), w):
                    continue
                if s[0] == "item" and place(strip_ids(t)) is not None:
                    fail("default", f"{m.qual}: before the first start step, not the first mixture is used", i.loc)
                    continue
                raise AnchorError(f"{m.qual}: value returned not recognised: {show(t)[:80]}")
        return
    havoc = stored_in(body_of(h))
    saw = 0
    for kind, i, path in segments(fl, [(h, "next")], {h.id}):
        r = execute(fl, path, havoc)
        if r is None:
            continue
        if kind in ("raise", "end"):
            raise AnchorError(f"{m.qual}: a path of the selection is not recognised")
        ev = elem_of(r, h)
        ctx.count("selection_paths")
        chosen = any(k in r.stored and k[1] != "$ret" and (mixture_of(v, w, ev) or v == ev and not loopvar(fl, h, k)) for k, v in r.env.items())
        leave = kind == "return"
        if leave:
            chosen = chosen or mixture_of(r.v(i.args[0]), w, ev)
        k = classify(r)
        if k is None or k == "vague":
            raise AnchorError(f"{m.qual}: condition for taking an entry not recognised")
        if chosen:
            saw += 1
            if k is not True:
                fail("selection", f"{m.qual}: a mixture is put in force although its start step " + why(k), h.loc)
            if (d == -1) != leave:
                fail("order", f"{m.qual}: the first entry that has started is used instead of the last one", h.loc)
        else:
            if k is not False:
                fail("selection", f"{m.qual}: an entry is not used although its start step has been reached" + (" exactly" if k == "late" else ""), h.loc)
            if d == -1 and leave:
                fail("order", f"{m.qual}: earlier entries are not considered", h.loc)
    if not saw:
        raise AnchorError(f"{m.qual}: no entry is ever selected")
    # the default: what is returned if no entry has started
    for kind, i, path in segments(fl, [(h, "stop")], set()):
        if kind != "return":
            raise AnchorError(f"{m.qual}: what happens without a started entry is not recognised")
        inits = initial(fl, h, havoc)
        path = [x for x in path if x[0] is not h]
        r = execute(fl, path, frozenset(), env=inits)
        v = r.v(i.args[0])
        while isinstance(v, tuple) and v and v[0] == "attr" and v[2] in w.path and not first_entry(v, w) and not isinstance(v[1], tuple):
            v = v[1]
        if not first_entry(v, w):
            if isinstance(v, tuple) and v and (v[0] == "attr" or v == ("const", None)):
                fail("default", f"{m.qual}: before the first start step, not the first mixture is used but {brief(v)[:60]}", i.loc)
            else:
                raise AnchorError(f"{m.qual}: default not recognised: {brief(v)[:60]}")
        ctx.count("defaults")


def attrs(t, w):
    for p in w.path:
        t = ("attr", t, p)
    return t


def head(t, w):
    """t is the first entry's mixture (or the first entry)."""
    for p in reversed(w.path):
        if t[0] == "attr" and t[2] == p:
            t = t[1]
    return t == ("item", ("attr", ("self",), w.attr), ("const", 0))


def why(k):
    return {"vague": "may not have been reached", None: "is not looked at"}.get(k, "has not been reached")


def retkey(r):
    for k in r.env:
        if isinstance(k, tuple) and k[1] == "$ret":
            return k
    return None


def loopvar(fl, h, k):
    """k is the variable the loop head assigns (True), or another one (False)."""
    for s, l in h.succ:
        if l == "next":
            x = s
            for _ in range(4):
                if x.op == "store" and x.data == k:
                    return True
                if not x.succ:
                    break
                x = x.succ[0][0]
    return False


def initial(fl, h, havoc):
    """Values of the loop's variables on entry (from the straight-line code before it)."""
    for kind, i, path in segments(fl, [(fl.g.entry, None)], {h.id}):
        if kind == "cut":
            r = execute(fl, path, frozenset())
            if r is not None:
                return r.env
    return {}


# ------------------------------------------------------------------ answers
def rows(ctx, w, sel):
    c = w.cls
    for name in ("mixture_in_rows",):
        m = ctx.proj.find_method(c, name)
        fl = ctx.flow(m, ctx.local_policy(m, c, stop=(sel,) if sel else ()), c)
        for i in root_returns(fl):
            for t in alts(fl.term(i.args[0])):
                ctx.count("answers")
                if t[0] == "call" and callname(t) == name and t[2] is not None and in_force(w, sel, t[2]):
                    continue
                if t[0] == "call" and callname(t) in ("dict", "deepcopy", "copy") and t[3] and t[3][0][0] == "call" and callname(t[3][0]) == name and in_force(w, sel, t[3][0][2] or ("none",)):
                    continue
                if t[0] == "call" and callname(t) == name or place(t) is not None or t[0] in ("dict0", "const"):
                    ctx.fail(f"{c.name}:{name}", f"{m.qual} does not answer with the rows of the mixture in force but with {show(t)[:80]}", i.loc)
                else:
                    raise AnchorError(f"{m.qual}: answer not recognised: {show(t)[:80]}")


def keys(ctx, w):
    c = w.cls
    base = ctx.proj.cls("Mixture")
    m = ctx.proj.find_method(c, "all_keys")
    if m is None:
        raise AnchorError("no all_keys")
    if m.cls is base and w.many:
        ctx.fail(f"{c.name}:all_keys", f"{c.name} announces only the keys of the mixture in force at the moment: keys of the others get no ids", m.loc)
        return
    if m.cls is base:
        # keys of the rows of the mixture in force
        ctx.fail(f"{c.name}:all_keys", f"{c.name} announces only the rows' keys, not all keys of the mixture it wraps", m.loc)
        return
    fl = ctx.flow(m, None, c)

    def asks(i):
        return i.op == "call" and last(i.fn) == "all_keys" and i.recv is not None and is_inner(w, fl.term(i.recv))

    ctx.count("answers")
    how = missed(fl, w, asks)
    if how:
        ctx.fail(f"{c.name}:all_keys", f"{c.name} does not announce all keys of the mixtures it wraps ({how})", m.loc)
        return
    # and they are in the result
    ids = {i.dst for i in fl.g.calls() if asks(i)}
    want = [fl.term(i.dst) for i in fl.g.calls() if asks(i)]
    for i in root_returns(fl):
        t = fl.term(i.args[0])
        got = set()
        for x in contributions(fl, t):
            got.add(strip_ids(x))
        if not any(strip_ids(x) in got for x in want):
            # collected by update/|= into a local set
            col = set()
            for u in fl.g.calls():
                if last(u.fn) in ("update", "add", "union", "extend", "append") and u.args and any(strip_ids(x) in {strip_ids(y) for y in subterms(fl.term(u.args[0]))} for x in want):
                    col.add(strip_ids(fl.term(u.recv)) if u.recv is not None else None)
            ok = any(strip_ids(y) in col for x in alts(t) for y in subterms(x))
            ok = ok or any(any(strip_ids(z) == strip_ids(x) for z in subterms(y)) for x in want for y in subterms(t))
            if not ok:
                ctx.fail(f"{c.name}:all_keys", f"{c.name}: keys of the wrapped mixtures do not reach the result", i.loc)
        if any(x[0] in ("bin",) and x[1] in ("BitAnd", "Sub", "BitXor") or is_call_term(x, "intersection", "difference", "symmetric_difference") for x in subterms(t)):
            ctx.fail(f"{c.name}:all_keys", f"{c.name}: only part of the keys of the wrapped mixtures is announced", i.loc)


# ------------------------------------------------------------------ notifications
def losses(ctx, w, sel):
    """Losses are processed by the wrapper's own algorithm or by the mixture in force."""
    c = w.cls
    base = ctx.proj.cls("Mixture")
    m = ctx.proj.find_method(c, "process_client_feedback")
    pl = ctx.proj.find_method(c, "_process_losses")
    if pl.cls is base and m.cls is base:
        ctx.fail(f"{c.name}:losses", f"{c.name} drops the losses reported to it", pl.loc)
        return
    fl = ctx.flow(m, ctx.local_policy(m, c, stop=(sel,) if sel else ()), c)
    n = 0
    for i in fl.g.calls():
        if last(i.fn) not in ("_process_losses", "process_client_feedback") or i.recv is None:
            continue
        t = fl.term(i.recv)
        if t == ("self",) or is_call_term(t, "super") or t == ("super",):
            continue
        n += 1
        ctx.count("loss_deliveries")
        if not all(in_force(w, sel, x) for x in alts(t)):
            ctx.fail(f"{c.name}:losses", f"{c.name} passes losses to {show(t)[:60]} instead of the mixture in force only", i.loc)
        if last(i.fn) == "_process_losses":
            want = ["losses", "counts", "mixture_id"]
            got = [fl.term(a) for a in i.args] + [fl.term((i.kw or {})[k]) for k in want[len(i.args):] if k in (i.kw or {})]
            if not all(any(g[0] == "attr" and g[2] == k or g == ("param", k) for g in alts(x)) for x, k in zip(got, want)) or len(got) != 3:
                ctx.fail(f"{c.name}:losses", f"{c.name} passes losses on with other arguments: ({', '.join(show(x)[:30] for x in got)})", i.loc)
    own = any(last(i.fn) == "process_losses" for i in fl.g.calls())
    ctx.count("loss_handlers")
    if not n and not own:
        ctx.fail(f"{c.name}:losses", f"{c.name} drops the losses reported to it", pl.loc)
    w.own = own


NOTES = ("process_index", "process_id_map", "_update_training_step", "write_logs")


def told(ctx, w):
    c = w.cls
    base, cs = mixture_classes(ctx)
    notes = [f.name for f in methods_of(ctx, base) if f.name in NOTES or returns_nothing(f) and f.params()]
    for name in sorted(set(notes)):
        if name in ("__init__", "process_client_feedback", "_process_losses", "chunk_size_adjusted"):
            continue
        m = ctx.proj.find_method(c, name)
        reacts = [x for x in cs if any(f.name == name and not trivial(f) for f in methods_of(ctx, x))]
        if not reacts and m is not None and m.cls is base and trivial(m):
            continue
        if getattr(w, "own", False) and name in ("process_id_map", "write_logs") and m.cls is not base:
            # what concerns learning stays with the wrapper's own algorithm
            ctx.count("own_notifications")
            continue
        ctx.count("notifications")
        if m is None or m.cls is base and not passes(ctx, w, m, name):
            ctx.fail(f"{c.name}:{name}", f"{c.name} does not pass {name}() on to the mixtures it wraps", m.loc if m else None)
            continue
        fl = ctx.flow(m, None, c)
        ps = [p for p in m.params() if p not in ("self", "cls")]

        def via(i):
            if not (i.op == "call" and last(i.fn) == name and i.recv is not None and is_inner(w, fl.term(i.recv))):
                return False
            got = [fl.term(a) for a in i.args] + [fl.term(x) for x in (i.kw or {}).values()]
            return len(got) == len(ps) and all(current(g, p) for g, p in zip(got, ps))

        def current(g, p):
            return g == ("param", p) or name == "_update_training_step" and g == ("attr", ("self",), "current_step") or (
                g[0] == "call" and callname(g) == "max" and any(x == ("param", p) for x in g[3]))

        how = missed(fl, w, via)
        if how:
            ctx.fail(f"{c.name}:{name}", f"{c.name} does not pass {name}() on to the mixtures it wraps ({how})", m.loc)
        else:
            ctx.sample(f"{m.loc}: {name} reaches every wrapped mixture on all paths")
        if name == "_update_training_step" and w.many:
            fl = ctx.flow(m, ctx.local_policy(m, c, stop=(name,)), c, key="own")
            st = [i for i in fl.g.of("setattr") if i.data == "current_step" and fl.term(i.args[0]) == ("self",)]
            st += [i for i in fl.g.calls() if last(i.fn) == name and i.recv is None and i.target is ctx.proj.find_method(base, name)]
            bad, ex = must_pass(fl, fl.g.entry, lambda i: i.op == "exit", lambda i: i in st, follow_exc=False)
            if bad:
                ctx.fail(f"{c.name}:own-step", f"{c.name} does not record the training step itself, so it never switches", m.loc)


def returns_nothing(f):
    r = f.node.returns
    return isinstance(r, ast.Constant) and r.value is None


def trivial(f):
    return all(isinstance(s, (ast.Pass, ast.Delete)) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant) or isinstance(s, ast.Raise) for s in f.node.body)


def passes(ctx, w, m, name):
    return False


def strict(ctx, w, sel):
    """The wrapper's strictness is that of the mixture in force unless it has a setting of its own."""
    c = w.cls
    init = ctx.proj.find_method(c, "__init__")
    if "strict" in init.params():
        # an own setting: it must be what is stored
        fl = ctx.flow(init, None, c)
        st = [i for i in fl.g.of("setattr") if i.data == "strict" and fl.term(i.args[0]) == ("self",)]
        ctx.count("own_strictness")
        if not st:
            raise AnchorError(f"{c.name}: strictness is not stored")
        if any(x != ("param", "strict") for i in st[-1:] for x in alts(fl.term(i.args[1]))):
            ctx.fail(f"{c.name}:strict", f"{c.name} ignores the strictness it is constructed with", st[-1].loc)
        return
    prop = [m for m in methods_of(ctx, c) if m.name == "strict"]
    if prop:
        fl = ctx.flow(prop[0], ctx.local_policy(prop[0], c, stop=(sel,) if sel else ()), c)
        for i in root_returns(fl):
            t = fl.term(i.args[0]) if i.args and i.args[0] is not None else ("const", None)
            ctx.count("strictness_answers")
            if not (t[0] == "attr" and t[2] == "strict" and in_force(w, sel, t[1])) and i.args:
                if i.frame.func is prop[0]:
                    ctx.fail(f"{c.name}:strict", f"{c.name} does not answer with the strictness of the mixture in force", i.loc)
        return
    # stored: refreshed at construction and after every change of the step or of the schedule
    for m in methods_of(ctx, c):
        fl = ctx.flow(m, ctx.local_policy(m, c, stop=(sel,) if sel else ()), c)

        def refresh(i):
            if i.op != "setattr" or i.data != "strict" or fl.term(i.args[0]) != ("self",):
                return False
            t = fl.term(i.args[1])
            return t[0] == "attr" and t[2] == "strict" and in_force(w, sel, t[1])

        changes = [i for i in fl.g.of("setattr") if i.data in ("current_step", w.attr) and fl.term(i.args[0]) == ("self",)]
        if m.name.startswith("_") and not m.name.startswith("__") and m.name != "_update_training_step":
            continue
        for ch in changes:
            ctx.count("step_changes")
            bad = []
            for s, l in ch.succ:
                if l in ("exc", "exc-base"):
                    continue
                b, ex = must_pass(fl, s, lambda i: i.op == "exit", refresh, follow_exc=False)
                bad += b
            if bad:
                ctx.fail(f"{c.name}:strict", f"{m.qual} changes what is in force without taking over the strictness of the mixture now in force", ch.loc)
        for i in fl.g.of("setattr"):
            if i.data == "strict" and fl.term(i.args[0]) == ("self",) and not refresh(i) and m.name != "__init__":
                ctx.fail(f"{c.name}:strict", f"{m.qual} sets a strictness that is not the one of the mixture in force", i.loc)
    # sorted by start step
    fl = ctx.flow(init, None, c)
    st = [i for i in fl.g.of("setattr") if i.data == w.attr and fl.term(i.args[0]) == ("self",)]
    for i in st:
        for t in alts(fl.term(i.args[1])):
            ctx.count("schedules_stored")
            if t[0] == "call" and callname(t) == "sorted" and "key" in dict(t[4]):
                kw = dict(t[4])
                if not by_start(fl, kw["key"]):
                    ctx.fail(f"{c.name}:sorted", f"{c.name}: the entries are not ordered by their start step", i.loc)
                elif kw.get("reverse", ("const", False)) != ("const", False):
                    ctx.fail(f"{c.name}:sorted", f"{c.name}: the entries are ordered by descending start step", i.loc)
                continue
            s = [x for x in fl.g.calls() if last(x.fn) == "sort" and x.recv is not None and (
                same(fl.term(x.recv), t) or fl.term(x.recv) == ("attr", ("self",), w.attr) or unorder(fl.term(x.recv)) == unorder(t))]
            if s and (s[0].kw or {}).get("key") is not None and by_start(fl, fl.term(s[0].kw["key"])) and "reverse" not in (s[0].kw or {}):
                continue
            if s:
                ctx.fail(f"{c.name}:sorted", f"{c.name}: the entries are not ordered by their start step", i.loc)
            elif t[0] == "call" and callname(t) == "sorted":
                raise AnchorError(f"{c.name}: order of the entries not recognised")
            elif t[0] in ("param", "call", "item"):
                ctx.fail(f"{c.name}:sorted", f"{c.name}: the entries are used in the order they are given in, not by start step", i.loc)
            else:
                raise AnchorError(f"{c.name}: stored schedule not recognised")
    for m in methods_of(ctx, c):
        if m.name == "__init__":
            continue
        fl = ctx.flow(m, lambda *a: False, c)
        for i in fl.g.of("setattr"):
            if i.data == w.attr and fl.term(i.args[0]) == ("self",):
                raise AnchorError(f"{m.qual} replaces the schedule")


# ------------------------------------------------------------------ introduction to a query result
def introduced(ctx):
    q = ctx.proj.cls("QueryResult")
    um = ctx.proj.find_method(q, "update_mixture")
    init = ctx.proj.find_method(q, "__init__")
    for m in (init, um):
        fl = ctx.flow(m, None, q)
        p = "mixture"
        mine = (("param", p), ("attr", ("self",), "_mixture"))

        def tells(name):
            return lambda i: i.op == "call" and last(i.fn) == name and i.recv is not None and all(x in mine for x in alts(fl.term(i.recv)))

        sets = [i for i in fl.g.of("setattr") if i.data == "_mixture" and fl.term(i.args[0]) == ("self",)]
        if not sets:
            raise AnchorError(f"{m.qual}: where the mixture is stored is not recognised")
        for name, text in (("process_index", "the index"), ("process_id_map", "the ids of its keys")):
            ctx.count("introductions")
            h = empty_map(fl) if m is init else None
            bad, ex = must_pass(fl, fl.g.entry, lambda i: i.op == "exit", tells(name), follow_exc=False, hook=h)
            if bad:
                ctx.fail(f"{m.name}:{name}", f"{m.qual}: the mixture is not told {text} on some path", m.loc)
        bad, ex = must_pass(fl, fl.g.entry, tells("process_id_map"), tells("process_index"), follow_exc=False)
        if bad:
            ctx.fail(f"{m.name}:order", f"{m.qual}: the mixture learns the ids of its keys before it knows the index it may infer them from", bad[0][0].loc)
        bad, ex = must_pass(fl, fl.g.entry, lambda i: i.op == "call" and last(i.fn) == "all_keys" and i.recv is not None, tells("process_index"), follow_exc=False)
        if bad:
            ctx.fail(f"{m.name}:order", f"{m.qual}: the mixture is asked for its keys before it knows the index it may infer them from", bad[0][0].loc)
        # the mixture in place when it is told is the new one
        for i in fl.g.calls():
            if last(i.fn) in ("process_id_map", "all_keys", "process_index") and i.recv is not None and fl.term(i.recv) == ("attr", ("self",), "_mixture"):
                b, ex = must_pass(fl, fl.g.entry, lambda x: x is i, lambda x: x in sets, follow_exc=False)
                if b:
                    ctx.fail(f"{m.name}:which", f"{m.qual}: the previous mixture is informed instead of the new one", i.loc)


def empty_map(fl):
    """No key has an id yet."""
    def ismap(t):
        return t == ("attr", ("self",), "_key_id_map") or t[0] == "dict0" or t[0] == "call" and callname(t) == "keys" and t[2] is not None and ismap(t[2])

    def hook(d):
        if d.op == "cmp":
            t = fl.term(d.dst)
            if t[0] == "cmp" and is_call_term(t[2], "len") and t[2][3] and ismap(t[2][3][0]) and t[3][0] == "const" and isinstance(t[3][1], int):
                n = t[3][1]
                return ("c", {"Eq": 0 == n, "NotEq": 0 != n, "Gt": 0 > n, "Lt": 0 < n, "GtE": 0 >= n, "LtE": 0 <= n}.get(t[1])) if t[1] in ("Eq", "NotEq", "Gt", "Lt", "GtE", "LtE") else None
        if d.op == "attr" and d.data == "_key_id_map":
            return "falsy"
        return None

    return hook
