"""C27: background producers never hide failures or leave the consumer waiting.

Producer: the method a class hands to a thread (for the synchronous tokenizer: what __next__ does to fetch more).
Consumer: __next__ of the same class.
 - whatever way the thread ends, the condition the consumer waits for has been made true and signalled;
 - a failure is stored for the consumer before that, and the consumer raises it before it reports the end of the stream;
 - every item taken from the source ends up in what the consumer reads, and the end is not announced before;
 - the consumer tests under the lock it waits with, tests again after waiting, and hands out consecutive full windows."""
import ast

from .linear import *
from .locks import LockSets, lock_fields, lock_of
from ..flow import State
from ..project import dotted, walk_scope
from .c18 import whiles, loops_around
from .c37 import loops_of


def run(ctx):
    ctx.rule("For each class that starts a thread on one of its methods and is iterated (and for the synchronous tokenizer): exploration of all "
             "paths of the producer, failures of every call included: at each way out the end flag is set and signalled (event set), a failure has "
             "been stored for the consumer first, every item taken from the source was added to the buffer before the end was announced, and the "
             "end is announced only after the source ended. Consumer: the flag and the buffer are tested under the lock of the wait and again "
             "after it; a stored failure is raised before the end is reported; windows (linear arithmetic over the buffer position) are full, "
             "consecutive and advance by the configured step; the rest is dropped only after the end.")
    sub = []
    for c in sorted((x for l in ctx.proj.classes.values() for x in l), key=lambda c: c.qual):
        m = ctx.proj.find_method(c, "__next__")
        if m is None or m.cls is not c or m.is_abstract:
            continue
        tm = target_of(ctx, c)
        nf = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="n")
        if tm is None:
            if not fetches(nf) or not buffers(nf):
                continue
            sub.append(c)
            ctx.part(producer, ctx, c, nf, nf, False)
            ctx.part(windows, ctx, c, nf)
            continue
        sub.append(c)
        tf = ctx.flow(tm, ctx.local_policy(tm, c), selfcls=c, key="t")
        ctx.count("threads")
        ctx.part(started, ctx, c, tf, nf)
        ctx.part(producer, ctx, c, tf, nf, True)
        ctx.part(consumer, ctx, c, tf, nf)
        if buffers(tf, nf):
            ctx.part(windows, ctx, c, nf)
    ctx.floor("threads", 2)
    ctx.sample(", ".join(c.qual for c in sub))


def target_of(ctx, c):
    for k in ctx.proj.mro(c):
        for m in k.methods.values():
            for n in walk_scope(m.node):
                if isinstance(n, ast.Call) and last(dotted(n.func) or "") == "Thread":
                    for kw in n.keywords:
                        if kw.arg == "target" and isinstance(kw.value, ast.Attribute):
                            t = ctx.proj.find_method(c, kw.value.attr)
                            if t is not None:
                                return t
    return None


def field_of(fl, t):
    """Attribute of self a temp is read from, or None."""
    d = defining(fl, t)
    if d is not None and d.op == "attr" and strip_ids(fl.term(d.args[0])) == ("self",):
        return d.data
    return None


def cond_field(fl, t, pol=True):
    """(field, polarity): the condition is true iff self.field is truthy/set (polarity True) or not."""
    d = defining(fl, t)
    if d is None:
        return None
    if d.op == "unary" and d.data == "Not":
        return cond_field(fl, d.args[0], not pol)
    if d.op == "call" and d.fn == "bool" and len(d.args) == 1:
        return cond_field(fl, d.args[0], pol)
    if d.op == "cmp" and d.data in ("Is", "IsNot", "Eq", "NotEq"):
        for a, b in ((0, 1), (1, 0)):
            f, v = field_of(fl, d.args[a]), fl.term(d.args[b])
            if f is not None and v[0] == "const" and v[1] in (None, False, True):
                same_ = d.data in ("Is", "Eq")
                return f, pol == (same_ if v[1] is True else not same_)
        return None
    if d.op == "attr":
        f = field_of(fl, t)
        return (f, pol) if f is not None else None
    return None


def fetches(fl):
    """(instruction, source field, kind): next(self.S), for x in self.S, or a bulk list(islice(self.S, n))."""
    out = []
    for i in fl.g.live:
        if i.op == "call" and last(i.fn) in ("next", "__next__"):
            f = field_of(fl, i.args[0]) if i.args else field_of(fl, i.recv) if i.recv is not None else None
            if f is not None:
                out.append((i, f, "one"))
        elif i.op == "next":
            it = defining(fl, i.args[0])
            f = field_of(fl, it.args[0]) if it is not None and it.op == "iter" else None
            if f is None and it is not None and it.op == "iter":
                d = defining(fl, it.args[0])
                if d is not None and d.op == "call" and last(d.fn) == "islice":
                    f = field_of(fl, d.args[0])
            if f is not None and any(s.op == "enter" or True for s, _ in i.succ) and is_source(fl, f):
                out.append((i, f, "loop"))
        elif i.op == "call" and last(i.fn) == "list" and i.args:
            d = defining(fl, i.args[0])
            if d is not None and d.op == "call" and last(d.fn) == "islice" and field_of(fl, d.args[0]) is not None:
                out.append((i, field_of(fl, d.args[0]), "bulk"))
    return out


def is_source(fl, f):
    """Field that is only ever iterated, never measured or indexed."""
    for i in fl.g.live:
        if i.op == "item" and field_of(fl, i.args[0]) == f:
            return False
        if i.op == "call" and last(i.fn) in ("len", "append", "extend") and any(field_of(fl, a) == f for a in list(i.args) + ([i.recv] if i.recv is not None else [])):
            return False
    return True


def buffers(fl, nf=None):
    lens = {field_of(x, i.args[0]) for x in (fl, nf) if x is not None for i in x.g.calls() if i.fn == "len" and i.args}
    return [i for i in fl.g.calls() if last(i.fn) in ("extend", "append") and i.recv is not None and field_of(fl, i.recv) is not None] + \
        [i for i in fl.g.of("setattr") if i.data in lens and grown(fl, i)]


def grown(fl, i):
    """self.b += x / self.b = self.b + x"""
    d = defining(fl, i.args[1])
    return d is not None and d.op == "bin" and d.data in ("Add", "IAdd") and field_of(fl, d.args[0]) == i.data


def wait_calls(fl):
    return [i for i in fl.g.calls() if last(i.fn) in ("wait", "wait_for") and i.recv is not None and field_of(fl, i.recv) is not None]


def kind_of(ctx, c, f):
    """Constructor a field is initialised from."""
    for k in ctx.proj.mro(c):
        for m in k.methods.values():
            for n in walk_scope(m.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and n.targets[0].attr == f and isinstance(n.value, ast.Call):
                    return last(dotted(n.value.func) or "")
    return None


def truthy_edge(fl, i, lab, fields):
    """Branch edge on which one of the fields is set."""
    if i.op != "branch" or lab not in (True, False):
        return None
    cf = cond_field(fl, i.args[0])
    if cf is None or cf[0] not in fields:
        return None
    return cf[1] == lab


def flags(fl, w):
    """Fields the wait w is reached only with unset."""
    cands = set()
    for i in fl.g.of("branch"):
        cf = cond_field(fl, i.args[0])
        if cf is not None:
            cands.add(cf[0])
    out = set()
    for f in cands:
        ok = True
        for st in [fl.g.entry] + [s for s, l in w.succ if l not in ("exc", "exc-base")]:
            bad, _ = must_pass(fl, st, lambda i: i is w, lambda i: False, via_edge=lambda i, lab: truthy_edge(fl, i, lab, {f}) is False, follow_exc=False)
            if bad:
                ok = False
        if ok:
            out.add(f)
    return out


def error_fields(fl):
    """Fields whose content the consumer raises."""
    out = set()
    for i in fl.g.of("raise"):
        if not i.args or i.args[0] is None:
            continue
        f = field_of(fl, i.args[0])
        if f is not None:
            out.add(f)
            continue
        t = fl.term(i.args[0])
        if "StopIteration" in show(t):
            continue
        for b in fl.g.of("branch"):
            cf = cond_field(fl, b.args[0])
            if cf is None:
                continue
            bad, _ = must_pass(fl, fl.g.entry, lambda x: x is i, lambda x: False, via_edge=lambda x, lab: truthy_edge(fl, x, lab, {cf[0]}) is True, follow_exc=False)
            if not bad:
                out.add(cf[0])
    return out


def reads(fl):
    """Fields read from self."""
    out = set()
    for i in fl.g.of("attr"):
        if strip_ids(fl.term(i.args[0])) == ("self",):
            out.add(i.data)
    return out


def written(fl):
    return {i.data for i in fl.g.of("setattr") if strip_ids(fl.term(i.args[0])) == ("self",)}


def started(ctx, c, tf, nf):
    m = ctx.proj.find_method(c, "__init__")
    if m is None:
        raise AnchorError(f"{c.qual} has no constructor")
    fl = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="init")
    th = [i for i in fl.g.calls() if last(i.fn) == "Thread"]
    st = [i for i in fl.g.calls() if last(i.fn) == "start" and i.recv is not None and
          (defining(fl, i.recv) in th or any(x in th for x in [defining(fl, i.recv)]) or from_thread(fl, i.recv, th))]
    if not th:
        raise AnchorError(f"{c.qual}: thread is not created in the constructor")
    if not st:
        ctx.fail("not-started", f"{c.name}: the thread is never started: its consumer waits for ever", th[0].loc)
        return
    ids = {i.id for i in st}
    bad, ex = must_pass(fl, fl.g.entry, lambda i: i.op == "exit", lambda i: i.id in ids, follow_exc=False)
    if bad:
        ctx.fail("not-started", f"{c.name}: the constructor can end without starting the thread: its consumer waits for ever", st[0].loc)
    used = reads(tf) | written(tf)
    for s in st:
        for i in reach([x for x, l in s.succ if l not in ("exc", "exc-base")], exc=False):
            ctx.count("constructor_steps")
            if i.op == "setattr" and strip_ids(fl.term(i.args[0])) == ("self",) and i.data in used:
                ctx.fail("init-race", f"{c.name}: self.{i.data} is set after the thread that uses it was started: what the thread stored can be overwritten", i.loc)
            if i.op == "call" and i.id in ids:
                ctx.fail("two-threads", f"{c.name}: the thread is started more than once", i.loc)
    if len(th) > 1:
        ctx.fail("two-threads", f"{c.name}: more than one thread reads the source: items can be reordered", th[1].loc)


def from_thread(fl, t, th):
    d = defining(fl, t)
    if d is None or d.op != "attr":
        return False
    return any(i.op == "setattr" and i.data == d.data and defining(fl, i.args[1]) in th for i in fl.g.of("setattr"))


def const_set(fl, i):
    """Value a setattr stores if constant."""
    t = fl.term(i.args[1])
    return t[1] if t[0] == "const" else "?"


def producer(ctx, c, fl, nf, threaded):
    g = fl.g
    fs = fetches(fl)
    if not fs:
        raise AnchorError(f"{c.qual}: what the thread reads from is not recognised")
    src = {f for _, f, _ in fs}
    fid = {i.id: k for i, _, k in fs}
    waits = wait_calls(nf) if threaded else []
    events, conds, TF = set(), set(), set()
    for w in waits:
        f = field_of(nf, w.recv)
        k = kind_of(ctx, c, f)
        if k == "Event":
            events.add(f)
        elif k == "Condition":
            conds.add(f)
            fl_ = flags(nf, w)
            if not fl_:
                ctx.fail("wait-blind", f"{c.name}: the consumer waits without having checked that the producer has not ended", w.loc)
                return
            TF |= fl_
        else:
            raise AnchorError(f"{w.loc}: what the consumer waits for is not recognised")
    if threaded and not waits:
        if not any(last(i.fn) in ("wait", "wait_for", "get", "join", "acquire", "sleep", "is_alive", "result") for i in nf.g.calls()):
            ctx.fail("unlocked", f"{c.name}: the consumer never waits for what the thread fetches", nf.g.func.module.rel)
            return
        raise AnchorError(f"{c.qual}: the consumer waits in no recognised way")
    if not threaded:
        TF = {i.data for i in g.of("setattr") if const_set(fl, i) is True and any(
            (cond_field(fl, b.args[0]) or (None,))[0] == i.data for b in g.of("branch"))}
        for f in {cf[0] for b in g.of("branch") for cf in [cond_field(fl, b.args[0])] if cf is not None}:
            if all(not must_pass(fl, g.entry, lambda i: i is x, lambda i: False, via_edge=lambda i, lab: truthy_edge(fl, i, lab, {f}) is False, follow_exc=False)[0] for x, _, _ in fs):
                TF.add(f)
        if not TF:
            raise AnchorError(f"{c.qual}: end flag not recognised")
    EF = error_fields(nf)
    # lists that collect fetched items
    lists, got_by = set(), {}
    vals = {}
    for i, _, k in fs:
        vals[i.id] = i
    bulk = {i.id for i, _, k in fs if k == "bulk"}

    def is_fetched(t):
        d = defining(fl, t)
        if d is not None and d.id in fid and fid[d.id] != "bulk":
            return True
        tt = fl.term(t)
        return any(x[0] == "elem" for x in alts(tt)) and d is not None and d.op in ("next", "load") and any(
            fid.get(x.id) == "loop" for x in [d]) 

    appends, extends, sets = set(), set(), set()
    for i in g.calls():
        if last(i.fn) in ("append", "add") and i.recv is not None and i.args and is_fetched(i.args[0]):
            appends.add(i.id)
            d = defining(fl, i.recv)
            if d is not None and d.op == "list":
                lists.add(d.id)
    batch = lists | bulk

    def holds(t):
        """Value computed from the fetched items."""
        for x in contributions(fl, t):
            if x[0] in ("list0", "list") and len(x) == 2 and x[1] in lists:
                return True
            if x[0] == "call" and len(x) == 6 and x[5] in fid:
                return True
            if x[0] == "elem" and any(s in x[1:2] for s in [("attr", ("self",), f) for f in src]):
                return True
        return False

    for i in buffers(fl, nf):
        a = i.args[0] if i.op == "call" else i.args[1]
        if i.id not in appends and holds(fl.term(a)):
            extends.add(i.id)
            check_order(ctx, c, fl, i, a)
    bufs = {field_of(fl, i.recv) if i.op == "call" else i.data for i in g.live if i.id in extends}
    for i in g.of("setattr"):
        if strip_ids(fl.term(i.args[0])) == ("self",) and is_fetched(i.args[1]):
            sets.add(i.id)
            bufs.add(i.data)
    if not bufs:
        ctx.fail("lost-item", f"{c.name}: what is taken from the source never reaches the consumer", fs[0][0].loc)
        return
    ctx.count("sources", len(src))
    for i in g.live:
        if i.op == "setattr" and i.data in bufs and i.id not in sets and i.id not in extends and strip_ids(fl.term(i.args[0])) == ("self",):
            if const_set(fl, i) is None and i.id not in extends and threaded and events:
                continue
            raise AnchorError(f"{i.loc}: the buffer is replaced in a way that is not recognised")
        if i.op in ("delitem", "setitem") and field_of(fl, i.args[0]) in bufs or i.op == "call" and i.recv is not None and last(i.fn) in (
                "pop", "clear", "insert", "remove", "sort", "reverse", "popleft", "appendleft") and field_of(fl, i.recv) in bufs:
            raise AnchorError(f"{i.loc}: the buffer is changed in a way that is not recognised")
    consumed = reads(nf)
    lf = lock_fields(ctx, c)
    locks = {w: (lf.get(w) or (None, None))[1] or w for w in conds}
    ls = LockSets(fl, lf)
    guard = set()
    for w in conds:
        guard.add(("attr", ("self",), locks[w]))

    def held(i):
        return any(ls.held(i, l) for l in guard)

    def listcond(t, pol=True):
        d = defining(fl, t)
        if d is None:
            return None
        if d.id in batch:
            return pol
        if d.op == "unary" and d.data == "Not":
            return listcond(d.args[0], not pol)
        if d.op == "call" and d.fn in ("len", "bool") and d.args:
            return listcond(d.args[0], pol)
        if d.op == "cmp":
            k = fl.term(d.args[1])
            p = listcond(d.args[0], pol)
            dd = defining(fl, d.args[0])
            if p is not None and dd is not None and dd.op == "call" and k == ("const", 0):
                if d.data in ("Gt", "NotEq"):
                    return p
                if d.data in ("Eq", "LtE"):
                    return not p
        return None

    loops = [h for h in g.of("loop") if any(any(i is b for b in body_of(h)) for i, _, _ in fs) and not (loops_of(fl, h))]
    attempts = {h.id for h in g.live if h.op == "next" and h.id not in fid and any(any(i is b for b in body_of(h)) for i, _, _ in fs)}
    for i in g.of("iter"):
        d = defining(fl, i.args[0])
        if d is not None and d.op == "call" and last(d.fn) in REORDER and last(d.fn) != "islice" and d.args and holds(fl.term(d.args[0])):
            ctx.fail("order", f"{c.name}: {last(d.fn)}() changes the order or number of what is added to the buffer", i.loc)
    lid = {h.id for h in loops}
    seen = set()

    def bad(key, msg, i):
        if (key, i.id) not in seen:
            seen.add((key, i.id))
            ctx.fail(key, f"{c.name}: {msg}", i.loc)

    def transfer(h, depth=0):
        """For loop over what was fetched that adds something on every turn."""
        if h.op != "next" or h.id in fid or depth > 3 or not holds(fl.term(h.args[0])):
            return False
        ps = [p for k, p in loop_paths(fl, h) if k in ("loop", "break", "return")]
        return bool(ps) and all(any(x.id in extends or (x is not h and transfer(x, depth + 1)) for x, _ in p) for p in ps)

    moves = {h.id for h in g.of("next") if transfer(h)}

    # state: woken (0 no, 1 flag set, 2 signalled), failure pending, source ended, batch non-empty, items not yet in the buffer,
    # one fetched item in hand, failure happened
    W, F, E, A, P, G, H = range(7)

    def up(st, **k):
        s = list(st)
        for n, v in k.items():
            s["WFEAPGH".index(n)] = v
        return State(s)

    def step(i, st):
        ctx.counts_producer = getattr(ctx, "counts_producer", 0) + 1
        if i.id in fid and fid[i.id] != "bulk":
            if st[G] and not st[H]:
                bad("lost-item", "an item taken from the source is dropped", i)
            if fid[i.id] == "one":
                st = up(st, G=1)
        elif i.id in bulk:
            if st[P] and not st[H]:
                bad("lost-item", "a batch taken from the source is dropped", i)
            return [up(st, A=1, P=1), up(st, A=0, E=1)]
        elif i.op == "list" and i.id in lists:
            if st[P] and not st[H]:
                bad("lost-item", "items taken from the source are not added to the buffer", i)
            st = up(st, A=0, P=0)
        if i.id in appends:
            st = up(st, A=1, P=1, G=0)
        elif i.id in extends:
            st = up(st, P=0, G=0)
            if threaded and guard and not held(i):
                bad("unlocked", "the buffer is extended without the lock the consumer reads it under", i)
        elif i.id in sets:
            st = up(st, G=0, P=0)
            if st[W] == 2 and events:
                bad("late", f"self.{i.data} is stored after the consumer was woken up", i)
        elif i.op == "setattr" and strip_ids(fl.term(i.args[0])) == ("self",):
            if i.data in TF and not (i.data in EF and const_set(fl, i) is None):
                v = const_set(fl, i)
                if v == "?":
                    tv = ex.truth(ex.aval(i.args[1], ex.env))
                    v = tv if tv is not None else v
                if v is True or v == "?":
                    if not st[E] and not st[F] and not st[H] and v is True:
                        bad("early-end", "the end of the stream is announced although the source has not ended", i)
                    if threaded and guard and not held(i):
                        bad("unlocked", f"self.{i.data} is set without the lock of the wait: the wake-up can be missed", i)
                    st = up(st, W=max(st[W], 1) if not st[W] == 2 else 1)
                elif v is False:
                    st = up(st, W=0)
            if i.data in EF and const_set(fl, i) is not None:
                st = up(st, F=0)
                if st[W] == 2 and events:
                    bad("late", f"self.{i.data} is stored after the consumer was woken up", i)
        elif i.op == "call" and i.recv is not None:
            f = field_of(fl, i.recv)
            if f in conds and last(i.fn) in ("notify", "notify_all"):
                if st[W] == 1:
                    st = up(st, W=2)
            elif f in events and last(i.fn) == "set":
                st = up(st, W=2)
            elif f in events and last(i.fn) == "clear":
                st = up(st, W=0)
        elif i.op == "with_exit" and i.args and threaded and guard:
            l = lock_of(fl, fl.term(i.args[0]), lf)
            if l in guard and st[W] >= 1:
                if st[P] and not st[H]:
                    bad("end-before-data", "the end of the stream is announced before the last items are in the buffer: the consumer can miss them", i)
                if st[F]:
                    bad("end-before-error", "the end of the stream is announced before the failure is stored: the consumer sees an ordinary end", i)
        if i.id in lid:
            if st[E] and not st[A] and not st[W] and not st[H]:
                bad("never-ends", "after the source has ended without further items the end of the stream is never announced", i)
            st = up(st, E=0)
        return [st]

    def edge(i, s, lab, st):
        if lab in ("exc", "exc-base"):
            if no_raise(i) or i.op in ("with_enter", "with_exit", "setattr", "attr", "iter", "bin", "list", "tuple", "unpack", "cmp"):
                return False
            if i.op == "call" and (i.id in extends or i.recv is not None and field_of(fl, i.recv) in (events | conds | {locks[w] for w in conds})):
                return False
            if i.op == "next" and i.id not in fid:
                return False
        if i.op == "next" and i.id in attempts and lab == "stop" and not st[A] and not st[E] and not st[H]:
            return False  # the batch size is at least one: at least one item was asked for
        if i.id in moves and lab == "stop":
            return up(st, P=0)
        if fid.get(i.id) == "loop":
            if lab == "next":
                return up(st, G=1)
            if lab == "stop":
                return up(st, E=1)
        if s.op == "handler":
            ts = s.data or ["BaseException"]
            if all(last(str(t)) in ("StopIteration", "StopAsyncIteration") for t in ts):
                return up(st, E=1, G=0)
            return up(st, F=1, H=1, G=0)
        if i.op == "dispatch" and s.op != "handler":
            return up(st, F=1, H=1, G=0)
        if s.op == "raise_exit":
            return up(st, F=1, H=1)
        if i.op == "branch" and lab in (True, False):
            d = defining(fl, i.args[0])
            if d is not None and d.op == "call" and d.fn == "isinstance" and len(d.args) == 2 and "StopIteration" in show(fl.term(d.args[1])) and lab is True:
                return up(st, F=0, E=1)
            p = listcond(i.args[0])
            if p is not None:
                nonempty = p == lab
                if bool(st[A]) != nonempty:
                    return False
                if not nonempty:
                    return up(st, E=1)
            if truthy_edge(fl, i, lab, TF) is True and threaded:
                return up(st, W=2) if st[W] == 0 else st
        return st

    ex = Explorer(fl, step, edge=edge, track_fields=True, watch=[i.args[1] for i in g.of("setattr") if i.data in TF])
    ex.exc_pre = True
    vis = ex.run(State((0, 0, 0, 0, 0, 0, 0)))
    ctx.count("producer_states", len(vis))
    for k in vis:
        i, st = g.ins[k[0]], k[2]
        if i.op not in ("exit", "raise_exit"):
            continue
        ctx.count("producer_exits")
        tr = trace(ex.path((i, k[1], st)))
        if threaded and st[W] < 2:
            how = "fails" if i.op == "raise_exit" else "ends"
            what = "the flag it waits for" if not events else "the event it waits for"
            bad("asleep", f"when the thread {how}, {what} can be {'set without a notification' if st[W] == 1 else 'unset'}: the consumer waits for ever; path {tr}", i)
        if (st[F] and (threaded or i.op == "exit")):
            bad("hidden-failure", f"a failure of the source or of the processing is not passed on to the consumer; path {tr}", i)
        if (st[P] or st[G]) and not st[H] and i.op == "exit":
            bad("lost-item", f"items taken from the source do not reach the consumer; path {tr}", i)
    ctx.floor("producer_exits", 1)


REORDER = {"reversed", "sorted", "set", "frozenset", "shuffle", "sample", "filter", "islice"}


def check_order(ctx, c, fl, i, a):
    """What is added to the buffer keeps the order and number of the items."""
    t = fl.term(a)
    ctx.count("transfers")
    for x in subterms(t):
        if x[0] == "call" and last(x[1]) in REORDER and not (last(x[1]) == "islice"):
            ctx.fail("order", f"{c.name}: {last(x[1])}() changes the order or number of what is added to the buffer", i.loc)
        if x[0] == "slice" or x[0] == "item" and x[2][0:1] == ("slice",):
            ctx.fail("order", f"{c.name}: only part of what was read is added to the buffer", i.loc)
    # comprehensions add one element per turn, without a filter
    todo = [defining(fl, a)]
    for d in todo:
        if d is None:
            continue
        if d.op == "newcomp":
            es = [e for e in fl.g.of("elem") if e.args and defining(fl, e.args[0]) is d]
            for e in es:
                hs = loops_around(fl, e)
                ctx.count("comprehensions")
                for b in fl.g.of("branch"):
                    if hs and any(x is b for x in body_of(hs[0])):
                        ctx.fail("order", f"{c.name}: a condition drops part of what was read", b.loc)


def consumer(ctx, c, tf, fl):
    g = fl.g
    waits = wait_calls(fl)
    EF = error_fields(fl)
    lf = lock_fields(ctx, c)
    ls = LockSets(fl, lf)
    wset = {w.id for w in waits}
    src = {f for _, f, _ in fetches(tf)}
    shared = (written(tf) | {field_of(tf, i.recv) for i in buffers(tf, fl) if i.op == "call"}) & reads(fl)
    ends = [i for i in g.of("raise") if i.args and i.args[0] is not None and "StopIteration" in show(fl.term(i.args[0]))]
    if not EF:
        ctx.fail("hidden-failure", f"{c.name}: the consumer never raises a failure of the thread", g.func.module.rel)
    for w in waits:
        f = field_of(fl, w.recv)
        k = kind_of(ctx, c, f)
        ctx.count("waits")
        if last(w.fn) == "wait" and (w.args or w.kw) and k == "Event":
            # a timed wait on an event must test it
            pass
        if k == "Condition":
            lock = ("attr", ("self",), (lf.get(f) or (None, None))[1] or f)
            if not ls.held(w, lock):
                ctx.fail("unlocked", f"{c.name}: the consumer waits without holding the lock", w.loc)
            TF = flags(fl, w) - EF
            for i in g.of("attr"):
                if strip_ids(fl.term(i.args[0])) == ("self",) and i.data in shared:
                    ctx.count("shared_reads")
                    if not ls.held(i, lock):
                        ctx.fail("unlocked", f"{c.name}: self.{i.data} is read without the lock the thread changes it under", i.loc)
            # the flag is tested in the critical section of the wait, else a wake-up between test and wait is missed
            for i in g.of("branch"):
                cf = cond_field(fl, i.args[0])
                if cf is None or cf[0] not in TF:
                    continue
                rd = defining(fl, i.args[0])
                for r in [x for x in g.of("attr") if x.data == cf[0] and any(x is y for y in back(fl, i.args[0]))]:
                    if any(x is w for x in reach([i], stop=lambda x: x is w, exc=False)) and first_to(fl, i, w, lock, ls):
                        if not ls.same_region(r, w, lock):
                            ctx.fail("missed-wakeup", f"{c.name}: self.{cf[0]} is tested before the lock of the wait is taken: the wake-up in between is missed", w.loc)
            # tested again after the wait
            nx = [s for s, l in w.succ if l not in ("exc", "exc-base")]
            rid = {i.id for i in g.of("attr") if i.data in shared and strip_ids(fl.term(i.args[0])) == ("self",)}
            outs = {i.id for i in root_returns(fl)} | {i.id for i in g.of("raise")}
            for s in nx:
                bad, ex = must_pass(fl, s, lambda i: i.id in outs, lambda i: i.op == "branch" and any(x.id in rid for x in back(fl, i.args[0])), follow_exc=False)
                for b in bad[:1]:
                    ctx.fail("no-retest", f"{c.name}: after waiting the consumer goes on without testing again what it waited for", b[0].loc)
            # stored failures come first
            for e in ends:
                for st in [g.entry] + nx:
                    bad, ex = must_pass(fl, st, lambda i: i is e, lambda i: False, via_edge=lambda i, lab: truthy_edge(fl, i, lab, EF) is False,
                                        follow_exc=False, kill=lambda i: i.id in wset)
                    for b in bad[:1]:
                        if EF:
                            ctx.fail("hidden-failure", f"{c.name}: the end of the stream can be reported without looking for a stored failure; path {trace(ex.path(b))}", e.loc)
                ctx.count("stream_ends")
                bad, ex = must_pass(fl, g.entry, lambda i: i is e, lambda i: False, via_edge=lambda i, lab: truthy_edge(fl, i, lab, TF) is True,
                                    follow_exc=False, kill=lambda i: i.id in wset)
                for b in bad[:1]:
                    ctx.fail("early-end", f"{c.name}: the end of the stream can be reported although the thread still delivers items; path {trace(ex.path(b))}", e.loc)
        elif k == "Event":
            event(ctx, c, tf, fl, w, EF, shared, src, ends)
    if not waits and any(last(i.fn) in ("wait", "wait_for", "get", "join", "acquire", "sleep", "is_alive", "result") for i in g.calls()):
        raise AnchorError(f"{c.qual}: the consumer waits in no recognised way")


def back(fl, t, depth=0):
    """Instructions a condition is computed from."""
    d = fl.g.tempdef.get(t)
    if d is None or depth > 12:
        return []
    out = [d]
    if d.op == "load":
        for r in fl.rdefs(d, d.data):
            if r is not None:
                out += back(fl, r.args[0], depth + 1)
        return out
    for a in list(d.args) + ([d.recv] if d.recv is not None else []):
        if a is not None:
            out += back(fl, a, depth + 1)
    return out


def first_to(fl, i, w, lock, ls):
    """The wait is reachable from the branch without another test of the loop (no loop head in between)."""
    return any(x is w for x in reach([i], stop=lambda x: x is w or x.op == "loop", exc=False))


def event(ctx, c, tf, fl, w, EF, shared, src, ends):
    """Prefetch of a first item: it is handed out exactly once, after the event; everything else comes from the source afterwards."""
    g = fl.g
    ev = field_of(fl, w.recv)
    pub = {i.data for i in tf.g.of("setattr") if strip_ids(tf.term(i.args[0])) == ("self",)}
    items = pub - EF
    for i in g.of("attr"):
        if strip_ids(fl.term(i.args[0])) == ("self",) and i.data in pub:
            ctx.count("shared_reads")
            bad, ex = must_pass(fl, g.entry, lambda x: x is i, lambda x: x is w, follow_exc=False)
            if bad:
                # reading it on a path where the thread is known to have ended is fine only behind the consumed flag
                ctx.fail("unlocked", f"{c.name}: self.{i.data} is read before the thread has stored it; path {trace(ex.path(bad[0]))}", i.loc)
    # flag that says the first item has been handed out
    fl_flags = {cf[0] for b in g.of("branch") for cf in [cond_field(fl, b.args[0])] if cf is not None} - EF - items
    gate = {f for f in fl_flags if any(i.op == "setattr" and i.data == f and const_set(fl, i) in (True, False) for i in g.of("setattr"))}
    if not gate and fl_flags and not any(i.data in fl_flags for i in list(g.of("setattr")) + list(tf.g.of("setattr"))):
        ctx.fail("first-item", f"{c.name}: handing out the first item is not remembered: it is handed out again", w.loc)
        return
    if len(gate) != 1:
        raise AnchorError(f"{c.qual}: how the consumer remembers the first item was handed out is not recognised")
    f = next(iter(gate))
    done = {const_set(fl, i) for i in g.of("setattr") if i.data == f}
    if len(done) != 1:
        raise AnchorError(f"{c.qual}: flag {f} is set to several values")
    after = done.pop()
    init = init_value(ctx, c, f)
    if init is None or init == after:
        ctx.fail("first-item", f"{c.name}: self.{f} does not start as {not after}: the first item is never handed out", w.loc)
    sid = {i.id for i in g.of("setattr") if i.data == f}

    def on(i, lab):
        return truthy_edge(fl, i, lab, {f})

    bad, ex = must_pass(fl, g.entry, lambda i: i is w, lambda i: False, via_edge=lambda i, lab: on(i, lab) is (not after), follow_exc=False)
    for b in bad[:1]:
        ctx.fail("first-item", f"{c.name}: the first item can be handed out again; path {trace(ex.path(b))}", w.loc)
    for i, s_, k in fetches(fl):
        ctx.count("fetches")
        bad, ex = must_pass(fl, g.entry, lambda x: x is i, lambda x: False, via_edge=lambda x, lab: on(x, lab) is after, follow_exc=False)
        for b in bad[:1]:
            ctx.fail("first-item", f"{c.name}: the consumer reads from the source although the thread may still be reading from it; path {trace(ex.path(b))}", i.loc)
        if s_ not in src:
            raise AnchorError(f"{i.loc}: the consumer reads from another source than the thread")
    # handed out: every exit behind the wait has set the flag, raises the failure if there is one, and returns the item
    rets = root_returns(fl)
    outs = {i.id for i in rets} | {i.id for i in g.of("raise")}
    for s in [x for x, l in w.succ if l not in ("exc", "exc-base")]:
        bad, ex = must_pass(fl, s, lambda i: i.id in outs, lambda i: i.id in sid, follow_exc=False)
        if bad and not must_pass(fl, g.entry, lambda i: i is w, lambda i: i.id in sid, follow_exc=False)[0]:
            bad = []
        for b in bad[:1]:
            ctx.fail("first-item", f"{c.name}: handing out the first item is not remembered: it is handed out again", b[0].loc)
        bad, ex = must_pass(fl, s, lambda i: i.op == "return" and i.id in outs, lambda i: False, via_edge=lambda i, lab: truthy_edge(fl, i, lab, EF) is False, follow_exc=False)
        for b in bad[:1]:
            ctx.fail("hidden-failure", f"{c.name}: after the wait the consumer goes on without looking for a stored failure; path {trace(ex.path(b))}", b[0].loc)
        seen = reach([s], exc=False)
        for i in seen:
            if i.id in outs and i.op == "return" and not any(x.id in {y.id for y, _, _ in fetches(fl)} for x in back(fl, i.args[0])):
                v = field_of(fl, i.args[0])
                vs = {x[2] for x in subterms(fl.term(i.args[0])) if x[0] == "attr" and x[1] == ("self",)}
                if v not in items and not (vs & items):
                    ctx.fail("first-item", f"{c.name}: the prefetched item is not what is handed out first", i.loc)
        for e in ends:
            if any(x is e for x in seen):
                ctx.fail("early-end", f"{c.name}: the end of the stream is derived from the prefetched item instead of from how the source ended", e.loc)


def init_value(ctx, c, f):
    m = ctx.proj.find_method(c, "__init__")
    fl = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="init")
    vs = {const_set(fl, i) for i in fl.g.of("setattr") if i.data == f}
    return vs.pop() if len(vs) == 1 else None


# ------------------------------------------------------------------ windows
def windows(ctx, c, fl):
    """Linear evaluation of one call of __next__."""
    g = fl.g
    fs = {i.id for i, _, _ in fetches(fl)}
    waits = {w.id for w in wait_calls(fl)}
    bodies = [i for i in g.of("body")]
    outer = [h for h in g.of("loop") if not loops_of(fl, h)]
    if len(outer) != 1:
        raise AnchorError(f"{c.qual}: shape of __next__ not recognised")
    h = outer[0]
    start = [i for i in body_of(h) if i.op == "body" and loops_of(fl, i)[-1] is h]
    if len(start) != 1:
        raise AnchorError(f"{c.qual}: shape of __next__ not recognised")
    segs = segments(fl, [(start[0], None)], {h.id} | waits | (whiles(fl) - {h.id}))
    havoc = stored_in(body_of(h))
    self_ = ("t", ("self",))
    step, pos, buf, L, used = None, None, None, None, None
    fulls = 0
    grow = {i.id: field_of(fl, i.recv) if i.op == "call" else i.data for i in buffers(fl)}
    init = ctx.proj.find_method(c, "__init__")
    ifl = ctx.flow(init, ctx.local_policy(init, c), selfcls=c, key="init")
    runs = []
    for kind, at, path in segs:
        r = Run(fl)
        r.havoc = havoc
        for i, lab in path:
            r.do(i, lab)
            for x in (body_of(i) if i.op == "next" and lab == "stop" else [i]):
                if x.id in grow:
                    r.fields[(self_, grow[x.id])] = ("grown", x.id)
        if infeasible(r.facts):
            continue
        runs.append((kind, at, r))
    for kind, at, r in runs:
        if kind != "return":
            continue
        v = r.v(at.args[0])
        s = slice_of(v)
        if s is None:
            raise AnchorError(f"{at.loc}: what __next__ returns is not a part of the buffer")
        b, lo, hi = s
        if not is_self_attr(b, self_):
            continue
        fulls += 1
        ctx.count("full_windows")
        buf = b
        n = ("call", "len", None, (b,), ())
        adv = [k for k in r.fields if k[0] == self_ and is_advance(r, k, lo)]
        p = None
        for a, cc in lo.m:
            if is_self_attr(a, self_) and cc == 1 and lo == lin(a):
                p = a
        if p is None:
            ctx.fail("window-start", f"{c.name}: a window does not start at the current position of the buffer", at.loc)
            continue
        pos = p
        size = hi - lo
        L = size
        if not implies(r.facts, lin(n) - lin(hi)):
            ctx.fail("window-short", f"{c.name}: a window is handed out although the buffer does not hold that many tokens yet (it is shorter than the sequence length)", at.loc)
        names = {a[2] for a, _ in size.m if is_self_attr(a, self_)}
        if names != {"sequence_length"} or size.c != 1 or len(size.m) != 1:
            ctx.fail("window-size", f"{c.name}: a window has {size} tokens instead of the sequence length plus one", at.loc)
        nv = r.fields.get((self_, p[2]))
        if nv is None:
            ctx.fail("window-step", f"{c.name}: the position is not moved on after a window: the same tokens are handed out for ever", at.loc)
            continue
        d = lin(nv) - lin(p)
        sf = [a for a, k in d.m if is_self_attr(a, self_)]
        if len(d.m) == 1 and sf and d.c == 0 and dict(d.m)[sf[0]] == 1 and sf[0][2] != "sequence_length":
            check_step(ctx, c, ifl, sf[0][2], size, at)
        elif d == size:
            pass
        else:
            ctx.fail("window-step", f"{c.name}: the position is moved on by {d}, not by the step of the tokenizer: tokens are skipped or repeated", at.loc)
        used = [k[1] for k, x in r.fields.items() if k[0] == self_ and k[1] != p[2] and scalar(x) and
                implies([], lin(x) - lin(("attr", self_, k[1])) - Lin(1))]
    if not fulls:
        raise AnchorError(f"{c.qual}: no window of the buffer is returned")
    tail(ctx, c, fl, runs, self_, pos, buf, L, used)


def is_self_attr(a, self_):
    return isinstance(a, tuple) and len(a) == 3 and a[0] == "attr" and a[1] == self_ or \
        isinstance(a, tuple) and a[0] == "t" and isinstance(a[1], tuple) and a[1][0] == "attr" and a[1][1] == ("self",)


def is_advance(r, k, lo):
    return True


def slice_of(v):
    k = v[2] if isinstance(v, tuple) and v[0] == "item" else None
    if isinstance(k, Lin) and len(k.m) == 1 and not k.c:
        (k, _), = k.m
    if isinstance(k, tuple) and k[0] == "slice":
        lo, hi = k[1], k[2]
        lo = Lin(0) if lo == ("const", None) else lo
        if hi == ("const", None):
            hi = Lin(0, {("call", "len", None, (v[1],), ()): 1})
        if scalar(lo) and scalar(hi):
            return v[1], lin(lo), lin(hi)
    return None


def check_step(ctx, c, fl, name, size, at):
    """The step is the window size, or one less if windows overlap by the target token."""
    sets = [i for i in fl.g.of("setattr") if i.data == name]
    if not sets:
        raise AnchorError(f"{c.qual}: step of the windows is not set by the constructor")
    i = sets[0]
    for kind, a, path in segments(fl, [(fl.g.entry, None)], set()):
        if kind in ("return", "end"):
            r = Run(fl)
            for x, lab in path:
                r.do(x, lab)
            if infeasible(r.facts):
                continue
            v = r.fields.get((("t", ("self",)), name))
            if v is None:
                raise AnchorError(f"{i.loc}: step of the windows is not set on every path of the constructor")
            ov = None
            for cnd, lab, _ in r.conds:
                cc, l2 = cnd, lab
                while isinstance(cc, tuple) and cc[0] == "not":
                    cc, l2 = cc[1], not l2
                if "overlap" in str(cc):
                    ov = l2
            if not scalar(v) or len(lin(v).m) != 1:
                raise AnchorError(f"{i.loc}: step of the windows not recognised")
            cst = lin(v).c
            if ov is None:
                ctx.fail("window-step", f"{c.name}: windows advance by {lin(v)} whether or not they overlap: tokens are skipped or repeated", i.loc)
                continue
            ctx.count("steps")
            (a_, k_), = lin(v).m
            if k_ != 1 or "sequence_length" not in str(a_) or cst != (size.c - 1 if ov else size.c):
                ctx.fail("window-step", f"{c.name}: windows {'with' if ov else 'without'} overlap advance by {lin(v)}: tokens are skipped or repeated", i.loc)


def tail(ctx, c, fl, runs, self_, pos, buf, L, used):
    for kind, at, r in runs:
        name = buf[2] if buf[0] == "attr" else buf[1][2]
        n = lin(("call", "len", None, (r.fields.get((self_, name), buf),), ()))
        short = n - lin(pos)
        if kind == "raise":
            d = defining(fl, at.args[0]) if at.args and at.args[0] is not None else None
            if d is None or "StopIteration" not in show(fl.term(at.args[0])):
                continue
            ctx.count("ends")
            if not implies(r.facts, L - short - Lin(1)):
                ctx.fail("dropped-window", f"{c.name}: the end of the stream is reported although the buffer still holds a full window", at.loc)
            # the only sample must not be dropped if it is to be padded
            ok = False
            for cnd, lab, b in r.conds:
                if lab is False and ("at_least" in str(cnd)) or any(u in str(cnd) for u in used or []) and _excl(cnd, lab, used, self_):
                    ok = True
                if implies(r.facts, -short):
                    ok = True
            if not ok and any("at_least" in str(cnd) for _, _, rr in runs for cnd, _, _ in rr.conds):
                ctx.fail("dropped-sample", f"{c.name}: a source with less than one window is dropped although at least one sample is requested", at.loc)
        elif kind == "return":
            s = slice_of(r.v(at.args[0]))
            if s is not None and is_self_attr(s[0], self_):
                continue
            ctx.count("padded_windows")
            w = [u for u in (used or []) if (self_, u) in r.fields]
            if not w:
                ctx.fail("padded-forever", f"{c.name}: handing out the padded sample is not counted: it is handed out for ever", at.loc)
            elif not any(any(u in str(cnd) for u in w) for cnd, _, _ in r.conds):
                ctx.fail("padded-forever", f"{c.name}: a padded sample is handed out after others", at.loc)
            if s is None or s[1] != Lin(0) or s[2] != L:
                ctx.fail("window-size", f"{c.name}: a padded window does not have the length of a window", at.loc)


def _excl(cnd, lab, used, self_):
    """Condition that says samples were handed out before."""
    f = of_cmp(cnd, lab) if lab in (True, False) else []
    for x in f:
        if isinstance(x, tuple):
            return True
        for u in used:
            a = ("attr", self_, u)
            if implies([x, lin(a)], lin(a) - Lin(1)):
                return True
    return False
