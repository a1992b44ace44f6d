"""C05: exact-length reads under fragmentation, stalls and truncation."""
from ..core import *
from ..wire import *
from ..wire import NU
from .util import *
from .c04 import find

RAWREADS = ("read", "readexactly", "readline", "readuntil")


def run(ctx):
    p = ctx.proj
    ctx.rule("read_bytes: (a) a buffer is returned only behind a test that it holds the requested number of bytes; (b) every transport "
             "read asks for exactly the outstanding bytes; (c) every chunk is appended exactly once before the next read or return; "
             "(d) an empty chunk is tested before the next read and ends in ConnectionError, or None when nothing had been received; "
             "(e) every transport read is bounded by deadline-now with the deadline fixed before the loop from the timeout parameter; "
             "(f) all read_* helpers forward their timeout; (g) nothing else in the network package reads the transport directly.")
    f = find(p, "read_bytes")
    if f is None:
        raise AnchorError("read_bytes not found")

    def pol(fi, call, frame):
        return fi.module.name == NU

    fl = ctx.flow(f, pol, key="rb")
    g = fl.g
    ps = f.params()
    N = ("param", ps[0])
    RD = ("param", next((x for x in ps if x == "reader"), ps[1]))
    TO = ("param", next((x for x in ps if "timeout" in x), ps[-1]))
    reads = [i for i in g.live if i.op == "call" and i.data in RAWREADS and i.recv is not None and fl.term(i.recv) == RD]
    ctx.count("transport_reads", len(reads))
    if not reads:
        raise AnchorError("read_bytes performs no transport read")
    rids = {i.id for i in reads}

    def chunk_of(t):
        """t is the data of a transport read"""
        for x in alts(t):
            if x[0] == "call" and x[-1] in rids:
                return x[-1]
            if x[0] == "call" and callname(x) == "wait_for" and x[3]:
                c = chunk_of(x[3][0])
                if c:
                    return c
        return None

    # appends
    apps = {}
    for i in g.live:
        if i.op == "call" and i.data in ("extend", "append", "write") and i.recv is not None and i.args and chunk_of(fl.term(i.args[0])):
            apps[i.id] = fl.term(i.recv)
        elif i.op == "bin" and i.data == "Add" and chunk_of(fl.term(i.args[1])) and not chunk_of(fl.term(i.args[0])):
            apps[i.id] = fl.term(i.args[0])
    ctx.count("append_sites", len(apps))

    def is_len_buf(t):
        return t[0] == "call" and t[1] == "len" and not chunk_of(t[3][0]) and contains_buf(t[3][0])

    def contains_buf(t):
        # the accumulating buffer: bytearray()/bytes/list object or its accumulation
        for x in alts(t):
            if x[0] == "call" and x[1] in ("bytearray", "bytes", "list") or x[0] in ("list0",):
                return True
            if x[0] == "const" and isinstance(x[1], bytes):
                return True
            if x[0] == "bin" and x[1] == "Add":
                return contains_buf(x[2]) or chunk_of(x[3]) is not None
        return False

    def is_remaining(t, depth=0):
        """outstanding bytes: N - len(buffer), or a counter initialised with N and decreased by len(chunk)"""
        if depth > 4:
            return False
        ok = True
        for x in alts(t):
            if x == N and t[0] == "phi":
                continue
            if x == N and len(reads) and not in_loop(fl, reads[0]):
                continue
            if x[0] == "bin" and x[1] == "Sub" and x[2] == N and is_len_buf(x[3]):
                continue
            if x[0] == "bin" and x[1] == "Sub" and x[3][0] == "call" and x[3][1] == "len" and chunk_of(x[3][3][0]):
                continue
            if x[0] == "rec":
                continue
            if x[0] == "call" and x[1] == "min" and len(x[3]) == 2 and any(is_remaining(y, depth + 1) for y in x[3]) and any(
                    y[0] == "const" and isinstance(y[1], int) and y[1] > 0 for y in x[3]):
                continue
            if x[0] == "call" and x[1] == "max" and len(x[3]) == 2 and any(is_remaining(y, depth + 1) for y in x[3]) and any(
                    y == ("const", 0) for y in x[3]):
                continue
            ok = False
        return ok

    # (b)
    for i in reads:
        if i.data == "readexactly":
            t = fl.term(i.args[0]) if i.args else ("const", None)
            if t != N and not is_remaining(t):
                ctx.fail("read-size", f"transport read asks for {show(t)} bytes instead of the requested number", i.loc)
            continue
        t = fl.term(i.args[0]) if i.args else (fl.term(i.kw["n"]) if i.kw and "n" in i.kw else ("const", -1))
        if not is_remaining(t):
            ctx.fail("read-size", f"transport read asks for {show(t)} bytes instead of the outstanding number of bytes: data of the "
                     "next field could be consumed or the read could end early", i.loc)

    # (a)(c)(d)
    rets = {i.id for i in root_returns(fl)}

    def full_test(br, lab):
        d = cond(fl, br)
        neg = False
        while d is not None and d.op == "unary" and d.data == "Not":
            neg = not neg
            d = g.tempdef.get(d.args[0])
        if d is None:
            return None
        want = (not lab) if neg else lab
        if d.op == "cmp" and d.args and len(d.args) == 2:
            l, r = fl.term(d.args[0]), fl.term(d.args[1])
            op = d.data
            if l == N and is_len_buf(r):
                l, r, op = r, l, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            if is_len_buf(l) and r == N:
                return {"Lt": not want, "GtE": want, "Eq": want, "NotEq": not want}.get(op)
            if l == ("const", 0) and is_remaining(r):
                l, r, op = r, l, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op)
            if is_remaining(l) and r == ("const", 0):
                return {"Gt": not want, "LtE": want, "Eq": want, "NotEq": not want}.get(op)
            return None
        t = fl.term(d.dst) if d.dst is not None else None
        if t is not None and is_remaining(t):
            return not want
        return None

    def empty_test(br, lab):
        """True: chunk known empty; False: chunk known non-empty"""
        d = cond(fl, br)
        neg = False
        while d is not None and d.op == "unary" and d.data == "Not":
            neg = not neg
            d = g.tempdef.get(d.args[0])
        if d is None:
            return None
        want = (not lab) if neg else lab
        if d.op == "cmp" and len(d.args) == 2:
            l, r = fl.term(d.args[0]), fl.term(d.args[1])
            if l[0] == "call" and l[1] == "len" and chunk_of(l[3][0]) and r == ("const", 0):
                return {"Eq": want, "NotEq": not want, "Gt": not want, "LtE": want}.get(d.data)
            if chunk_of(l) and r == ("const", b""):
                return {"Eq": want, "NotEq": not want}.get(d.data)
            return None
        t = fl.term(d.dst) if d.dst is not None else None
        if t is not None and chunk_of(t):
            return not want
        if t is not None and t[0] == "call" and t[1] == "len" and chunk_of(t[3][0]):
            return not want
        return None

    def buf_empty_test(br, lab):
        d = cond(fl, br)
        neg = False
        while d is not None and d.op == "unary" and d.data == "Not":
            neg = not neg
            d = g.tempdef.get(d.args[0])
        if d is None:
            return None
        want = (not lab) if neg else lab
        if d.op == "cmp" and len(d.args) == 2:
            l, r = fl.term(d.args[0]), fl.term(d.args[1])
            if is_len_buf(l) and r == ("const", 0):
                return {"Eq": want, "NotEq": not want, "Gt": not want, "LtE": want}.get(d.data)
            if is_remaining(l) and r == N:
                return {"Eq": want, "NotEq": not want}.get(d.data)
            return None
        t = fl.term(d.dst) if d.dst is not None else None
        if t is not None and (contains_buf(t) and not chunk_of(t) or is_len_buf(t)):
            return not want
        return None

    # state: (full, pending appends, chunk: 'none'|'new'|'nonempty'|'empty', bufempty)
    def step(ins, st):
        full, pend, ch, be = st
        if ins.id in rids:
            if ins.data == "readexactly":
                return [(True, 0, "nonempty", False)]
            return [(False, 1, "new", False)]
        if ins.id in apps:
            return [(full, pend - 1 if pend > -1 else pend, ch, be)]
        return [st]

    def edge(ins, succ, lab, st):
        full, pend, ch, be = st
        if lab in ("exc", "exc-base") and no_raise(ins):
            return False
        if ins.op == "branch" and lab in (True, False):
            v = full_test(ins, lab)
            if v is not None:
                full = bool(v)
            v = empty_test(ins, lab)
            if v is not None and ch == "new":
                ch = "empty" if v else "nonempty"
                if v and pend == 1:
                    pend = 0
            v = buf_empty_test(ins, lab)
            if v is not None:
                be = bool(v)
        return (full, pend, ch, be)

    ex = Explorer(fl, step, edge=edge, follow_exc=True)
    vis = ex.run((False, 0, "none", False))
    ctx.count("paths_states", len(vis))
    for k in vis:
        ins = g.ins[k[0]]
        full, pend, ch, be = k[2]
        pth = lambda: trace(ex.path((ins, k[1], k[2])))
        if ins.id in rids and ch == "new":
            ctx.fail("eof-unchecked", f"a further transport read can happen without testing whether the previous one hit the end of the "
                     f"stream; path {pth()}", ins.loc)
        if ins.id in rids and ch == "empty":
            ctx.fail("read-after-eof", f"the transport is read again after it reported the end of the stream; path {pth()}", ins.loc)
        if ins.id in rids and pend == 1:
            ctx.fail("chunk-dropped", f"received data is discarded before the next transport read; path {pth()}", ins.loc)
        if pend == -1:
            ctx.fail("chunk-duplicated", f"received data is added to the buffer twice; path {pth()}", ins.loc)
        if ins.id in rets:
            t = fl.term(ins.args[0]) if ins.args else ("const", None)
            vs = alts(t)
            if any(v != ("const", None) for v in vs):
                if not full:
                    ctx.fail("partial-return", f"data can be returned without having received the requested number of bytes; path {pth()}", ins.loc)
                elif pend == 1:
                    ctx.fail("chunk-dropped", f"data is returned without the last received chunk; path {pth()}", ins.loc)
            if ("const", None) in vs and not full and not (ch == "empty" and be):
                ctx.fail("silent-truncation", f"'no data' is reported although the stream did not end before the first byte; path {pth()}", ins.loc)
    # what is returned is the buffer the chunks were appended to
    bufs = set(strip_ids(y) for x in apps.values() for y in [x] + alts(x))
    for r in root_returns(fl):
        for v in alts(fl.term(r.args[0]) if r.args else ("const", None)):
            if v == ("const", None):
                continue
            src = v[3][0] if v[0] == "call" and v[1] in ("bytes", "bytearray") and v[3] else (
                v[3][0] if v[0] == "call" and v[1] == ".join" and v[3] else v)
            if apps and not any(strip_ids(x) in bufs or x[0] == "bin" or x[0] == "call" and x[-1] in rids for x in alts(src)):
                ctx.fail("returns-other", f"returns {show(v)}, not the accumulated buffer", r.loc)
    # end of stream -> ConnectionError
    okraise = False
    for k in vis:
        ins = g.ins[k[0]]
        if k[2][2] == "empty" and ins.op == "raise":
            if ins.data in CONNERR:
                okraise = True
            else:
                ctx.fail("wrong-eof-error", f"a truncated transmission raises {ins.data}, not a connection error", ins.loc)
    if not okraise and any(i.data == "read" for i in reads):
        ctx.fail("wrong-eof-error", "a truncated transmission does not raise a connection error", f.module.rel)

    # (e)
    for i in reads:
        check_deadline(ctx, fl, i, TO)
    # (f)
    n = 0
    for h in p.funcs.values():
        if h.module.name != NU or h.cls is not None or not h.name.startswith("read_") or "timeout" not in h.params():
            continue
        fl2 = ctx.flow(h, lambda *a: False, key="shallow")
        for c in fl2.g.calls():
            if c.target is not None and hasattr(c.target, "params") and c.target.module.name == NU and "timeout" in c.target.params():
                n += 1
                ba = bound_args(c)
                t = fl2.term(ba.get("timeout")) if "timeout" in ba else ("default",)
                if t != ("param", "timeout"):
                    ctx.fail(f"timeout-dropped:{h.name}", f"{h.name} does not forward its timeout to {c.target.name} (passes {show(t)})", c.loc)
    ctx.count("timeout_forwards", n)
    # (g)
    m = 0
    for h in p.funcs.values():
        if not h.module.name.startswith("mixtera.network") or h is f or h.name in ("read_bytes",):
            continue
        if h.qual in g_funcs(fl):
            continue
        fl2 = ctx.flow(h, lambda *a: False, key="shallow")
        for c in fl2.g.calls(lambda i: i.data in RAWREADS and i.recv is not None):
            t = fl2.term(c.recv)
            ty = t[0] == "param" and t[1] == "reader" or is_conn_elem(t)
            m += 1
            if ty:
                ctx.fail(f"raw-read:{h.qual}", f"{h.qual} reads the transport directly instead of through read_bytes", c.loc)
    ctx.count("other_reads_examined", m)


CONNERR = {"ConnectionError", "ConnectionResetError", "ConnectionAbortedError", "BrokenPipeError", "IncompleteReadError",
           "asyncio.IncompleteReadError"}


def g_funcs(fl):
    return set(fl.g.funcs_seen) if isinstance(fl.g.funcs_seen, dict) else {x.qual for x in fl.g.funcs_seen}


def cond(fl, br):
    d = fl.g.tempdef.get(br.args[0])
    while d is not None and d.op in ("alias", "await"):
        d = fl.g.tempdef.get(d.args[0])
    return d


CLOCKS = ("time", "monotonic", "perf_counter")


def is_now(t):
    return t[0] == "call" and callname(t) in CLOCKS


def check_deadline(ctx, fl, read, TO):
    g = fl.g
    looped = in_loop(fl, read)
    for c in g.live:
        if c.op == "call" and (c.fn or "").split(".")[-1] == "wait_for" and c.args:
            if any(x[0] == "call" and x[-1] == read.id for x in alts(fl.term(c.args[0]))):
                t = fl.term(c.args[1]) if len(c.args) > 1 else fl.term((c.kw or {}).get("timeout"))
                ok = False
                for x in alts(t):
                    if x[0] == "call" and x[1] == "max" and len(x[3]) == 2:
                        x = next((y for y in x[3] if y[0] == "bin"), x)
                    if x == TO and not looped:
                        ok = True
                        continue
                    if x[0] == "bin" and x[1] == "Sub" and is_now(x[3]):
                        dl = x[2]
                        good = True
                        for d in alts(dl):
                            if not (d[0] == "bin" and d[1] == "Add" and ((is_now(d[2]) and d[3] == TO) or (is_now(d[3]) and d[2] == TO))):
                                good = False
                                break
                            nowt = d[2] if is_now(d[2]) else d[3]
                            src = g.ins[nowt[-1]]
                            if looped and in_loop(fl, src):
                                good = False
                            if strip_ids(nowt) != strip_ids(x[3]):
                                good = False
                        if good:
                            ok = True
                            continue
                    ok = False
                    break
                if not ok:
                    ctx.fail("deadline", f"the transport read is bounded by {show(t)}, not by the time left until a deadline fixed before "
                             "the first read from the requested timeout", c.loc)
                return
    # enclosing asyncio.timeout(...) block
    for w in g.of("with_enter"):
        t = fl.term(w.args[0])
        if t[0] == "call" and callname(t) in ("timeout", "timeout_at") and t[3]:
            a = t[3][0]
            good = (callname(t) == "timeout" and a == TO and not in_loop(fl, w)) or (
                callname(t) == "timeout_at" and all(d[0] == "bin" and d[1] == "Add" and TO in d[2:] for d in alts(a)))
            inside = read in reach([s for s, _ in w.succ], stop=lambda i: i.op == "with_exit" and i.args and fl.term(i.args[0]) == t)
            if inside:
                if not good:
                    ctx.fail("deadline", f"the read is bounded by {show(t)}, restarted for each fragment or unrelated to the timeout", w.loc)
                return
    # wait_for around a local coroutine containing the whole loop
    ctx.fail("deadline", "a transport read is not bounded by the requested timeout", read.loc)
