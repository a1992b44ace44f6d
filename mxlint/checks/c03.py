"""C03: every request is answered; failures stay confined to their connection; connections are always closed."""
import ast

from ..core import *
from ..flow import strip_ids
from ..wire import *
from .util import *


def run(ctx):
    p = ctx.proj
    ctx.rule("(a) for every request identifier the client can send, every server path that completes normally after receiving it has "
             "written an answer; (b) no exception raised while processing a request leaves the connection callback; (c) the writer is "
             "closed on every path out of the callback, including exceptional ones; (d) no server code terminates the process; "
             "(e) the callback is installed with start_server and the loop serves forever; (f) a lock acquired by hand is released on every path, also exceptional ones.")
    cs = client_sessions(ctx)
    ctx.count("request_types", len(cs))
    ctx.floor("request_types", 14)
    for task in sorted(cs):
        dfa, evs, fl, nfa, ex = server_session(ctx, task)
        ctx.count("handler_paths", len(ex.visited))
        ws = words(dfa)
        ctx.sample(f"{task}: answers {[fmtw(w) for w in ws][:2]}")
        if not ws:
            ctx.fail(f"never-completes:{task}", f"no normal completion of request {task} on the server", fl.g.entry.loc)
        for w in ws:
            if not any(l[0] == "s2c" for l in w):
                ctx.fail(f"unanswered:{task}", f"request {task} can complete on the server without any answer: [{fmtw(w)}]",
                         (evs[-1] if evs else fl.g.entry).loc)
                break
    ctx.part(explicit_locks, ctx)
    # (b) exceptions
    f = dispatch_func(ctx)
    fl = ctx.flow(f, server_policy(ctx), key="server")
    g = fl.g

    def edge(ins, succ, lab, st):
        if lab == "exc" and no_raise(ins):
            return False
        return st

    ex = Explorer(fl, lambda i, s: [s], edge=edge, follow_exc=True)
    vis = ex.run(0)
    ctx.count("exception_paths", len(vis))
    for k in vis:
        if k[0] == g.raise_exit.id:
            item = (g.raise_exit, k[1], k[2])
            pth = ex.path(item)
            src = next((x for x in reversed(pth[:-1]) if x.op not in ("reraise", "dispatch", "finally_exc", "join", "with_exc", "with_exit")), pth[0])
            ctx.fail("escaping-exception", f"an exception can leave the connection callback {f.name}: raised at {src!r}; path {trace(pth)}", src.loc)
            break
    # (c) writer closed
    wparam = writer_param(f)

    def closes(ins):
        return ins.op == "call" and ins.data == "close" and ins.recv is not None and fl.term(ins.recv) == ("param", wparam)

    ctx.count("close_sites", sum(1 for i in g.live if closes(i)))

    def edge2(ins, succ, lab, st):
        if lab in ("exc", "exc-base") and no_raise(ins):
            return False
        if closes(ins):
            return 1  # even if close itself raises there is nothing more to do
        return st

    ex = Explorer(fl, lambda i, s: [s], edge=edge2, follow_exc=True, follow_base=True)
    vis = ex.run(0)
    for k in vis:
        if k[0] in (g.exit.id, g.raise_exit.id) and k[2] == 0:
            item = (g.ins[k[0]], k[1], k[2])
            ctx.fail("connection-left-open", f"the connection callback can be left without closing the connection; path {trace(ex.path(item))}",
                     f.module.rel)
            break
    # (d) process termination
    n = 0
    for fi in p.funcs.values():
        if fi.module.name.startswith("mixtera.network.server") or fi.cls is not None and fi.cls.name == "LocalStub":
            fl2 = ctx.flow(fi, lambda *a: False, key="shallow")
            for c in fl2.g.calls():
                n += 1
                if c.fn in ("sys.exit", "os._exit", "os.abort", "exit", "quit", "os.kill") and fi.name != "main":
                    ctx.fail(f"terminates-process:{fi.qual}", f"{fi.qual} terminates the server process ({c.fn})", c.loc)
            for c in fl2.g.of("raise"):
                if c.data in ("SystemExit", "KeyboardInterrupt"):
                    ctx.fail(f"terminates-process:{fi.qual}", f"{fi.qual} raises {c.data}", c.loc)
    ctx.count("server_calls", n)
    # (e)
    cls = server_cls(ctx)
    serves = False
    for m in cls.methods.values():
        fl2 = ctx.flow(m, lambda *a: False, key="shallow")
        if fl2.g.calls(lambda i: i.data == "serve_forever"):
            serves = True
    if not serves:
        ctx.fail("not-serving", "the server never enters serve_forever", cls.module.rel)
    # self-test of the exception rule: the callback does contain exception edges
    if not any(l == "exc" for i in g.live for _, l in i.succ):
        raise AnchorError("no exception edges in the dispatcher graph")


def writer_param(f):
    ps = f.params()
    return ps[2] if len(ps) > 2 else ps[-1]


def explicit_locks(ctx):
    """A lock that server code acquires by hand is released on every path: a request that fails in between would block all later ones."""
    n = 0
    for c in [k for ks in ctx.proj.classes.values() for k in ks]:
        if "/server/" not in c.module.rel or "/tests/" in "/" + c.module.rel:
            continue
        for m in c.methods.values():
            if not any(isinstance(x, ast.Attribute) and x.attr == "acquire" for x in ast.walk(m.node)):
                continue
            fl = ctx.flow(m, None, c, key="locks")
            g = fl.g
            for a in g.calls():
                if last(a.fn) != "acquire" or a.recv is None:
                    continue
                n += 1
                lock = strip_ids(fl.term(a.recv))
                starts = [s for s, l in a.succ if l not in ("exc", "exc-base")]
                # the await of the acquisition: while it has not completed, the lock is not held
                while len(starts) == 1 and starts[0].op in ("await", "assign", "expr"):
                    starts = [s for s, l in starts[0].succ if l not in ("exc", "exc-base")]
                rel = lambda i: i.op == "call" and last(i.fn) == "release" and i.recv is not None and strip_ids(fl.term(i.recv)) == lock
                for st in starts:
                    bad, ex = must_pass(fl, st, lambda i: i is g.exit or i is g.raise_exit, rel)
                    if bad:
                        ctx.fail("lock-kept", f"{m.name} can end without releasing the lock it acquired: every later request that needs it waits forever", a.loc)
                        break
    ctx.count("explicit_acquisitions", n)
