"""Lowering of functions to an instruction-level control-flow graph with project-local callees inlined.

Every expression evaluation becomes an instruction in evaluation order; short-circuit operators, conditional
expressions, comprehensions, with/finally, generators driven by `for`, and context-manager generators are lowered to
explicit control flow, so that rules see what is executed on each path rather than how it is spelled.
"""
from __future__ import annotations

import ast
import builtins
import itertools

from .project import FuncInfo, dotted

AWAIT_WRAPPERS = {"asyncio.run", "asyncio.wait_for", "asyncio.shield", "run_async_until_complete", "run_until_complete"}
THREAD_CALLS = {"asyncio.to_thread": 0, "to_thread": 0}


class Ins:
    __slots__ = ("id", "op", "dst", "args", "data", "node", "frame", "succ", "pred", "kw", "recv", "target", "fn",
                 "inl", "star", "g")

    def __init__(self, g, op, node, frame):
        self.g = g
        self.id = len(g.ins)
        g.ins.append(self)
        self.op = op
        self.dst = None
        self.args = ()
        self.data = None
        self.node = node
        self.frame = frame
        self.succ = []
        self.pred = []
        self.kw = None
        self.recv = None
        self.target = None
        self.fn = None
        self.inl = None
        self.star = False

    @property
    def line(self):
        return getattr(self.node, "lineno", 0) if self.node is not None else 0

    @property
    def loc(self):
        f = self.frame.func
        return f"{f.module.rel}:{self.line} ({f.qual.split(f.module.name + '.')[-1]})"

    def __repr__(self):
        d = f" {self.data}" if self.data is not None else ""
        f = f" fn={self.fn}" if self.fn else ""
        return f"<{self.id}:{self.op}{d}{f} L{self.line}>"


class Frame:
    def __init__(self, fid, func, parent_call, static, selfcls):
        self.id, self.func, self.parent_call, self.static, self.selfcls = fid, func, parent_call, static, selfcls
        self.depth = 0
        self.argtypes = {}
        self.yield_cb = None
        self.caller = None
        self.root = None


class Graph:
    def __init__(self, proj, func):
        self.proj = proj
        self.func = func
        self.ins = []
        self.frames = []
        self.entry = None
        self.exit = None
        self.raise_exit = None
        self.tempdef = {}
        self.params = {}
        self.notes = []
        self.funcs_seen = {}
        self._reach = {}
        self._terms = {}
        self.stoplist = set()

    def of(self, *ops):
        return [i for i in self.live if i.op in ops]

    def calls(self, pred=None):
        return [i for i in self.live if i.op == "call" and (pred is None or pred(i))]


class _Dispatch:
    def __init__(self, ins, handlers, outer):
        self.ins, self.handlers, self.outer = ins, handlers, outer


def exc_class(name):
    n = name.split(".")[-1]
    if n == "CancelledError":
        import asyncio
        return asyncio.CancelledError
    if n == "IncompleteReadError":
        return EOFError
    c = getattr(builtins, n, None)
    return c if isinstance(c, type) and issubclass(c, BaseException) else None


class Builder:
    def __init__(self, proj, inline=None, max_depth=7, max_ins=60000, exc_on=("call", "await", "yield", "next", "item")):
        self.p = proj
        self.inline = inline or (lambda fi, call, frame: True)
        self.max_depth = max_depth
        self.max_ins = max_ins
        self.exc_on = set(exc_on)
        self.tmp = itertools.count(1)
        self.fid = itertools.count(1)

    # ------------------------------------------------------------------ graph building
    def build(self, func: FuncInfo, selfcls=None):
        g = self.g = Graph(self.p, func)
        self.cur = []
        self.ctx = []
        fr = self.frame = self._frame(func, None, None, selfcls or func.cls)
        fr.root = fr
        g.entry = self.emit("entry", func.node)
        g.exit = Ins(g, "exit", func.node, fr)
        g.raise_exit = Ins(g, "raise_exit", func.node, fr)
        self.landing = g.raise_exit
        self.dispatch = {}
        names = func.all_params()
        for p in names:
            t = self.temp()
            i = self.emit("param", func.node)
            i.data, i.dst = p, t
            g.tempdef[t] = i
            g.params[p] = i
            self.store((fr.id, p), t, func.node)
        self.body_of(func, fr, toplevel=True)
        self.link_to(g.exit)
        seen, stack = {g.entry.id}, [g.entry]
        while stack:
            for s, _ in stack.pop().succ:
                if s.id not in seen:
                    seen.add(s.id)
                    stack.append(s)
        g.live = [i for i in g.ins if i.id in seen]
        for i in g.live:
            for s, l in i.succ:
                s.pred.append((i, l))
        return g

    def _frame(self, func, call, static, selfcls):
        f = Frame(next(self.fid), func, call, static, selfcls)
        self.g.frames.append(f)
        self.g.funcs_seen[func.qual] = func
        return f

    def temp(self):
        return next(self.tmp)

    def emit(self, op, node, args=(), data=None, dst=False, raises=None):
        i = Ins(self.g, op, node, self.frame)
        i.args = tuple(args)
        i.data = data
        for p, l in self.cur:
            p.succ.append((i, l))
        dead = not self.cur and op != "entry"
        self.cur = [] if dead and op != "entry" else [(i, None)]
        if dead:
            # unreachable code: keep instruction detached
            self.cur = []
            i.frame = self.frame
        if dst:
            i.dst = self.temp()
            self.g.tempdef[i.dst] = i
        if raises is None:
            raises = op in self.exc_on
        if raises and not dead:
            i.succ.append((self.landing, "exc"))
        return i

    def link_to(self, tgt, cur=None):
        for p, l in (self.cur if cur is None else cur):
            p.succ.append((tgt, l))
        if cur is None:
            self.cur = []

    def label_ins(self, node=None, op="join"):
        i = Ins(self.g, op, node, self.frame)
        return i

    def store(self, key, t, node):
        i = self.emit("store", node, (t,), key)
        return i

    def load(self, key, node):
        return self.emit("load", node, (), key, dst=True).dst

    def const(self, v, node):
        return self.emit("const", node, (), v, dst=True).dst

    # ------------------------------------------------------------------ functions
    def body_of(self, func, fr, toplevel=False):
        """Lower body of func in current frame; on return self.cur holds all normal completions; $ret stored."""
        ret = []
        self.ctx.append(("func", fr, ret))
        saved_frame, self.frame = self.frame, fr
        node = func.node
        if isinstance(node, ast.Lambda):
            if isinstance(node.body, ast.Call) and getattr(fr, "lambda_awaited", False):
                t = self.call(node.body, awaited=True)
            else:
                t = self.expr(node.body)
            self.store((fr.id, "$ret"), t, node)
        else:
            self.stmts(node.body)
            if self.cur:
                t = self.const(None, node)
                self.store((fr.id, "$ret"), t, node)
                self.emit("return", node, (t,), "implicit")
        self.cur = self.cur + ret
        self.ctx.pop()
        self.frame = saved_frame

    def stmts(self, body):
        for s in body:
            if not self.cur:
                return
            if len(self.g.ins) > self.max_ins:
                raise RuntimeError("graph too large")
            self.stmt(s)

    # ------------------------------------------------------------------ unwinding
    def unwind(self, upto):
        """Run finally/with-exits from the top of ctx down to (not including) index upto."""
        saved = list(self.ctx)
        saved_landing, saved_frame = self.landing, self.frame
        i = len(self.ctx) - 1
        while i > upto:
            c = self.ctx[i]
            if c[0] == "finally":
                self.ctx = saved[:i]
                self.landing, self.frame = c[3], c[1]
                self.stmts(c[2])
            elif c[0] == "with":
                self.ctx = saved[:i]
                self.landing, self.frame = c[3], c[1]
                self.emit("with_exit", c[4], (c[2],))
            i -= 1
        self.ctx = saved
        self.landing, self.frame = saved_landing, saved_frame

    def find_ctx(self, kind, frame):
        for i in range(len(self.ctx) - 1, -1, -1):
            c = self.ctx[i]
            if c[0] == kind and c[1] is frame:
                return i
        return None

    # ------------------------------------------------------------------ statements
    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            self.emit("unsupported", s, (), type(s).__name__)
            return
        m(s)

    def s_Expr(self, s):
        self.expr(s.value)

    def s_Pass(self, s):
        self.emit("nop", s)

    def s_Import(self, s):
        for al in s.names:
            t = self.emit("global", s, (), ("ext", al.name if al.asname else al.name.split(".")[0]), dst=True).dst
            self.store((self.frame.id, (al.asname or al.name).split(".")[0]), t, s)

    def s_ImportFrom(self, s):
        m = self.frame.func.module
        for al in s.names:
            r = None
            base = s.module or ""
            if s.level == 0 and base in self.p.modules:
                r = self.p.resolve(self.p.modules[base], al.name)
            if r is None:
                r = ("ext", f"{base}.{al.name}")
            t = self.emit("global", s, (), r, dst=True).dst
            self.store((self.frame.id, al.asname or al.name), t, s)

    def s_Global(self, s):
        pass

    s_Nonlocal = s_Global

    def s_FunctionDef(self, s):
        fi = self.frame.func.nested.get(s.name)
        t = self.emit("func", s, (), (fi, self.frame), dst=True).dst
        self.store((self.frame.id, s.name), t, s)

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        t = self.emit("classdef", s, (), s.name, dst=True).dst
        self.store((self.frame.id, s.name), t, s)

    def s_Return(self, s):
        t = self.expr(s.value) if s.value is not None else self.const(None, s)
        if not self.cur:
            return
        fr = self.frame
        self.store((fr.id, "$ret"), t, s)
        self.emit("return", s, (t,))
        i = self.find_ctx("func", fr)
        self.unwind(i)
        self.ctx[i][2].extend(self.cur)
        self.cur = []

    def s_Raise(self, s):
        t = self.expr(s.exc) if s.exc is not None else None
        name = None
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = dotted(e)
        i = self.emit("raise", s, (t,) if t else (), name, raises=False)
        if self.cur:
            self._raise_to(i, name, self.landing)
        self.cur = []

    def _raise_to(self, i, name, landing):
        cls = exc_class(name) if name else None
        while True:
            d = self.dispatch.get(landing.id)
            if d is None or cls is None:
                # project exception classes: subclass of Exception
                i.succ.append((landing, "exc"))
                return
            done = False
            for types, h in d.handlers:
                if types is None:
                    i.succ.append((h, "exc"))
                    return
                known = [exc_class(t) for t in types]
                if any(k is not None and issubclass(cls, k) for k in known):
                    i.succ.append((h, "exc"))
                    return
                if any(k is not None and issubclass(k, cls) for k in known):
                    i.succ.append((h, "exc"))
            landing = d.outer

    def s_Assert(self, s):
        ok, bad = self.cond(s.test)
        self.cur = bad
        if bad:
            if s.msg is not None:
                self.expr(s.msg)
            i = self.emit("assertfail", s, raises=False)
            self._raise_to(i, "AssertionError", self.landing)
        self.cur = ok

    def s_Assign(self, s):
        t = self.expr(s.value)
        for tgt in s.targets:
            self.assign(tgt, t, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.expr(s.value), s)

    def s_AugAssign(self, s):
        tgt = s.target
        op = type(s.op).__name__
        if isinstance(tgt, ast.Name):
            l = self.expr(ast.copy_location(ast.Name(tgt.id, ast.Load()), tgt))
            r = self.expr(s.value)
            t = self.emit("bin", s, (l, r), op, dst=True).dst
            self.emit_aug(s, t)
            self.assign(tgt, t, s)
        elif isinstance(tgt, ast.Attribute):
            b = self.expr(tgt.value)
            l = self.emit("attr", tgt, (b,), tgt.attr, dst=True).dst
            r = self.expr(s.value)
            t = self.emit("bin", s, (l, r), op, dst=True).dst
            self.emit("setattr", s, (b, t), tgt.attr)
        elif isinstance(tgt, ast.Subscript):
            b = self.expr(tgt.value)
            k = self.index(tgt.slice)
            l = self.emit("item", tgt, (b, k), dst=True).dst
            r = self.expr(s.value)
            t = self.emit("bin", s, (l, r), op, dst=True).dst
            self.emit("setitem", s, (b, k, t))

    def emit_aug(self, s, t):
        pass

    def s_Delete(self, s):
        for tgt in s.targets:
            if isinstance(tgt, ast.Name):
                self.emit("delname", s, (), tgt.id)
            elif isinstance(tgt, ast.Attribute):
                b = self.expr(tgt.value)
                self.emit("delattr", s, (b,), tgt.attr)
            elif isinstance(tgt, ast.Subscript):
                b = self.expr(tgt.value)
                k = self.index(tgt.slice)
                self.emit("delitem", s, (b, k), raises=True)

    def s_If(self, s):
        yes, no = self.cond(s.test)
        self.cur = yes
        self.stmts(s.body)
        a = self.cur
        self.cur = no
        self.stmts(s.orelse)
        self.cur = a + self.cur

    def s_While(self, s):
        head = self.emit("loop", s)
        brk, cont = [], []
        self.ctx.append(("loop", self.frame, brk, cont))
        yes, no = self.cond(s.test)
        self.cur = yes
        if yes:
            self.emit("body", s)
        self.stmts(s.body)
        self.ctx.pop()
        self.cur = self.cur + cont
        self.link_to(head)
        self.cur = no
        self.stmts(s.orelse)
        self.cur = self.cur + brk

    def s_Break(self, s):
        i = self.find_ctx("loop", self.frame)
        self.unwind(i)
        self.ctx[i][2].extend(self.cur)
        self.cur = []

    def s_Continue(self, s):
        i = self.find_ctx("loop", self.frame)
        self.unwind(i)
        self.ctx[i][3].extend(self.cur)
        self.cur = []

    def s_For(self, s, is_async=False):
        gen = self._gen_call(s.iter)
        if gen is not None:
            self._for_generator(s, gen)
            return
        it = self.expr(s.iter)
        self._loop(it, s.target, s, lambda: self.stmts(s.body), s.orelse)

    def s_AsyncFor(self, s):
        self.s_For(s, True)

    def _loop(self, it, target, s, body, orelse=()):
        iti = self.emit("iter", s, (it,), dst=True).dst
        head = self.emit("next", s, (iti,), dst=True)
        elem = head.dst
        brk, cont = [], []
        self.ctx.append(("loop", self.frame, brk, cont))
        # 'next' has labelled successors
        base = [(p, l) for p, l in self.cur]
        self.cur = [(head, "next")] if base else []
        if self.cur:
            self.assign(target, elem, s)
        body()
        self.ctx.pop()
        self.cur = self.cur + cont
        self.link_to(head)
        self.cur = [(head, "stop")] if base else []
        if orelse:
            self.stmts(orelse)
        self.cur = self.cur + brk

    def _gen_call(self, e):
        """If e is a call to an inlinable project generator function return (call, finfo, recvcls, kind)."""
        if not isinstance(e, ast.Call):
            return None
        r = self.resolve(e)
        if r and r[0] == "func" and r[1].is_gen and not r[1].is_abstract and self._can_inline(r[1], e, r):
            return (e, r[1], r[2], r[3])
        return None

    def _for_generator(self, s, gen):
        call, fi, rc, kind = gen
        brk = []
        outer = self.frame
        outer_landing = self.landing
        self.ctx.append(("loop", outer, brk, None))
        idx = len(self.ctx) - 1

        def cb(val, node):
            # body executes at the yield
            gf, self.frame = self.frame, outer
            gl, self.landing = self.landing, outer_landing
            cont = []
            self.ctx.append(("genbody", outer, cont))
            # a continue in the body goes to after the yield: emulate with a loop ctx of its own
            self.ctx.append(("loop", outer, _BreakProxy(self, idx, brk), cont))
            self.assign(s.target, val, s)
            self.stmts(s.body)
            self.ctx.pop()
            self.ctx.pop()
            self.cur = self.cur + cont
            self.frame = gf
            self.landing = gl
            return self.const(None, node)

        self.inline_call(call, fi, rc, kind, yield_cb=cb)
        self.ctx.pop()
        if s.orelse:
            self.stmts(s.orelse)
        self.cur = self.cur + brk

    def s_Try(self, s):
        outer_landing = self.landing
        fin_land = None
        if s.finalbody:
            fin_land = self.label_ins(s, "finally_exc")
            self.ctx.append(("finally", self.frame, s.finalbody, outer_landing))
        after = fin_land or outer_landing
        h_entries = []
        if s.handlers:
            d = self.label_ins(s, "dispatch")
            for h in s.handlers:
                types = None
                if h.type is not None:
                    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                    types = [dotted(x) or "?" for x in ts]
                hi = Ins(self.g, "handler", h, self.frame)
                hi.data = types
                h_entries.append((types, hi, h))
                d.succ.append((hi, "exc"))
            catch_all = any(t is None or any(x.split(".")[-1] == "BaseException" for x in t) for t, _, _ in h_entries)
            if not catch_all:
                only_base = any(any(x.split(".")[-1] == "Exception" for x in t) for t, _, _ in h_entries)
                d.succ.append((after, "exc-base" if only_base else "exc"))
            self.dispatch[d.id] = _Dispatch(d, [(t, hi) for t, hi, _ in h_entries], after)
            self.landing = d
        else:
            self.landing = after
        self.stmts(s.body)
        self.landing = after
        self.stmts(s.orelse)
        out = self.cur
        for types, hi, h in h_entries:
            self.cur = [(hi, None)]
            if h.name:
                t = self.temp()
                hi.dst = t
                self.g.tempdef[t] = hi
                self.store((self.frame.id, h.name), t, h)
            self.stmts(h.body)
            out = out + self.cur
        self.landing = outer_landing
        if s.finalbody:
            self.ctx.pop()
            self.cur = out
            self.stmts(s.finalbody)
            out = self.cur
            self.cur = [(fin_land, None)]
            self.stmts(s.finalbody)
            if self.cur:
                i = self.emit("reraise", s, raises=False)
                i.succ.append((outer_landing, "exc"))
            self.cur = []
        self.cur = out

    s_TryStar = s_Try

    def s_With(self, s):
        self._with(s, list(s.items))

    s_AsyncWith = s_With

    def _with(self, s, items):
        if not items:
            self.stmts(s.body)
            return
        it, rest = items[0], items[1:]
        e = it.context_expr
        if isinstance(e, ast.Call):
            r = self.resolve(e)
            if r and r[0] == "func" and r[1].is_contextmanager and self._can_inline(r[1], e, r):
                outer = self.frame

                def cb(val, node):
                    gf, self.frame = self.frame, outer
                    if it.optional_vars is not None:
                        self.assign(it.optional_vars, val, s)
                    self._with(s, rest)
                    self.frame = gf
                    return self.const(None, node)

                self.inline_call(e, r[1], r[2], r[3], yield_cb=cb)
                return
        c = self.expr(e)
        ent = self.emit("with_enter", s, (c,), dst=True)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, ent.dst, s)
        outer_landing = self.landing
        land = self.label_ins(s, "with_exc")
        self.ctx.append(("with", self.frame, c, outer_landing, s))
        self.landing = land
        self._with(s, rest)
        self.landing = outer_landing
        self.ctx.pop()
        if self.cur:
            self.emit("with_exit", s, (c,))
        out = self.cur
        self.cur = [(land, None)]
        self.emit("with_exit", s, (c,))
        # contextlib.suppress(...) swallows
        if isinstance(e, ast.Call) and (dotted(e.func) or "").split(".")[-1] == "suppress":
            out = out + self.cur
        i = self.emit("reraise", s, raises=False)
        i.succ.append((outer_landing, "exc"))
        self.cur = out

    def s_Match(self, s):
        subj = self.expr(s.subject)
        key = (self.frame.id, f"$match{len(self.g.ins)}")
        self.store(key, subj, s)
        out = []
        for case in s.cases:
            if not self.cur:
                break
            yes, no = self._pattern(case.pattern, key, s)
            self.cur = yes
            if case.guard is not None and self.cur:
                y2, n2 = self.cond(case.guard)
                self.cur = y2
                no = no + n2
            self.stmts(case.body)
            out = out + self.cur
            self.cur = no
        self.cur = out + self.cur

    def _pattern(self, p, key, s):
        def test(mk):
            l = self.load(key, p)
            t = mk(l)
            b = self.emit("branch", p, (t,))
            if not self.cur:
                return [], []
            return [(b, True)], [(b, False)]

        if isinstance(p, ast.MatchValue):
            return test(lambda l: self.emit("cmp", p, (l, self.expr(p.value)), "Eq", dst=True).dst)
        if isinstance(p, ast.MatchSingleton):
            return test(lambda l: self.emit("cmp", p, (l, self.const(p.value, p)), "Is", dst=True).dst)
        if isinstance(p, ast.MatchOr):
            yes, no = [], None
            for q in p.patterns:
                y, n = self._pattern(q, key, s)
                yes = yes + y
                self.cur = n
                no = n
            return yes, no or []
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    self.store((self.frame.id, p.name), self.load(key, p), p)
                c = self.cur
                self.cur = []
                return c, []
            y, n = self._pattern(p.pattern, key, s)
            self.cur = y
            if p.name and y:
                self.store((self.frame.id, p.name), self.load(key, p), p)
                y = self.cur
            return y, n
        return test(lambda l: self.emit("matchtest", p, (l,), ast.dump(p), dst=True).dst)

    # ------------------------------------------------------------------ assignment
    def assign(self, tgt, t, node):
        if isinstance(tgt, ast.Name):
            self.store(self.var_key(tgt.id), t, node)
        elif isinstance(tgt, ast.Attribute):
            b = self.expr(tgt.value)
            self.emit("setattr", node, (b, t), tgt.attr)
        elif isinstance(tgt, ast.Subscript):
            b = self.expr(tgt.value)
            k = self.index(tgt.slice)
            self.emit("setitem", node, (b, k, t))
        elif isinstance(tgt, (ast.Tuple, ast.List)):
            n = len(tgt.elts)
            star = next((i for i, e in enumerate(tgt.elts) if isinstance(e, ast.Starred)), None)
            for i, e in enumerate(tgt.elts):
                if isinstance(e, ast.Starred):
                    x = self.emit("unpack", node, (t,), ("rest", i, n - i - 1), dst=True).dst
                    self.assign(e.value, x, node)
                else:
                    idx = i if star is None or i < star else i - n
                    x = self.emit("unpack", node, (t,), idx, dst=True).dst
                    self.assign(e, x, node)
        elif isinstance(tgt, ast.Starred):
            self.assign(tgt.value, t, node)

    def var_key(self, name):
        f = self.frame
        while f is not None:
            if isinstance(f, CompFrame):
                if name in f.names:
                    return (f.id, name)
                f = f.static
                continue
            if name in f.func.local_names():
                return (f.id, name)
            f = f.static
        return (self._real(self.frame).id, name)

    def _real(self, f):
        while isinstance(f, CompFrame):
            f = f.static
        return f

    # ------------------------------------------------------------------ conditions
    def cond(self, e):
        """Lower e as a condition; returns (true-cur, false-cur)."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.cond(e.operand)
            return b, a
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            acc = []
            for k, v in enumerate(e.values):
                y, n = self.cond(v)
                if isand:
                    acc = acc + n
                    self.cur = y
                else:
                    acc = acc + y
                    self.cur = n
            last = self.cur
            self.cur = []
            return (last, acc) if isand else (acc, last)
        if isinstance(e, ast.Constant):
            c = self.cur
            self.cur = []
            return (c, []) if e.value else ([], c)
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            acc = []
            left = e.left
            lt = self.expr(left)
            for op, right in zip(e.ops, e.comparators):
                rt = self.expr(right)
                t = self.emit("cmp", e, (lt, rt), type(op).__name__, dst=True).dst
                b = self.emit("branch", e, (t,))
                if not self.cur:
                    return [], []
                acc = acc + [(b, False)]
                self.cur = [(b, True)]
                lt = rt
            y = self.cur
            self.cur = []
            return y, acc
        t = self.expr(e)
        if not self.cur:
            return [], []
        b = self.emit("branch", e, (t,))
        self.cur = []
        return [(b, True)], [(b, False)]

    # ------------------------------------------------------------------ expressions
    def expr(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return self.emit("opaque", e, (), type(e).__name__, dst=True).dst
        return m(e)

    def e_Constant(self, e):
        return self.const(e.value, e)

    def e_Name(self, e):
        f = self.frame
        while f is not None:
            if isinstance(f, CompFrame):
                if e.id in f.names:
                    return self.load((f.id, e.id), e)
                f = f.static
                continue
            if e.id in f.func.local_names():
                return self.load((f.id, e.id), e)
            f = f.static
        m = self._real(self.frame).func.module
        r = self.p.resolve(m, e.id)
        if r is None:
            r = ("builtin", e.id)
        return self.emit("global", e, (), r, dst=True).dst

    def e_Attribute(self, e):
        d = dotted(e)
        fr = self._real(self.frame)
        if d and not self._is_local(d.split(".")[0]):
            r = self.p.resolve_dotted(fr.func.module, d)
            if r is not None and r[0] in ("func", "class", "const", "ext", "module"):
                return self.emit("global", e, (), r, dst=True).dst
            if r is not None and r[0] == "classattr":
                c = r[1]
                if self.p.is_enum(c) and r[2] in c.class_attrs:
                    return self.emit("enum", e, (), (c.name, r[2]), dst=True).dst
                v = c.class_attrs.get(r[2])
                if v is None:
                    for k in self.p.mro(c):
                        v = v or k.class_attrs.get(r[2])
                if v is not None and isinstance(v[0], ast.Constant):
                    return self.const(v[0].value, e)
        bt = self.type_of(e.value)
        if bt and bt[0] == "inst":
            p = self.p.find_method(bt[1], e.attr)
            if p is not None and p.is_property and not p.is_abstract:
                fake = ast.copy_location(ast.Call(func=e, args=[], keywords=[]), e)
                if self._can_inline(p, fake, ("func", p, bt[1], "bound")):
                    return self.inline_call(fake, p, bt[1], "bound")
        b = self.expr(e.value)
        return self.emit("attr", e, (b,), e.attr, dst=True).dst

    def _is_local(self, name):
        f = self.frame
        while f is not None:
            if isinstance(f, CompFrame):
                if name in f.names:
                    return True
            elif name in f.func.local_names():
                return True
            f = f.static
        return False

    def index(self, s):
        return self.expr(s)

    def e_Slice(self, e):
        parts = [self.expr(x) if x is not None else self.const(None, e) for x in (e.lower, e.upper, e.step)]
        return self.emit("slice", e, parts, dst=True).dst

    def e_Subscript(self, e):
        b = self.expr(e.value)
        k = self.index(e.slice)
        return self.emit("item", e, (b, k), dst=True).dst

    def e_BinOp(self, e):
        l = self.expr(e.left)
        r = self.expr(e.right)
        return self.emit("bin", e, (l, r), type(e.op).__name__, dst=True).dst

    def e_UnaryOp(self, e):
        if isinstance(e.op, ast.USub) and isinstance(e.operand, ast.Constant) and isinstance(e.operand.value, (int, float)):
            return self.const(-e.operand.value, e)
        v = self.expr(e.operand)
        return self.emit("unary", e, (v,), type(e.op).__name__, dst=True).dst

    def e_Compare(self, e):
        if len(e.ops) == 1:
            l = self.expr(e.left)
            r = self.expr(e.comparators[0])
            return self.emit("cmp", e, (l, r), type(e.ops[0]).__name__, dst=True).dst
        return self._cond_value(e)

    def _cond_value(self, e):
        key = (self.frame.id, f"$c{len(self.g.ins)}")
        y, n = self.cond(e)
        self.cur = y
        out = []
        if y:
            self.store(key, self.const(True, e), e)
            out += self.cur
        self.cur = n
        if n:
            self.store(key, self.const(False, e), e)
            out += self.cur
        self.cur = out
        return self.load(key, e)

    def e_BoolOp(self, e):
        key = (self.frame.id, f"$b{len(self.g.ins)}")
        isand = isinstance(e.op, ast.And)
        out = []
        for i, v in enumerate(e.values):
            t = self.expr(v)
            self.store(key, t, e)
            if i == len(e.values) - 1:
                out += self.cur
                break
            l = self.load(key, e)
            b = self.emit("branch", e, (l,))
            if not self.cur:
                break
            out = out + [(b, not isand)]
            self.cur = [(b, isand)]
        self.cur = out
        return self.load(key, e)

    def e_IfExp(self, e):
        key = (self.frame.id, f"$i{len(self.g.ins)}")
        y, n = self.cond(e.test)
        out = []
        self.cur = y
        if y:
            self.store(key, self.expr(e.body), e)
            out += self.cur
        self.cur = n
        if n:
            self.store(key, self.expr(e.orelse), e)
            out += self.cur
        self.cur = out
        return self.load(key, e)

    def e_NamedExpr(self, e):
        t = self.expr(e.value)
        self.assign(e.target, t, e)
        return t

    def e_Starred(self, e):
        t = self.expr(e.value)
        return self.emit("star", e, (t,), dst=True).dst

    def e_Tuple(self, e):
        ts = [self.expr(x) for x in e.elts]
        return self.emit("tuple", e, ts, dst=True).dst

    def e_List(self, e):
        ts = [self.expr(x) for x in e.elts]
        return self.emit("list", e, ts, dst=True).dst

    def e_Set(self, e):
        ts = [self.expr(x) for x in e.elts]
        return self.emit("set", e, ts, dst=True).dst

    def e_Dict(self, e):
        ts = []
        for k, v in zip(e.keys, e.values):
            ts.append(self.expr(k) if k is not None else None)
            ts.append(self.expr(v))
        i = self.emit("dict", e, [t for t in ts], dst=True)
        return i.dst

    def e_JoinedStr(self, e):
        ts = []
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                t = self.expr(v.value)
                if v.format_spec is not None or v.conversion not in (-1, 115):
                    spec = ast.unparse(v.format_spec) if v.format_spec is not None else ""
                    t = self.emit("fmt", e, (t,), ("!r" if v.conversion == 114 else "!a" if v.conversion == 97 else "") + spec, dst=True).dst
                ts.append(t)
            else:
                ts.append(self.expr(v))
        return self.emit("fstr", e, ts, dst=True).dst

    def e_FormattedValue(self, e):
        return self.expr(e.value)

    def e_Lambda(self, e):
        fr = self._real(self.frame)
        fi = FuncInfo(f"<lambda@{e.lineno}>", f"{fr.func.qual}.<lambda@{e.lineno}>", e, fr.func.module, fr.func.cls, fr.func)
        return self.emit("func", e, (), (fi, self.frame), dst=True).dst

    def _comp(self, e, kind, elts):
        res = self.emit("newcomp", e, (), kind, dst=True)
        names = set()
        for c in e.generators:
            for n in ast.walk(c.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        first = self.expr(e.generators[0].iter)
        cf = CompFrame(next(self.fid), self.frame, names)
        saved, self.frame = self.frame, cf

        def level(k):
            if k == len(e.generators):
                ts = [self.expr(x) for x in elts]
                self.emit("elem", e, [res.dst] + ts, kind)
                return
            c = e.generators[k]
            it = first if k == 0 else self.expr(c.iter)

            def body():
                skips = []
                for cnd in c.ifs:
                    y, n = self.cond(cnd)
                    skips += n
                    self.cur = y
                level(k + 1)
                self.cur = self.cur + skips

            self._loop(it, c.target, e, body)

        level(0)
        self.frame = saved
        return res.dst

    def e_ListComp(self, e):
        return self._comp(e, "list", [e.elt])

    def e_SetComp(self, e):
        return self._comp(e, "set", [e.elt])

    def e_GeneratorExp(self, e):
        return self._comp(e, "gen", [e.elt])

    def e_DictComp(self, e):
        return self._comp(e, "dict", [e.key, e.value])

    def e_Await(self, e):
        v = e.value
        if isinstance(v, ast.Call):
            t = self.call(v, awaited=True)
        else:
            t = self.expr(v)
        return self.emit("await", e, (t,), dst=True).dst

    def e_Yield(self, e):
        t = self.expr(e.value) if e.value is not None else self.const(None, e)
        fr = self._real(self.frame)
        if fr.yield_cb is not None:
            if not self.cur:
                return t
            return fr.yield_cb(t, e)
        return self.emit("yield", e, (t,), dst=True).dst

    def e_YieldFrom(self, e):
        gen = self._gen_call(e.value)
        fr = self._real(self.frame)
        if gen is not None:
            call, fi, rc, kind = gen
            outer = self.frame

            def cb(val, node):
                gf, self.frame = self.frame, outer
                if fr.yield_cb is not None:
                    r = fr.yield_cb(val, node)
                else:
                    r = self.emit("yield", node, (val,), dst=True).dst
                self.frame = gf
                return r

            return self.inline_call(call, fi, rc, kind, yield_cb=cb)
        t = self.expr(e.value)
        iti = self.emit("iter", e, (t,), dst=True).dst
        head = self.emit("next", e, (iti,), dst=True)
        if not self.cur:
            return head.dst
        self.cur = [(head, "next")]
        if fr.yield_cb is not None:
            fr.yield_cb(head.dst, e)
        else:
            self.emit("yield", e, (head.dst,), dst=True)
        self.link_to(head)
        self.cur = [(head, "stop")]
        return self.const(None, e)

    # ------------------------------------------------------------------ calls
    def type_of(self, e):
        fr = self._real(self.frame)
        t = self.p.expr_type(e, fr.func, fr.func.module, fr.selfcls)
        if t is None and isinstance(e, ast.Name) and e.id in fr.argtypes:
            return fr.argtypes[e.id]
        return t

    def resolve(self, call):
        fr = self._real(self.frame)
        r = self.p.resolve_callee(call, fr.func, fr.func.module, fr.selfcls)
        if r is None and isinstance(call.func, ast.Attribute):
            t = self.type_of(call.func.value)
            if t and t[0] in ("inst", "type"):
                m = self.p.find_method(t[1], call.func.attr)
                if m:
                    return ("func", m, t[1], "bound")
        return r

    def _can_inline(self, fi, call, r):
        fr = self.frame
        if isinstance(fi.node, ast.Lambda):
            return True
        if fi.is_abstract:
            return False
        depth, f = 0, self._real(fr)
        while f is not None:
            if f.func.qual == fi.qual:
                return False
            f = f.caller
            depth += 1
        if depth > self.max_depth:
            return False
        kind = r[3] if len(r) > 3 else "func"
        if kind == "bound" and fi.cls is not None and r[2] is not None:
            # dynamic dispatch: receiver class may be subclassed with an override
            for s in self.p.subclasses(r[2]):
                if fi.name in s.methods:
                    return False
        return bool(self.inline(fi, call, fr))

    def _args(self, call):
        pos, kw, star = [], {}, False
        for a in call.args:
            if isinstance(a, ast.Starred):
                star = True
            pos.append(self.expr(a))
        for k in call.keywords:
            t = self.expr(k.value)
            if k.arg is None:
                kw["**"] = t
            else:
                kw[k.arg] = t
        return pos, kw, star

    def e_Call(self, e):
        return self.call(e)

    def call(self, e, awaited=False):
        d = dotted(e.func)
        # wrappers that run a coroutine to completion: inline the coroutine body
        if d and d.split(".")[-1] in {w.split(".")[-1] for w in AWAIT_WRAPPERS} and e.args:
            inner = e.args[0]
            if isinstance(inner, ast.Call):
                r = self.resolve(inner)
                if r and r[0] == "func" and r[1].is_async:
                    t = self.call(inner, awaited=True)
                    i = self.emit("call", e, (t,), dst=True)
                    i.fn = d
                    i.args = (t,)
                    i.kw = {k.arg: self.expr(k.value) for k in e.keywords if k.arg}
                    if len(e.args) > 1:
                        i.kw["timeout"] = self.expr(e.args[1])
                    return self._alias(t, e)
        if d and (d in THREAD_CALLS or d.endswith(".run_in_executor")) and awaited:
            k = 1 if d.endswith("run_in_executor") else 0
            if len(e.args) > k:
                fake = ast.copy_location(ast.Call(func=e.args[k], args=e.args[k + 1:], keywords=e.keywords), e)
                return self.call(fake, awaited=False)
        r = self.resolve(e)
        if r is None:
            t = self._indirect(e, awaited)
            if t is not None:
                return t
        if r and r[0] == "func":
            fi = r[1]
            ok = (not fi.is_async or awaited) and not fi.is_gen and not fi.is_contextmanager
            if ok and self._can_inline(fi, e, r):
                return self.inline_call(e, fi, r[2], r[3])
        # lambdas / local function values called through a name are resolved by rules if needed
        recv = None
        if isinstance(e.func, ast.Attribute) and not (r and r[0] in ("ext", "class") and not self._is_local(
                (d or "?").split(".")[0]) and d):
            if isinstance(e.func.value, ast.Call) and dotted(e.func.value.func) == "super":
                recv = None
            else:
                recv = self.expr(e.func.value)
        elif not isinstance(e.func, (ast.Name, ast.Attribute)):
            recv = self.expr(e.func)
        elif isinstance(e.func, ast.Name) and self._is_local(e.func.id) and not (r and r[0] == "func"):
            recv = self.expr(e.func)
        pos, kw, star = self._args(e)
        i = self.emit("call", e, pos, dst=True)
        i.kw, i.star, i.recv = kw, star, recv
        if r and r[0] == "func":
            i.target = r[1]
            c = r[2] or r[1].cls
            i.fn = (f"{c.name}." if c is not None and r[1].parent is None else "") + r[1].name
        elif r and r[0] == "class":
            i.target = r[1]
            i.fn = r[1].name
        elif r and r[0] == "ext":
            i.fn = r[1]
        else:
            i.fn = "." + e.func.attr if isinstance(e.func, ast.Attribute) else (d or "?")
        i.data = e.func.attr if isinstance(e.func, ast.Attribute) else (e.func.id if isinstance(e.func, ast.Name) else "?")
        if awaited:
            i.inl = "awaited"
        return i.dst

    # -- calls through values: local callables, callback parameters, dispatch tables
    def _callable(self, a, fr, depth=0):
        """Resolve expression a (in real frame fr) to (FuncInfo, static frame|None, receiver ast|None, receiver frame)."""
        if depth > 6 or a is None:
            return None
        fr = self._real(fr)
        if isinstance(a, ast.Lambda):
            fi = FuncInfo(f"<lambda@{a.lineno}:{a.col_offset}>", f"{fr.func.qual}.<lambda@{a.lineno}:{a.col_offset}>", a,
                          fr.func.module, None, fr.func)
            return (fi, fr, None, fr)
        if isinstance(a, ast.Name):
            f = fr
            while f is not None:
                f = self._real(f)
                if a.id in f.func.nested:
                    return (f.func.nested[a.id], f, None, f)
                if a.id in f.func.local_names():
                    if a.id in getattr(f, "argast", {}):
                        b, bf = f.argast[a.id]
                        return self._callable(b, bf, depth + 1)
                    vs = [v for v in f.func.assigns().get(a.id, []) if not isinstance(v, tuple)]
                    if len(vs) == 1 and a.id not in f.func.all_params():
                        return self._callable(vs[0], f, depth + 1)
                    return None
                f = f.static
            r = self.p.resolve(fr.func.module, a.id)
            if r and r[0] == "func":
                return (r[1], None, None, fr)
            return None
        if isinstance(a, ast.Attribute):
            t = self.p.expr_type(a.value, fr.func, fr.func.module, fr.selfcls)
            if t and t[0] == "inst":
                m = self.p.find_method(t[1], a.attr)
                if m is not None and not m.is_property:
                    return (m, None, a.value, fr)
        if isinstance(a, ast.Call) and (dotted(a.func) or "").split(".")[-1] == "partial" and a.args and not a.keywords:
            return None
        return None

    def _table(self, a, fr, depth=0):
        """Dict literal AST denoted by expression a, if it is a never-rebound table."""
        fr = self._real(fr)
        if depth > 4:
            return None
        if isinstance(a, ast.Dict):
            return a
        if isinstance(a, ast.Name):
            if a.id in fr.func.local_names():
                vs = fr.func.assigns().get(a.id, [])
                vs = [v for v in vs if not isinstance(v, tuple)]
                return self._table(vs[0], fr, depth + 1) if len(vs) == 1 else None
            r = self.p.resolve(fr.func.module, a.id)
            return r[1] if r and r[0] == "const" and isinstance(r[1], ast.Dict) else None
        if isinstance(a, ast.Attribute) and isinstance(a.value, ast.Name) and fr.selfcls is not None:
            cands = []
            for k in self.p.mro(fr.selfcls):
                if a.attr in k.class_attrs and isinstance(k.class_attrs[a.attr][0], ast.Dict):
                    cands.append(k.class_attrs[a.attr][0])
                for m in k.methods.values():
                    for n in ast.walk(m.node):
                        v = None
                        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and x.attr == a.attr for x in n.targets):
                            v = n.value
                        elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == a.attr:
                            v = n.value
                        if isinstance(v, ast.Dict):
                            cands.append(v)
            return cands[0] if len(cands) == 1 and cands[0].keys else None
        return None

    def _indirect(self, e, awaited):
        fr = self._real(self.frame)
        tgt = e.func
        if isinstance(tgt, ast.Name):
            vs = [v for v in fr.func.assigns().get(tgt.id, []) if not isinstance(v, tuple)] \
                if tgt.id in fr.func.local_names() else []
            if len(vs) == 1 and tgt.id not in fr.func.all_params():
                tgt = vs[0]
        key, tab = None, None
        if isinstance(tgt, ast.Subscript):
            tab, key = self._table(tgt.value, fr), tgt.slice
        elif isinstance(tgt, ast.Call) and isinstance(tgt.func, ast.Attribute) and tgt.func.attr == "get" and tgt.args:
            tab, key = self._table(tgt.func.value, fr), tgt.args[0]
        if tab is not None and len(tab.keys) >= 2 and all(k is not None for k in tab.keys):
            res = (self.frame.id, f"$tab{len(self.g.ins)}")
            kt = self.expr(key)
            kk = (self.frame.id, f"$tabk{len(self.g.ins)}")
            self.store(kk, kt, e)
            out = []
            for k, v in zip(tab.keys, tab.values):
                if not self.cur:
                    break
                c = self.emit("cmp", e, (self.load(kk, e), self.expr(k)), "Eq", dst=True).dst
                b = self.emit("branch", e, (c,))
                self.cur = [(b, True)]
                fake = ast.copy_location(ast.Call(func=v, args=e.args, keywords=e.keywords), e)
                self.store(res, self.call(fake, awaited), e)
                out += self.cur
                self.cur = [(b, False)]
            # no entry matches: KeyError / None is not callable
            i = self.emit("raise", e, (), "KeyError", raises=False)
            if self.cur:
                self._raise_to(i, "KeyError", self.landing)
            self.cur = out
            return self.load(res, e)
        c = self._callable(e.func, fr)
        if c is None:
            return None
        fi, static, recv, rframe = c
        if isinstance(fi.node, ast.Lambda):
            d, f = 0, fr
            while f is not None:
                if f.func.qual == fi.qual:
                    return None
                f, d = f.caller, d + 1
            if d > self.max_depth:
                return None
        elif fi.is_gen or fi.is_contextmanager or (fi.is_async and not awaited) or \
                not self._can_inline(fi, e, ("func", fi, None, "func")):
            return None
        rt = None
        if recv is not None:
            saved, self.frame = self.frame, rframe
            rt = self.expr(recv)
            self.frame = saved
        return self.inline_call(e, fi, rframe.selfcls if static is not None else None, "value", recv_t=rt, static=static,
                                awaited=awaited)

    def _alias(self, t, node):
        return self.emit("alias", node, (t,), dst=True).dst

    def inline_call(self, e, fi, rc, kind, yield_cb=None, recv_t=None, static=None, awaited=False):
        caller_real = self._real(self.frame)
        params = fi.params()
        bind = {}
        recv = recv_t
        if kind == "value":
            pass
        elif fi.cls is not None and fi.parent is None and not fi.is_static:
            if kind == "super":
                recv = self.expr(ast.copy_location(ast.Name(caller_real.func.params()[0], ast.Load()), e)) \
                    if caller_real.func.parent is None else None
                if recv is None:
                    recv = self.emit("opaque", e, (), "super", dst=True).dst
            elif kind == "static":
                if fi.is_classmethod:
                    recv = self.expr(e.func.value)
                else:
                    recv = None  # Class.method(obj, ...)
            else:
                recv = self.expr(e.func.value)
        pos, kw, star = self._args(e)
        selfcls = rc if rc is not None else fi.cls
        if kind in ("self", "super"):
            selfcls = caller_real.selfcls or selfcls
        if kind == "nested":
            f = self.frame
            while f is not None:
                rf = f
                if not isinstance(rf, CompFrame) and fi.name in rf.func.nested and rf.func.nested[fi.name] is fi:
                    static = rf
                    break
                f = f.static
            selfcls = caller_real.selfcls
        fr = self._frame(fi, e, static, selfcls)
        fr.caller = caller_real
        fr.yield_cb = yield_cb
        fr.lambda_awaited = awaited
        fr.root = caller_real.root
        # bind
        plist = list(params)
        if recv is not None and plist:
            bind[plist[0]] = recv
            plist = plist[1:]
        va = fi.node.args.vararg.arg if fi.node.args.vararg else None
        rest = []
        if not star:
            for i, t in enumerate(pos):
                if i < len(plist):
                    bind[plist[i]] = t
                else:
                    rest.append(t)
        else:
            for i, t in enumerate(pos):
                dfn = self.g.tempdef.get(t)
                if dfn is not None and dfn.op == "star":
                    for j, p in enumerate(plist[i:]):
                        x = self.emit("unpack", e, (dfn.args[0],), j, dst=True).dst
                        bind.setdefault(p, x)
                    break
                if i < len(plist):
                    bind[plist[i]] = t
        allp = set(fi.all_params())
        extra_kw = {}
        for k, t in kw.items():
            if k in allp:
                bind[k] = t
            else:
                extra_kw[k] = t
        # types of args for untyped params
        argast = {}
        pl2 = params[1:] if recv is not None else params
        for i, a in enumerate(e.args):
            if i < len(pl2):
                argast[pl2[i]] = a
        for k in e.keywords:
            if k.arg:
                argast[k.arg] = k.value
        fr.argast = {p: (a, self.frame) for p, a in argast.items()}
        for p, a in argast.items():
            if fi.annotation(p) is None:
                t = self.type_of(a)
                if t:
                    fr.argtypes[p] = t
        self.emit("enter", e, (), fi.qual)
        for p, dflt in fi.defaults().items():
            if p not in bind:
                saved, self.frame = self.frame, fr
                bind[p] = self.expr(dflt)
                self.frame = saved
        for p in fi.all_params():
            if p in bind:
                self.store((fr.id, p), bind[p], e)
            elif p == va:
                t = self.emit("tuple", e, rest, dst=True).dst
                self.store((fr.id, p), t, e)
            else:
                t = self.emit("opaque", e, (), f"arg:{p}", dst=True).dst
                self.store((fr.id, p), t, e)
        self.body_of(fi, fr)
        if self.cur:
            self.emit("leave", e, (), fi.qual)
        return self.load((fr.id, "$ret"), e)


class CompFrame:
    """Scope of comprehension variables."""

    def __init__(self, fid, static, names):
        self.id, self.static, self.names = fid, static, names
        f = static
        while isinstance(f, CompFrame):
            f = f.static
        self.func = f.func
        self.selfcls = f.selfcls
        self.caller = f.caller
        self.root = f.root


class _BreakProxy:
    """break inside a for-over-inlined-generator body: must unwind the generator's contexts as well."""

    def __init__(self, b, idx, brk):
        self.b, self.idx, self.brk = b, idx, brk

    def extend(self, cur):
        saved = self.b.cur
        self.b.cur = list(cur)
        # unwind from the inner loop ctx down to the outer loop ctx
        top = None
        for i in range(len(self.b.ctx) - 1, -1, -1):
            c = self.b.ctx[i]
            if c[0] == "loop" and c[2] is self:
                top = i
                break
        full = self.b.ctx
        self.b.ctx = full[: (top if top is not None else len(full))]
        self.b.unwind(self.idx)
        self.b.ctx = full
        self.brk.extend(self.b.cur)
        self.b.cur = saved
