"""Behaviour-preserving rewritings of a whole tree, to find checks that judge how code is written.

python3 tools/refactor.py NAME OUTDIR [file filter]     writes the rewritten mixtera/ package to OUTDIR/mixtera
python3 tools/refactor.py --run [NAME ...]               rewrites into scratch directories and runs all checks on each

Each rewriting is applied at every place where it is possible."""
import ast
import copy
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("MXLINT_REPO", "/repo")
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUNC + (ast.Lambda, ast.ClassDef)


def scope_walk(n):
    """Nodes of a function without those of nested functions and classes."""
    todo = list(ast.iter_child_nodes(n))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, SCOPES):
            todo += list(ast.iter_child_nodes(x))


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def names(n, ctx=None):
    return [x.id for x in ast.walk(n) if isinstance(x, ast.Name) and (ctx is None or isinstance(x.ctx, ctx))]


def ends(body):
    """The block never falls through."""
    l = body[-1]
    if isinstance(l, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(l, ast.If) and bool(l.orelse) and ends(l.body) and ends(l.orelse)


def neg(c):
    if isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
        return c.operand
    return ast.UnaryOp(ast.Not(), c)


class Blocks(ast.NodeTransformer):
    """Rewrites lists of statements; subclasses override block(stmts, function) -> stmts."""

    def __init__(self):
        self.n, self.fn, self.cls, self.added, self.changed = 0, [], [], [], 0

    def fresh(self, p):
        self.n += 1
        return f"{p}_{self.n}"

    def go(self, n):
        for f in ("body", "orelse", "finalbody", "handlers"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], (ast.stmt, ast.ExceptHandler)):
                setattr(n, f, [self.visit(x) for x in b])
                if f != "handlers" and self.fn and not isinstance(n, (ast.ClassDef, ast.Module)):
                    setattr(n, f, self.block(getattr(n, f), n, f))
        return n

    def visit(self, n):
        if isinstance(n, FUNC):
            self.fn.append(n)
            n = self.go(n)
            n = self.function(n) or n
            self.fn.pop()
            return n
        if isinstance(n, ast.ClassDef):
            self.cls.append(n)
            self.added.append([])
            n = self.go(n)
            n.body += self.added.pop()
            self.cls.pop()
            n = self.klass(n) or n
            return n
        if isinstance(n, ast.Module):
            self.added.append([])
            n = self.go(n)
            add = self.added.pop()
            n.body += add
            return n
        if isinstance(n, (ast.stmt, ast.ExceptHandler)):
            return self.go(n)
        return n

    def function(self, f):
        return f

    def klass(self, c):
        return c

    def block(self, b, owner, field):
        out = []
        for s in b:
            r = self.stmt(s)
            out += r if isinstance(r, list) else [r]
        return out

    def stmt(self, s):
        return s


class Identity(Blocks):
    pass


class Rename(Blocks):
    """Other names for local variables."""

    def function(self, f):
        if len(self.fn) > 1:
            return f
        bound = {x.id for x in scope_walk(f) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        bad = set(params(f))
        for x in ast.walk(f):
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                bad |= set(x.names)
            if isinstance(x, FUNC + (ast.Lambda,)) and x is not f:
                bad |= set(params(x))
                bad |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)} - bound
            if isinstance(x, ast.ExceptHandler) and x.name:
                bad.add(x.name)
            if isinstance(x, (ast.Import, ast.ImportFrom)):
                bad |= {(a.asname or a.name).split(".")[0] for a in x.names}
            if isinstance(x, FUNC + (ast.ClassDef,)):
                bad.add(x.name)
        todo = bound - bad
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id in todo:
                x.id = "the_" + x.id.lstrip("_")
        return f


class Invert(Blocks):
    """if c: A else: B -> if not c: B else: A"""

    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse:
            s.test, s.body, s.orelse = neg(s.test), s.orelse, s.body
        return s


class GuardToElse(Blocks):
    """if c: return; rest -> if c: return else: rest"""

    def block(self, b, owner, field):
        for k, s in enumerate(b[:-1]):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body):
                s.orelse = self.block(b[k + 1:], s, "orelse")
                return b[:k + 1]
        return b


class ElseToGuard(Blocks):
    """if c: return else: rest -> if c: return; rest"""

    def stmt(self, s):
        if isinstance(s, ast.If) and s.orelse and ends(s.body):
            o, s.orelse = s.orelse, []
            return [s] + o
        return s


class ReturnTemp(Blocks):
    """return e -> x = e; return x"""

    def stmt(self, s):
        if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Constant, ast.Name)):
            v = self.fresh("outcome")
            return [ast.Assign([ast.Name(v, ast.Store())], s.value), ast.Return(ast.Name(v, ast.Load()))]
        return s


def simple(e):
    return isinstance(e, (ast.Constant, ast.Name, ast.Lambda, ast.Starred)) or isinstance(e, ast.Attribute) and simple(e.value) or isinstance(e, ast.UnaryOp) and simple(e.operand)


class ArgTemp(Blocks):
    """f(g(x)) -> t = g(x); f(t)"""

    def stmt(self, s):
        c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return, ast.AnnAssign)) and s.value is not None else None
        if isinstance(c, ast.Await):
            c = c.value
        if not isinstance(c, ast.Call) or not simple(c.func) or any(isinstance(a, ast.Starred) for a in c.args) or isinstance(c.func, ast.Name) and c.func.id == "super":
            return s
        if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(c)):
            return s
        pre = []
        for k, a in enumerate(c.args):
            if not simple(a) and not isinstance(a, (ast.GeneratorExp, ast.JoinedStr)):
                v = self.fresh("arg")
                pre.append(ast.Assign([ast.Name(v, ast.Store())], a))
                c.args[k] = ast.Name(v, ast.Load())
        for kw in c.keywords:
            if not simple(kw.value) and not isinstance(kw.value, (ast.GeneratorExp, ast.JoinedStr)) and kw.arg:
                v = self.fresh("arg")
                pre.append(ast.Assign([ast.Name(v, ast.Store())], kw.value))
                kw.value = ast.Name(v, ast.Load())
        return pre + [s]


class CondTemp(Blocks):
    """if e: -> c = e; if c:"""

    def stmt(self, s):
        if isinstance(s, ast.If) and not isinstance(s.test, (ast.Name, ast.Constant)) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
            v = self.fresh("applies")
            t, s.test = s.test, ast.Name(v, ast.Load())
            return [ast.Assign([ast.Name(v, ast.Store())], t), s]
        return s


class CompLoop(Blocks):
    """x = [e for ...] -> loop with append"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            t, c = s.targets[0].id, s.value
        elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
            t, c = s.target.id, s.value
        elif isinstance(s, ast.Return):
            t, c = self.fresh("gathered"), s.value
        else:
            return s
        if not isinstance(c, (ast.ListComp, ast.SetComp, ast.DictComp)) or any(g.is_async for g in c.generators) or t in names(c) or any(isinstance(x, ast.Lambda) for x in ast.walk(c)):
            return s
        own = {n for g in c.generators for n in names(g.target)}
        used = [x.id for f in self.fn for x in ast.walk(f) if isinstance(x, ast.Name)] + [p for f in self.fn for p in params(f)]
        inner = [x.id for x in ast.walk(c) if isinstance(x, ast.Name)]
        ren = {n: self.fresh(n) for n in own if used.count(n) != inner.count(n)}
        c = copy.deepcopy(c)
        first = c.generators[0].iter
        for x in ast.walk(c):
            if isinstance(x, ast.Name) and x.id in ren and not any(x is y for y in ast.walk(first)):
                x.id = ren[x.id]
        L = ast.Load()
        if isinstance(c, ast.DictComp):
            new = ast.Dict([], [])
            add = ast.Assign([ast.Subscript(ast.Name(t, L), c.key, ast.Store())], c.value)
        else:
            new = ast.List([], L) if isinstance(c, ast.ListComp) else ast.Call(ast.Name("set", L), [], [])
            add = ast.Expr(ast.Call(ast.Attribute(ast.Name(t, L), "append" if isinstance(c, ast.ListComp) else "add", L), [c.elt], []))
        body = [add]
        for g in reversed(c.generators):
            for i in reversed(g.ifs):
                body = [ast.If(i, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        ret = [ast.Return(ast.Name(t, L))] if isinstance(s, ast.Return) else []
        return [ast.Assign([ast.Name(t, ast.Store())], new)] + body + ret


class ForWhile(Blocks):
    """for v in X -> while True over an iterator"""

    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse:
            v = self.fresh("source")
            L = ast.Load()
            return [ast.Assign([ast.Name(v, ast.Store())], ast.Call(ast.Name("iter", L), [s.iter], [])),
                    ast.While(ast.Constant(True), [ast.Try([ast.Assign([s.target], ast.Call(ast.Name("next", L), [ast.Name(v, L)], []))],
                                                           [ast.ExceptHandler(ast.Name("StopIteration", L), None, [ast.Break()])], [], [])] + s.body, [])]
        return s


class IndexLoop(Blocks):
    """for i, x in enumerate(X) -> counter"""

    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == "enumerate" and isinstance(s.target, ast.Tuple) \
                and len(s.iter.args) == 1 and not s.iter.keywords and isinstance(s.target.elts[0], ast.Name):
            v = self.fresh("position")
            pre = ast.Assign([ast.Name(v, ast.Store())], ast.Constant(-1))
            s.body = [ast.AugAssign(ast.Name(v, ast.Store()), ast.Add(), ast.Constant(1)), ast.Assign([s.target.elts[0]], ast.Name(v, ast.Load()))] + s.body
            s.iter, s.target = s.iter.args[0], s.target.elts[1]
            return [pre, s]
        return s


class ItemsLoop(Blocks):
    """for k, v in d.items() -> for e in d.items(): k, v = e"""

    def stmt(self, s):
        if isinstance(s, ast.For) and isinstance(s.target, ast.Tuple):
            v = self.fresh("entry")
            s.body = [ast.Assign([s.target], ast.Name(v, ast.Load()))] + s.body
            s.target = ast.Name(v, ast.Store())
        return s


class KeysLoop(Blocks):
    """for k, v in d.items() -> for k in d: v = d[k]"""

    def stmt(self, s):
        c = s.iter if isinstance(s, ast.For) else None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "items" and not c.args and simple(c.func.value) and isinstance(s.target, ast.Tuple) and len(s.target.elts) == 2 \
                and isinstance(s.target.elts[0], ast.Name):
            d = c.func.value
            s.body = [ast.Assign([s.target.elts[1]], ast.Subscript(copy.deepcopy(d), ast.Name(s.target.elts[0].id, ast.Load()), ast.Load()))] + s.body
            s.iter, s.target = d, s.target.elts[0]
        return s


class WithAcquire(Blocks):
    """with lock: -> acquire/try/finally release"""

    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) == 1 and s.items[0].optional_vars is None and isinstance(s.items[0].context_expr, (ast.Name, ast.Attribute)) and "lock" in ast.unparse(s.items[0].context_expr):
            l = s.items[0].context_expr
            call = lambda n: ast.Expr(ast.Call(ast.Attribute(copy.deepcopy(l), n, ast.Load()), [], []))
            return [call("acquire"), ast.Try(s.body, [], [], [call("release")])]
        return s


class AugPlain(Blocks):
    """x += 1 -> x = x + 1"""

    def stmt(self, s):
        if isinstance(s, ast.AugAssign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, int) and simple(s.target):
            t = copy.deepcopy(s.target)
            t.ctx = ast.Load()
            return ast.Assign([s.target], ast.BinOp(t, s.op, s.value))
        return s


class SplitAnd(Blocks):
    """if a and b: -> if a: if b:"""

    def stmt(self, s):
        if isinstance(s, ast.If) and not s.orelse and isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And):
            body = s.body
            for v in reversed(s.test.values):
                body = [ast.If(v, body, [])]
            return body[0]
        return s


class DeMorgan(Blocks):
    """if a or b: A -> if not (not a and not b): A"""

    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)) and isinstance(s.test, ast.BoolOp):
            op = ast.And() if isinstance(s.test.op, ast.Or) else ast.Or()
            s.test = ast.UnaryOp(ast.Not(), ast.BoolOp(op, [neg(v) for v in s.test.values]))
        return s


class WhileTrue(Blocks):
    """while c: -> while True: if not c: break"""

    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant):
            s.body = [ast.If(neg(s.test), [ast.Break()], [])] + s.body
            s.test = ast.Constant(True)
        return s


class IfExp(Blocks):
    """x = a if c else b -> if/else"""

    def stmt(self, s):
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
            a, b = copy.deepcopy(s), copy.deepcopy(s)
            a.value, b.value = s.value.body, s.value.orelse
            return ast.If(s.value.test, [a], [b])
        if isinstance(s, ast.AnnAssign) and isinstance(s.value, ast.IfExp) and isinstance(s.target, ast.Name):
            a = ast.Assign([s.target], s.value.body)
            b = ast.Assign([copy.deepcopy(s.target)], s.value.orelse)
            return ast.If(s.value.test, [a], [b])
        return s


class ToIfExp(Blocks):
    """if c: x = a else: x = b -> x = a if c else b"""

    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1:
            a, b = s.body[0], s.orelse[0]
            if isinstance(a, ast.Assign) and isinstance(b, ast.Assign) and ast.dump(a.targets[0]) == ast.dump(b.targets[0]) and len(a.targets) == 1 and simple(a.targets[0]):
                return ast.Assign(a.targets, ast.IfExp(s.test, a.value, b.value))
            if isinstance(a, ast.Return) and isinstance(b, ast.Return) and a.value is not None and b.value is not None:
                return ast.Return(ast.IfExp(s.test, a.value, b.value))
        return s


class Format(Blocks):
    """f"{x}" -> "{}".format(x)"""

    class E(ast.NodeTransformer):
        def visit_JoinedStr(self, n):
            if any(isinstance(x, (ast.Yield, ast.Await)) for x in ast.walk(n)):
                return n
            t, args = "", []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    t += v.value.replace("{", "{{").replace("}", "}}")
                else:
                    if v.format_spec is not None and any(not isinstance(x, ast.Constant) for x in v.format_spec.values):
                        return n
                    spec = ":" + "".join(x.value for x in v.format_spec.values) if v.format_spec is not None else ""
                    conv = {115: "!s", 114: "!r", 97: "!a"}.get(v.conversion, "")
                    t += "{" + conv + spec + "}"
                    args.append(self.visit(v.value))
            return ast.Call(ast.Attribute(ast.Constant(t), "format", ast.Load()), args, [])

    def function(self, f):
        f.body = [self.E().visit(s) for s in f.body]
        return f


class Flip(Blocks):
    """a < b -> b > a"""

    class E(ast.NodeTransformer):
        M = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}

        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in self.M and not any(isinstance(x, (ast.Call, ast.Await, ast.Yield)) for x in ast.walk(n.left)):
                return ast.Compare(n.comparators[0], [self.M[type(n.ops[0])]()], [n.left])
            return n

    def function(self, f):
        f.body = [self.E().visit(s) for s in f.body]
        return f


class NotCompare(Blocks):
    """a < b -> not (a >= b) for integers in conditions; a is None -> not (a is not None); a in b -> not (a not in b)"""

    class E(ast.NodeTransformer):
        M = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}

        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and type(n.ops[0]) in self.M:
                return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [self.M[type(n.ops[0])]()], n.comparators))
            return n

    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)):
            s.test = self.E().visit(s.test)
        return s


class InToOr(Blocks):
    """x in (a, b) -> x == a or x == b"""

    class E(ast.NodeTransformer):
        def visit_Compare(self, n):
            self.generic_visit(n)
            if len(n.ops) == 1 and isinstance(n.ops[0], ast.In) and isinstance(n.comparators[0], (ast.Tuple, ast.List)) and simple(n.left):
                return ast.BoolOp(ast.Or(), [ast.Compare(copy.deepcopy(n.left), [ast.Eq()], [x]) for x in n.comparators[0].elts])
            return n

    def function(self, f):
        f.body = [self.E().visit(s) for s in f.body]
        return f


class SplitTuple(Blocks):
    """a, b = x, y -> a = x; b = y if independent"""

    def stmt(self, s):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts) \
                and all(isinstance(t, ast.Name) for t in s.targets[0].elts) and not set(names(s.targets[0])) & set(names(s.value)):
            return [ast.Assign([t], v) for t, v in zip(s.targets[0].elts, s.value.elts)]
        return s


class ReverseMethods(Blocks):
    """Methods in another order."""

    def klass(self, c):
        fs = [x for x in c.body if isinstance(x, FUNC)]
        if len({f.name for f in fs}) != len(fs):
            return c
        it = iter(reversed(fs))
        c.body = [next(it) if isinstance(x, FUNC) else x for x in c.body]
        return c


class DoNothing(Blocks):
    """Statements without effect at the start of every block."""

    def block(self, b, owner, field):
        k = 1 if isinstance(owner, FUNC) and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        v = self.fresh("unused")
        return b[:k] + [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(None)), ast.Pass()] + b[k:]


class Logging(Blocks):
    """A log line at the start of every function."""

    def function(self, f):
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(k, ast.Expr(ast.Call(ast.Name("print", ast.Load()), [ast.Constant(f"in {f.name}")], [])))
        return f


class SwapAssign(Blocks):
    """Adjacent independent assignments of plain values swapped."""

    def block(self, b, owner, field):
        k = 0
        ok = lambda s: isinstance(s, ast.Assign) and len(s.targets) == 1 and (isinstance(s.targets[0], ast.Name) or isinstance(s.targets[0], ast.Attribute) and simple(s.targets[0].value)) and \
            (simple(s.value) or isinstance(s.value, (ast.Dict, ast.List)) and not ast.unparse(s.value)[1:-1])
        while k + 1 < len(b):
            x, y = b[k], b[k + 1]
            if ok(x) and ok(y):
                tx, ty = ast.unparse(x.targets[0]), ast.unparse(y.targets[0])
                if tx != ty and tx not in ast.unparse(y) and ty not in ast.unparse(x):
                    b[k], b[k + 1] = y, x
                    k += 1
            k += 1
        return b


def definitely(stmts):
    """Names certainly bound by the statements."""
    out = set()
    for s in stmts:
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target] if s.value is not None else []
            out |= {n for t in ts for n in names(t, ast.Store)}
        elif isinstance(s, FUNC + (ast.ClassDef,)):
            out.add(s.name)
        elif isinstance(s, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in s.names}
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            out |= {n for i in s.items if i.optional_vars is not None for n in names(i.optional_vars)} | definitely(s.body)
        elif isinstance(s, ast.If):
            a, b = definitely(s.body), definitely(s.orelse)
            if s.body and ends(s.body):
                out |= b
            elif s.orelse and ends(s.orelse):
                out |= a
            else:
                out |= a & b
        elif isinstance(s, ast.Try):
            if all(ends(h.body) for h in s.handlers):
                out |= definitely(s.body)
            out |= definitely(s.finalbody)
    return out


def bound(stmts):
    out = set()
    for s in stmts:
        for x in [s] + list(scope_walk(s)) if not isinstance(s, SCOPES) else [s]:
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, FUNC + (ast.ClassDef,)):
                out.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                out |= {(a.asname or a.name).split(".")[0] for a in x.names}
    return out


class Extract(Blocks):
    """Common parts of the extractions into helpers."""

    def kind(self, f):
        """How a helper of f is reached: ("self", cls) | ("static", cls) | ("module", None) | None"""
        if len(self.fn) != 1:
            return None
        dec = [ast.unparse(d) for d in f.decorator_list]
        if self.cls:
            if len(self.cls) > 1 or any("Protocol" in ast.unparse(b) for b in self.cls[-1].bases):
                return None
            if "staticmethod" in dec:
                return ("static", self.cls[-1].name)
            if "classmethod" in dec or f.name in ("__new__", "__getstate__x"):
                return None
            if not f.args.args or f.args.args[0].arg != "self":
                return None
            return ("self", self.cls[-1].name)
        return ("module", None)

    def helper(self, f, kind, name, ins, body, is_async=False):
        args = ast.arguments([], [ast.arg("self")] * (kind[0] == "self") + [ast.arg(x) for x in ins], None, [], [], None, [])
        t = ast.AsyncFunctionDef if is_async else ast.FunctionDef
        h = t(name, args, body, [ast.Name("staticmethod", ast.Load())] if kind[0] == "static" else [], None)
        if sys.version_info >= (3, 12):
            h.type_params = []
        self.added[-1].append(h)
        L = ast.Load()
        fn = ast.Name(name, L) if kind[0] == "module" else ast.Attribute(ast.Name("self" if kind[0] == "self" else kind[1], L), name, L)
        return ast.Call(fn, [ast.Name(x, L) for x in ins], [])

    def hidden(self, nodes):
        return any(isinstance(x, (ast.Global, ast.Nonlocal)) or isinstance(x, ast.Name) and x.id in ("__class__", "locals", "inspect") or
                   isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" or isinstance(x, ast.Attribute) and x.attr == "currentframe" for n in nodes for x in ast.walk(n))

    def private(self, nodes):
        return any(isinstance(x, ast.Attribute) and x.attr.startswith("__") and not x.attr.endswith("__") for n in nodes for x in ast.walk(n))

    def locals(self, f):
        return set(params(f)) | bound(f.body)


class TailHelper(Extract):
    """The second half of a function becomes a helper."""

    def cut(self, f, k):
        return len(f.body) - max(1, (len(f.body) - k) // 2)

    def function(self, f):
        kind = self.kind(f)
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        if kind is None or len(f.body) - k < 2 or f.name.startswith("__") and f.name != "__init__":
            return f
        c = self.cut(f, k)
        head, tail = f.body[:c], f.body[c:]
        if not head[k:] or self.hidden(f.body):
            return f
        loc = self.locals(f)
        ins = sorted({n for s in tail for n in names(s, ast.Load)} & loc - ({"self"} if kind[0] == "self" else set()))
        sure = set(params(f)) | definitely(head)
        if any(n not in sure and n in bound(head) for n in ins):
            return f
        ins = [n for n in ins if n in sure]
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in scope_walk(f))
        tgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for s in tail for x in [s] + list(scope_walk(s)))
        if gen and not tgen:
            return f
        a = isinstance(f, ast.AsyncFunctionDef)
        if a and gen:
            return f
        call = self.helper(f, kind, f"_{kind[1] or 'm'}_{f.name.strip('_')}_rest", ins, tail, a)
        f.body = head + [ast.Return(ast.YieldFrom(call) if gen else ast.Await(call) if a else call)]
        return f


class TailHelper1(TailHelper):
    """All but the first statement becomes a helper."""

    def cut(self, f, k):
        return k + 1


class TailHelperLast(TailHelper):
    """The last statement becomes a helper."""

    def cut(self, f, k):
        return len(f.body) - 1


class CondHelper(Extract):
    """Conditions become predicates."""

    def stmt(self, s):
        f = self.fn[-1]
        kind = self.kind(f)
        if not isinstance(s, ast.If) or kind is None or isinstance(s.test, (ast.Name, ast.Constant)) or self.hidden([s.test]):
            return s
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield)) for x in ast.walk(s.test)):
            return s
        comp = {n for x in ast.walk(s.test) if isinstance(x, ast.comprehension) for n in names(x.target)}
        ins = sorted((set(names(s.test)) - comp) & self.locals(f) - {"self"} if kind[0] == "self" else (set(names(s.test)) - comp) & self.locals(f))
        s.test = self.helper(f, kind, self.fresh(f"_{kind[1] or 'm'}_{f.name.strip('_')}_applies"), ins, [ast.Return(s.test)])
        return s


class ValueHelper(Extract):
    """Right-hand sides become helpers."""

    def stmt(self, s):
        f = self.fn[-1]
        kind = self.kind(f)
        if not isinstance(s, (ast.Assign, ast.Return)) or s.value is None or kind is None or simple(s.value) or self.hidden([s.value]):
            return s
        if any(isinstance(x, (ast.NamedExpr, ast.Await, ast.Yield, ast.YieldFrom, ast.Lambda)) for x in ast.walk(s.value)):
            return s
        comp = {n for x in ast.walk(s.value) if isinstance(x, ast.comprehension) for n in names(x.target)}
        ins = sorted((set(names(s.value)) - comp) & self.locals(f) - ({"self"} if kind[0] == "self" else set()))
        s.value = self.helper(f, kind, self.fresh(f"_{kind[1] or 'm'}_{f.name.strip('_')}_value"), ins, [ast.Return(s.value)])
        return s


class BodyHelper(Extract):
    """Bodies of loops and branches become helpers, where nothing flows out of them."""

    def stmt(self, s):
        f = self.fn[-1]
        kind = self.kind(f)
        if kind is None:
            return s
        for field in ("body", "orelse"):
            b = getattr(s, field, None)
            if not isinstance(s, (ast.For, ast.If, ast.While, ast.With)) or not b or len(b) < 2 or self.hidden(b):
                continue
            if isinstance(s, ast.With) and len(b) < 3:
                continue
            inner = [x for y in b for x in ([y] + list(scope_walk(y)))]
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Await, ast.AsyncWith, ast.AsyncFor) + FUNC + (ast.Lambda,)) for x in inner):
                continue
            out = bound(b)
            if any(x.id in out for x in ast.walk(f) if isinstance(x, ast.Name) and not any(x is y for z in b for y in ast.walk(z))):
                continue
            comp = {n for z in b for x in ast.walk(z) if isinstance(x, ast.comprehension) for n in names(x.target)}
            ins = sorted(({n for z in b for n in names(z, ast.Load)} - out - comp) & self.locals(f) - ({"self"} if kind[0] == "self" else set()))
            setattr(s, field, [ast.Expr(self.helper(f, kind, self.fresh(f"_{kind[1] or 'm'}_{f.name.strip('_')}_part"), ins, b))])
        return s


class Keywords(Blocks):
    """Positional arguments of calls to methods of self become keyword arguments."""

    def klass(self, c):
        ms = {f.name: f for f in c.body if isinstance(f, FUNC)}
        for f in ms.values():
            for x in ast.walk(f):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self" and x.func.attr in ms and \
                        not any(isinstance(a, ast.Starred) for a in x.args):
                    m = ms[x.func.attr]
                    if m.args.vararg or m.args.posonlyargs or any("static" in ast.unparse(d) for d in m.decorator_list) or x.func.attr.startswith("_") is False:
                        continue
                    ps = [a.arg for a in m.args.args][1:]
                    x.keywords = [ast.keyword(p, a) for p, a in zip(ps, x.args)] + x.keywords
                    x.args = []
        return c


class Annotate(Blocks):
    """x = e -> x: Any = e for plain locals; annotations dropped elsewhere"""

    def stmt(self, s):
        if isinstance(s, ast.AnnAssign) and s.value is not None and isinstance(s.target, (ast.Name, ast.Attribute)) and s.simple | isinstance(s.target, ast.Attribute):
            return ast.Assign([s.target], s.value)
        return s


class SelfAlias(Blocks):
    """Repeated self._field.method() in one statement block: alias = self._field for final locks and dictionaries is not attempted; only self -> this."""

    def function(self, f):
        if len(self.fn) != 1 or not self.cls or not f.args.args or f.args.args[0].arg != "self" or any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "super" for x in ast.walk(f)):
            return f
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and x.id == "self":
                x.id = "this"
        f.args.args[0].arg = "this"
        return f


class TryElse(Blocks):
    """try: a; b except -> unchanged; with A, B: -> nested with"""

    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) > 1:
            body = s.body
            for i in reversed(s.items):
                body = [ast.With([i], body)]
            return body[0]
        return s


class MergeWith(Blocks):
    """nested with -> one with"""

    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.body) == 1 and isinstance(s.body[0], ast.With):
            s.items += s.body[0].items
            s.body = s.body[0].body
        return s


class CallTemp(Blocks):
    """a.b(c).d(e) -> t = a.b(c); t.d(e)"""

    def stmt(self, s):
        c = s.value if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and s.value is not None else None
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Call) and not (isinstance(c.func.value.func, ast.Name) and c.func.value.func.id == "super"):
            v = self.fresh("step")
            pre = ast.Assign([ast.Name(v, ast.Store())], c.func.value)
            c.func.value = ast.Name(v, ast.Load())
            return [pre, s]
        return s


class MidHelper(Extract):
    """A run of statements in the middle of a block becomes a helper that returns what it sets."""

    def run_of(self, b, k):
        return 2

    def block(self, b, owner, field):
        f = self.fn[-1]
        kind = self.kind(f)
        if kind is None or self.hidden(f.body) or len(b) < 4 or any(isinstance(x, FUNC + (ast.Lambda,)) for s in f.body for x in ast.walk(s)):
            return b
        out, k = [], 0
        while k < len(b):
            seg = b[k:k + self.run_of(b, k)]
            new = self.cut(f, kind, b, k, seg) if len(seg) >= 2 or self.run_of(b, k) == 1 else None
            if new is None:
                out.append(b[k])
                k += 1
            else:
                out.append(new)
                k += len(seg)
        return out

    def cut(self, f, kind, b, k, seg):
        if k == 0 and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) or k + len(seg) >= len(b):
            return None
        inner = [x for y in seg for x in [y] + list(scope_walk(y))]
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield, ast.YieldFrom, ast.Await, ast.AsyncWith, ast.AsyncFor, ast.Import, ast.ImportFrom, ast.NamedExpr, ast.Delete)) for x in inner):
            return None
        if not any(isinstance(x, ast.Call) for x in inner):
            return None
        out = bound(seg)
        inside = {id(x) for y in seg for x in ast.walk(y)}
        used = sorted({x.id for x in ast.walk(f) if isinstance(x, ast.Name) and id(x) not in inside} & out)
        if not set(used) <= definitely(seg):
            return None
        comp = {n for z in seg for x in ast.walk(z) if isinstance(x, ast.comprehension) for n in names(x.target)}
        loads = {n for z in seg for n in names(z, ast.Load)} - comp
        loc = self.locals(f)
        first = set()
        for z in seg:
            first |= ({n for n in names(z, ast.Load)} - comp) - definitely(seg[:seg.index(z)])
        if isinstance(seg[0], (ast.For, ast.While, ast.If, ast.With, ast.Try)) or any(isinstance(z, (ast.For, ast.While, ast.If, ast.With, ast.Try)) for z in seg):
            ins = sorted((loads & loc) - ({"self"} if kind[0] == "self" else set()))
            if set(ins) & out:
                return None
        else:
            ins = sorted((first & loc) - ({"self"} if kind[0] == "self" else set()))
        # everything handed in must be set by then
        head = [s for s in f.body]
        sure = set(params(f))
        if b is f.body or any(s is seg[0] for s in f.body):
            sure |= definitely(f.body[:[s is seg[0] for s in f.body].index(True)])
        else:
            sure |= definitely(b[:k])
        if not set(ins) <= sure:
            return None
        L = ast.Load()
        body = [copy.deepcopy(s) for s in seg]
        if len(used) == 1:
            body.append(ast.Return(ast.Name(used[0], L)))
        elif used:
            body.append(ast.Return(ast.Tuple([ast.Name(n, L) for n in used], L)))
        call = self.helper(f, kind, self.fresh(f"_{kind[1] or 'm'}_{f.name.strip('_')}_step"), ins, body)
        if not used:
            return ast.Expr(call)
        return ast.Assign([ast.Name(used[0], ast.Store()) if len(used) == 1 else ast.Tuple([ast.Name(n, ast.Store()) for n in used], ast.Store())], call)


class MidHelper1(MidHelper):
    """Single compound statements become helpers that return what they set."""

    def run_of(self, b, k):
        return 1

    def cut(self, f, kind, b, k, seg):
        if not isinstance(seg[0], (ast.For, ast.If, ast.While, ast.With, ast.Try)):
            return None
        return super().cut(f, kind, b, k, seg)


class LoopHelper(Extract):
    """Statements that yield become generators of their own."""

    def stmt(self, s):
        f = self.fn[-1]
        kind = self.kind(f)
        if kind is None or not isinstance(s, (ast.For, ast.With)) or not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in scope_walk(s)) or self.hidden([s]):
            return s
        inner = list(scope_walk(s))
        if any(isinstance(x, (ast.Return, ast.Break, ast.Continue) + FUNC + (ast.Lambda, ast.NamedExpr)) for x in inner):
            return s
        out = bound([s])
        if any(x.id in out for x in ast.walk(f) if isinstance(x, ast.Name) and not any(x is y for y in ast.walk(s))):
            return s
        comp = {n for x in ast.walk(s) if isinstance(x, ast.comprehension) for n in names(x.target)}
        ins = sorted((set(names(s, ast.Load)) - out - comp) & self.locals(f) - ({"self"} if kind[0] == "self" else set()))
        return ast.Expr(ast.YieldFrom(self.helper(f, kind, self.fresh(f"_{kind[1] or 'm'}_{f.name.strip('_')}_items"), ins, [s])))


class ModuleHelper(CondHelper):
    """Conditions that do not mention self become functions of the module."""

    def visit(self, n):
        if isinstance(n, ast.ClassDef) and len(self.added) == 1:
            pass
        return super().visit(n)

    def kind(self, f):
        k = super().kind(f)
        return None if k is None else ("module", None)

    def helper(self, f, kind, name, ins, body, is_async=False):
        top, self.added[-1] = self.added[-1], self.added[0]
        try:
            return super().helper(f, kind, name, ins, body, is_async)
        finally:
            self.added[-1] = top


class TailStatic(TailHelper):
    """The second half of a method becomes a static method that gets the object."""

    def function(self, f):
        return f if self.cls and any(isinstance(x, ast.Attribute) and x.attr.startswith("__") for x in ast.walk(f)) else super().function(f)

    def helper(self, f, kind, name, ins, body, is_async=False):
        if kind[0] != "self":
            return super().helper(f, kind, name, ins, body, is_async)
        return super().helper(f, ("static", kind[1]), name, ["self"] + [x for x in ins if x != "self"], body, is_async)


class AttrAlias(Blocks):
    """field = self._field where a method reads a field several times and neither sets it nor calls anything of its own before."""

    def function(self, f):
        if len(self.fn) != 1 or not self.cls or not f.args.args or f.args.args[0].arg != "self" or f.name == "__init__":
            return f
        final = getattr(self.cls[-1], "final_fields", None)
        if final is None:
            w = {}
            for m in self.cls[-1].body:
                for x in ast.walk(m):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        w.setdefault(x.attr, set()).add(getattr(m, "name", ""))
            final = self.cls[-1].final_fields = {a for a, ms in w.items() if ms == {"__init__"}}
        cnt = {}
        for x in ast.walk(f):
            if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self" and isinstance(x.ctx, ast.Load) and x.attr in final:
                cnt[x.attr] = cnt.get(x.attr, 0) + 1
        todo = {a for a, n in cnt.items() if n > 1}
        loc = set(params(f)) | {x.id for x in ast.walk(f) if isinstance(x, ast.Name)}
        todo = {a for a in todo if a.strip("_") not in loc}
        if not todo or any(isinstance(x, FUNC + (ast.Lambda,)) and x is not f for x in ast.walk(f)):
            return f

        class T(ast.NodeTransformer):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if isinstance(n.value, ast.Name) and n.value.id == "self" and n.attr in todo and isinstance(n.ctx, ast.Load):
                    return ast.Name(n.attr.strip("_"), ast.Load())
                return n
        f.body = [T().visit(s) for s in f.body]
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body[k:k] = [ast.Assign([ast.Name(a.strip("_"), ast.Store())], ast.Attribute(ast.Name("self", ast.Load()), a, ast.Load())) for a in sorted(todo)]
        return f


class ConstExtract(Blocks):
    """Numbers and texts in functions become constants of the module."""

    def visit(self, n):
        if isinstance(n, ast.Module):
            self.consts = {}
            n = super().visit(n)
            k = max([i for i, s in enumerate(n.body) if isinstance(s, (ast.Import, ast.ImportFrom))] or [-1]) + 1
            n.body[k:k] = [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(c)) for (t, c), v in self.consts.items()]
            return n
        return super().visit(n)

    def function(self, f):
        if len(self.fn) != 1:
            return f
        me = self

        class T(ast.NodeTransformer):
            def visit_JoinedStr(self, n):
                return n

            def visit_Expr(self, n):
                return n if isinstance(n.value, ast.Constant) else self.generic_visit(n)

            def visit_arguments(self, n):
                return n

            def visit_AnnAssign(self, n):
                if n.value is not None:
                    n.value = self.visit(n.value)
                return n

            def visit_Constant(self, n):
                if type(n.value) in (int, float, str) and n.value not in (0, 1, -1, "", True, False):
                    return ast.Name(me.consts.setdefault((type(n.value), n.value), f"_CONST_{len(me.consts) + 1}"), ast.Load())
                return n

        f.body = [T().visit(s) for s in f.body]
        return f


class RenamePrivate(Blocks):
    """Private methods and functions get other names."""

    def visit(self, n):
        if isinstance(n, ast.Attribute):
            return n
        return super().visit(n)

    def rename_all(trees):
        defs = {}
        for t in trees.values():
            for x in ast.walk(t):
                if isinstance(x, FUNC) and x.name.startswith("_") and not x.name.startswith("__"):
                    defs[x.name] = x.name + "_impl"
        texts = {x.value for t in trees.values() for x in ast.walk(t) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
        defs = {k: v for k, v in defs.items() if k not in texts}
        for t in trees.values():
            for x in ast.walk(t):
                if isinstance(x, FUNC) and x.name in defs:
                    x.name = defs[x.name]
                elif isinstance(x, ast.Attribute) and x.attr in defs:
                    x.attr = defs[x.attr]
                elif isinstance(x, ast.Name) and x.id in defs:
                    x.id = defs[x.id]
                elif isinstance(x, ast.alias) and x.name in defs:
                    x.name = defs[x.name]


class RenameField(Blocks):
    """Private fields get other names."""

    def rename_all(trees):
        meths = {x.name for t in trees.values() for x in ast.walk(t) if isinstance(x, FUNC)}
        fields = {x.attr for t in trees.values() for x in ast.walk(t) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == "self"}
        fields = {a for a in fields if a.startswith("_") and not a.startswith("__") and a not in meths}
        texts = " ".join(x.value for t in trees.values() for x in ast.walk(t) if isinstance(x, ast.Constant) and isinstance(x.value, str))
        fields = {a for a in fields if a not in texts and a not in ("_s3_client",)}
        for t in trees.values():
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and x.attr in fields:
                    x.attr += "_field"


class YieldLoop(Blocks):
    """yield from X -> for item in X: yield item"""

    def stmt(self, s):
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.YieldFrom):
            v = self.fresh("produced")
            return ast.For(ast.Name(v, ast.Store()), s.value.value, [ast.Expr(ast.Yield(ast.Name(v, ast.Load())))], [])
        return s


class LoopYield(Blocks):
    """for item in X: yield item -> yield from X"""

    def stmt(self, s):
        if isinstance(s, ast.For) and not s.orelse and len(s.body) == 1 and isinstance(s.target, ast.Name) and isinstance(s.body[0], ast.Expr) and isinstance(s.body[0].value, ast.Yield) and \
                isinstance(s.body[0].value.value, ast.Name) and s.body[0].value.value.id == s.target.id and not isinstance(self.fn[-1], ast.AsyncFunctionDef):
            return ast.Expr(ast.YieldFrom(s.iter))
        return s


class Walrus(Blocks):
    """x = e; if x... -> if (x := e)..."""

    def block(self, b, owner, field):
        out = []
        for s in b:
            p = out[-1] if out else None
            if isinstance(s, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                v = p.targets[0].id
                t = s.test
                holder = None
                while True:
                    if isinstance(t, ast.Name) and t.id == v:
                        break
                    nxt = t.left if isinstance(t, ast.Compare) else t.operand if isinstance(t, ast.UnaryOp) else t.values[0] if isinstance(t, ast.BoolOp) else None
                    if nxt is None:
                        t = None
                        break
                    holder, t = t, nxt
                if t is not None and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(p.value)):
                    w = ast.NamedExpr(ast.Name(v, ast.Store()), p.value)
                    if holder is None:
                        s.test = w
                    elif isinstance(holder, ast.Compare):
                        holder.left = w
                    elif isinstance(holder, ast.UnaryOp):
                        holder.operand = w
                    else:
                        holder.values[0] = w
                    out.pop()
            out.append(s)
        return out


class ReturnIf(Blocks):
    """return a if c else b -> if c: return a; return b"""

    def stmt(self, s):
        if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
            return [ast.If(s.value.test, [ast.Return(s.value.body)], []), ast.Return(s.value.orelse)]
        return s


class IfReturn(Blocks):
    """if c: return a; return b -> return a if c else b"""

    def block(self, b, owner, field):
        if len(b) >= 2 and isinstance(b[-1], ast.Return) and isinstance(b[-2], ast.If) and not b[-2].orelse and len(b[-2].body) == 1 and isinstance(b[-2].body[0], ast.Return) and \
                b[-1].value is not None and b[-2].body[0].value is not None:
            return b[:-2] + [ast.Return(ast.IfExp(b[-2].test, b[-2].body[0].value, b[-1].value))]
        return b


class AnyLoop(Blocks):
    """if any(e for x in X) / all(...) in a condition or return -> loop with a flag"""

    def stmt(self, s):
        e = s.test if isinstance(s, ast.If) else s.value if isinstance(s, (ast.Return, ast.Assign)) else None
        neg_ = isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)
        c = e.operand if neg_ else e
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("any", "all") and len(c.args) == 1 and isinstance(c.args[0], (ast.GeneratorExp, ast.ListComp)) and
                len(c.args[0].generators) == 1):
            return s
        g = c.args[0].generators[0]
        used = [x.id for f in self.fn for x in ast.walk(f) if isinstance(x, ast.Name)] + [p for f in self.fn for p in params(f)]
        inner = [x.id for x in ast.walk(c) if isinstance(x, ast.Name)]
        if any(used.count(n) != inner.count(n) for n in names(g.target)):
            return s
        v = self.fresh("flag")
        every = c.func.id == "all"
        test = neg(c.args[0].elt) if every else c.args[0].elt
        body = [ast.If(test, [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(not every)), ast.Break()], [])]
        for i in reversed(g.ifs):
            body = [ast.If(i, body, [])]
        pre = [ast.Assign([ast.Name(v, ast.Store())], ast.Constant(every)), ast.For(g.target, g.iter, body, [])]
        new = neg(ast.Name(v, ast.Load())) if neg_ else ast.Name(v, ast.Load())
        if isinstance(s, ast.If):
            s.test = new
        else:
            s.value = new
        return pre + [s]


class LenEmpty(Blocks):
    """len(x) == 0 -> not x;  len(x) > 0 -> bool(x) in conditions"""

    def stmt(self, s):
        if isinstance(s, (ast.If, ast.While)):
            s.test = self.cond(s.test)
        return s

    def cond(self, e):
        if isinstance(e, ast.BoolOp):
            e.values = [self.cond(v) for v in e.values]
        elif isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            e.operand = self.cond(e.operand)
        elif isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Call) and isinstance(e.left.func, ast.Name) and e.left.func.id == "len" and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value == 0:
            if isinstance(e.ops[0], ast.Eq):
                return ast.UnaryOp(ast.Not(), e.left.args[0]) if not isinstance(e.left.args[0], ast.Name) or True else e
            if isinstance(e.ops[0], (ast.Gt, ast.NotEq)):
                return e.left.args[0]
        return e


class NoElse(Blocks):
    """x = a; if c: x = b  <-  if c: x = b else: x = a (a simple)"""

    def stmt(self, s):
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and \
                ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], ast.Name) and simple(s.orelse[0].value) and s.body[0].targets[0].id not in names(s.test) + names(s.body[0].value):
            return [s.orelse[0], ast.If(s.test, s.body, [])]
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and simple(s.value.orelse) and s.targets[0].id not in names(s.value):
            return [ast.Assign(s.targets, s.value.orelse), ast.If(s.value.test, [ast.Assign(copy.deepcopy(s.targets), s.value.body)], [])]
        return s


class WhileIf(Blocks):
    """while c: -> while True: if not c: break"""

    def stmt(self, s):
        if isinstance(s, ast.While) and not s.orelse and not isinstance(s.test, ast.Constant):
            return ast.While(ast.Constant(True), [ast.If(neg(s.test), [ast.Break()], [])] + s.body, [])
        return s


class ImportMove(Blocks):
    """from m import f -> import at the place of use is not attempted; try/finally for with lock"""

    def stmt(self, s):
        if isinstance(s, ast.With) and len(s.items) == 1 and s.items[0].optional_vars is None and "lock" in ast.unparse(s.items[0].context_expr).lower():
            v = self.fresh("guard")
            L = ast.Load()
            return [ast.Assign([ast.Name(v, ast.Store())], s.items[0].context_expr), ast.With([ast.withitem(ast.Name(v, L), None)], s.body)]
        return s


class Reorder(Blocks):
    """Adjacent statements on different local names, without effects, are swapped."""

    def block(self, b, owner, field):
        k = 0

        def harmless(e):
            return all(isinstance(x, (ast.Constant, ast.Name, ast.Attribute, ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Subscript, ast.Tuple, ast.List, ast.Dict, ast.expr_context, ast.operator,
                                      ast.cmpop, ast.boolop, ast.unaryop)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("len", "dict", "list", "set", "isinstance", "min", "max", "str", "int")
                       for x in ast.walk(e))

        ok = lambda s: isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and harmless(s.value) and all(isinstance(t, ast.Name) for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))
        other = lambda s: isinstance(s, (ast.Assign, ast.AnnAssign, ast.Expr)) and s.value is not None and not any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.Attribute, ast.Subscript)) for x in ast.walk(s)) and \
            all(isinstance(t, ast.Name) for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []))
        while k + 1 < len(b):
            x, y = b[k], b[k + 1]
            if (ok(x) and (ok(y) or other(y)) or other(x) and ok(y)) and not isinstance(x.value, ast.Constant) | isinstance(y.value, ast.Constant):
                sx, sy = set(names(x, ast.Store)), set(names(y, ast.Store))
                if not (sx & set(names(y)) or sy & set(names(x))):
                    b[k], b[k + 1] = y, x
                    k += 1
            k += 1
        return b


class DictGet(Blocks):
    """d.get(k, default) as a value -> d[k] if k in d else default (k, d, default simple)"""

    def stmt(self, s):
        class T(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if isinstance(n.func, ast.Attribute) and n.func.attr == "get" and 1 <= len(n.args) <= 2 and not n.keywords and simple(n.func.value) and simple(n.args[0]) and (len(n.args) == 1 or simple(n.args[1])) and \
                        not isinstance(n.args[0], ast.Starred):
                    return ast.IfExp(ast.Compare(copy.deepcopy(n.args[0]), [ast.In()], [copy.deepcopy(n.func.value)]),
                                     ast.Subscript(n.func.value, n.args[0], ast.Load()), n.args[1] if len(n.args) == 2 else ast.Constant(None))
                return n
        if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and "queue" not in ast.unparse(s).lower() and "config" not in ast.unparse(s):
            return T().visit(s)
        return s



ALL = [Identity, Rename, Invert, GuardToElse, ElseToGuard, ReturnTemp, ArgTemp, CondTemp, CompLoop, ForWhile, IndexLoop, ItemsLoop, KeysLoop, WithAcquire, AugPlain, SplitAnd, DeMorgan, WhileTrue,
       IfExp, ToIfExp, Format, Flip, NotCompare, InToOr, SplitTuple, ReverseMethods, DoNothing, Logging, SwapAssign, TailHelper, TailHelper1, TailHelperLast, CondHelper, ValueHelper, BodyHelper, Keywords,
       Annotate, SelfAlias, TryElse, MergeWith, CallTemp, MidHelper, MidHelper1, LoopHelper, ModuleHelper, TailStatic, AttrAlias, ConstExtract, RenamePrivate, RenameField, YieldLoop, LoopYield, Walrus, ReturnIf,
       IfReturn, AnyLoop, LenEmpty, NoElse, WhileIf, ImportMove, Reorder, DictGet]


def write(cls, out, flt=""):
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(os.path.join(REPO, "mixtera"), os.path.join(out, "mixtera"), ignore=shutil.ignore_patterns("__pycache__"))
    for d, _, fs in os.walk(os.path.join(out, "mixtera")):
        if "/tests" in d:
            continue
        for f in fs:
            p = os.path.join(d, f)
            if f.endswith(".py") and flt in p:
                if hasattr(cls, "rename_all"):
                    continue
                src = open(p).read()
                t = cls().visit(ast.parse(src))
                ast.fix_missing_locations(t)
                new = ast.unparse(t)
                compile(new, p, "exec")
                open(p, "w").write(new + "\n")
    if hasattr(cls, "rename_all"):
        fs = [os.path.join(d, f) for d, _, x in os.walk(os.path.join(out, "mixtera")) for f in x if f.endswith(".py") and "/tests" not in d]
        trees = {p: ast.parse(open(p).read()) for p in fs}
        cls.rename_all(trees)
        for p, t in trees.items():
            open(p, "w").write(ast.unparse(t) + "\n")


def run(names_, flt=""):
    verif = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = sorted(f[1:-3] for f in os.listdir(os.path.join(verif, "mxlint", "checks")) if f[0] == "c" and f[1:3].isdigit())
    from concurrent.futures import ThreadPoolExecutor
    for c in ALL:
        if names_ and c.__name__ not in names_:
            continue
        out = tempfile.mkdtemp(prefix="mxref_")
        try:
            write(c, out, flt)

            def one(k):
                code = f"import sys; sys.path.insert(0, {verif!r}); import mxlint.core as m; m.EVID = {out + '/ev'!r}; sys.exit(m.run_check('C{k}'))"
                os.makedirs(out + "/ev", exist_ok=True)
                r = subprocess.run([sys.executable, "-c", code], capture_output=True, text=True, env={**os.environ, "MXLINT_REPO": out, "PYTHONDONTWRITEBYTECODE": "1"})
                return k, r.returncode, r.stdout + r.stderr

            with ThreadPoolExecutor(8) as ex:
                res = list(ex.map(one, ids))
            bad = [r for r in res if r[1]]
            und = [(k, l) for k, rc, o in res for l in o.splitlines() if l.startswith("UNDECIDED")]
            print(f"== {c.__name__}: {len(bad)} alarms, {len(und)} undecided parts", flush=True)
            for k, rc, o in bad:
                ls = [l for l in o.splitlines() if l.startswith("  [") or "Error" in l or l.startswith("ERROR")]
                print(f"   C{k} rc={rc}: " + " | ".join(x.strip()[:260] for x in ls[:3]) + (f" (+{len(ls) - 3})" if len(ls) > 3 else ""), flush=True)
            for k, l in und:
                print(f"   C{k} {l[:260]}", flush=True)
        finally:
            shutil.rmtree(out, ignore_errors=True)


if __name__ == "__main__":
    if sys.argv[1] == "--run":
        run(sys.argv[2:])
    else:
        write(globals()[sys.argv[1]], sys.argv[2], sys.argv[3] if len(sys.argv) > 3 else "")
