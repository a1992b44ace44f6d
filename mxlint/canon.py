"""A normal form of the source, computed before anything is analysed.

Every rewriting keeps what the program does (up to the order in which two side-effect-free expressions are evaluated):
the checks then see one way of writing things, and helpers extracted since the pinned tree are analysed inside their callers.
Positions of the original source are kept."""
import ast
import copy
import json
import os

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FUNC + (ast.Lambda, ast.ClassDef)
BASE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "baseline_funcs.json")
LOAD, STORE = ast.Load(), ast.Store()
PURE_CALLS = {"len", "isinstance", "range", "min", "max", "str", "int", "float", "bool", "tuple", "abs", "type", "repr", "hash", "id"}


def scope_walk(n):
    todo = list(ast.iter_child_nodes(n))
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, SCOPES):
            todo += list(ast.iter_child_nodes(x))


def at(new, old):
    """`new` where `old` was."""
    for x in ast.walk(new):
        if isinstance(x, (ast.expr, ast.stmt, ast.excepthandler, ast.arg, ast.keyword)) and not hasattr(x, "lineno"):
            ast.copy_location(x, old)
    return new


def is_name(e, n=None):
    return isinstance(e, ast.Name) and (n is None or e.id == n)


def is_const(e, v):
    return isinstance(e, ast.Constant) and type(e.value) is type(v) and e.value == v


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x]


def chain(e):
    """A name, or an attribute of one."""
    return isinstance(e, ast.Name) or isinstance(e, ast.Attribute) and chain(e.value)


def pure(e):
    """No side effects, and no call of unknown code."""
    if isinstance(e, (ast.Constant, ast.Name, ast.Lambda)):
        return True
    if isinstance(e, ast.Attribute):
        return pure(e.value)
    if isinstance(e, ast.Subscript):
        return pure(e.value) and pure(e.slice)
    if isinstance(e, (ast.BinOp,)):
        return pure(e.left) and pure(e.right)
    if isinstance(e, ast.UnaryOp):
        return pure(e.operand)
    if isinstance(e, ast.BoolOp):
        return all(pure(v) for v in e.values)
    if isinstance(e, ast.Compare):
        return pure(e.left) and all(pure(c) for c in e.comparators)
    if isinstance(e, ast.IfExp):
        return pure(e.test) and pure(e.body) and pure(e.orelse)
    if isinstance(e, ast.Tuple):
        return all(pure(v) for v in e.elts)
    if isinstance(e, ast.Slice):
        return all(x is None or pure(x) for x in (e.lower, e.upper, e.step))
    if isinstance(e, ast.Call):
        return is_name(e.func) and e.func.id in PURE_CALLS and all(pure(a) for a in e.args) and not e.keywords
    return False


FOUND, CLEAN, STOP = "found", "clean", "stop"


def seek(e, hit, ok):
    """Is the node for which hit() holds evaluated exactly once, before anything with an effect?  ok: what is moved there is pure."""
    def seq(es):
        for x in es:
            if x is None:
                continue
            r = seek(x, hit, ok)
            if r is not CLEAN:
                return r
        return CLEAN

    if hit(e):
        return FOUND
    if isinstance(e, (ast.Constant, ast.Name, ast.Lambda)):
        return CLEAN
    if isinstance(e, ast.Attribute):
        r = seek(e.value, hit, ok)
        return r if r is not CLEAN else CLEAN if ok or isinstance(e.ctx, ast.Store) else STOP
    if isinstance(e, ast.Subscript):
        r = seq([e.value if not chain(e.value) else None, e.slice])
        return r if r is not CLEAN else CLEAN if ok or isinstance(e.ctx, ast.Store) else STOP
    if isinstance(e, ast.Call):
        f = e.func
        if isinstance(f, ast.Attribute):
            r = seq([f.value]) if not chain(f.value) or hit(f.value) else CLEAN
        else:
            r = seq([f])
        if r is CLEAN:
            r = seq(list(e.args) + [k.value for k in e.keywords])
        return r if r is not CLEAN else CLEAN if pure(e) and ok else STOP
    if isinstance(e, (ast.BoolOp, ast.IfExp, ast.Compare)):
        parts = e.values if isinstance(e, ast.BoolOp) else [e.test, e.body, e.orelse] if isinstance(e, ast.IfExp) else [e.left] + e.comparators
        sure = 2 if isinstance(e, ast.Compare) else 1
        r = seq(parts[:sure])
        if r is not CLEAN:
            return r
        if isinstance(e, ast.IfExp):
            return FOUND if ok and FOUND in (seq([e.body]), seq([e.orelse])) else STOP if not pure(e) else CLEAN
        r = seq(parts[sure:])
        return STOP if r is FOUND and not ok else r
    if isinstance(e, ast.BinOp):
        return seq([e.left, e.right])
    if isinstance(e, ast.UnaryOp):
        return seq([e.operand])
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        return seq(e.elts)
    if isinstance(e, ast.Dict):
        return seq([x for k, v in zip(e.keys, e.values) for x in (k, v)])
    if isinstance(e, ast.JoinedStr):
        return seq(e.values)
    if isinstance(e, ast.FormattedValue):
        return seq([e.value, e.format_spec])
    if isinstance(e, ast.Slice):
        return seq([e.lower, e.upper, e.step])
    if isinstance(e, (ast.Starred, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)):
        r = seq([e.value])
        return r if r is not CLEAN or isinstance(e, ast.Starred) else STOP
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        r = seq([e.generators[0].iter])
        return r if r is FOUND else STOP
    return STOP


def entry(s):
    """The expressions a statement evaluates first, in order."""
    if isinstance(s, (ast.Expr, ast.Return)):
        return [s.value] if s.value is not None else []
    if isinstance(s, ast.Assign):
        return [s.value] + s.targets
    if isinstance(s, ast.AnnAssign):
        return [s.value, s.target] if s.value is not None else []
    if isinstance(s, ast.AugAssign):
        return [s.value] if is_name(s.target) else [ast.Attribute(ast.Name("_", LOAD), "_", LOAD), s.value]
    if isinstance(s, ast.If):
        return [s.test]
    if isinstance(s, (ast.For, ast.AsyncFor)):
        return [s.iter]
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return [s.items[0].context_expr]
    if isinstance(s, ast.Assert):
        return [s.test]
    if isinstance(s, ast.Raise):
        return [x for x in (s.exc, s.cause) if x is not None]
    return []


def first_evaluated(s, hit, ok):
    for e in entry(s):
        r = seek(e, hit, ok)
        if r is FOUND:
            return True
        if r is STOP:
            return False
    return False


class Replace(ast.NodeTransformer):
    def __init__(self, node, new):
        self.node, self.new = node, new

    def visit(self, n):
        if n is self.node:
            return self.new
        return self.generic_visit(n)


# ---------------------------------------------------------------------- expressions
NOT = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}
NOT_ORDER = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt}
MIRROR = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq, ast.Is: ast.Is, ast.IsNot: ast.IsNot}


def number(e):
    return isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) or isinstance(e, ast.Call) and is_name(e.func, "len") or \
        isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and number(e.operand)


def fixed(e):
    return isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant)


class Exprs(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        c = n.operand
        if isinstance(n.op, ast.Not):
            if isinstance(c, ast.Compare) and len(c.ops) == 1:
                t = NOT.get(type(c.ops[0]))
                if t is None and (number(c.left) or number(c.comparators[0])):
                    t = NOT_ORDER.get(type(c.ops[0]))
                if t is not None:
                    return ast.copy_location(ast.Compare(c.left, [t()], c.comparators), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and fixed(n.left) and not fixed(n.comparators[0]) and type(n.ops[0]) in MIRROR:
            return ast.copy_location(ast.Compare(n.comparators[0], [MIRROR[type(n.ops[0])]()], [n.left]), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and \
                not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
            r = self.formatted(f.value.value, n.args, {k.arg: k.value for k in n.keywords})
            if r is not None:
                return at(r, n)
        return n

    def visit_IfExp(self, n):
        self.generic_visit(n)
        t = n.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)):
            yes, no = (n.body, n.orelse) if isinstance(t.ops[0], ast.In) else (n.orelse, n.body)
            k, d = t.left, t.comparators[0]
            if chain(d) and pure(k) and pure(no) and isinstance(yes, ast.Subscript) and ast.dump(yes.value) == ast.dump(d) and ast.dump(yes.slice) == ast.dump(k):
                return at(ast.Call(ast.Attribute(d, "get", LOAD), [k] + ([] if isinstance(no, ast.Constant) and no.value is None else [no]), []), n)
        return n

    def formatted(self, text, args, kw):
        import string

        out, auto = [], 0
        try:
            for lit, field, spec, conv in string.Formatter().parse(text):
                if lit:
                    out.append(ast.Constant(lit))
                if field is None:
                    continue
                if field == "":
                    e, auto = args[auto], auto + 1
                elif field.isdigit():
                    e = args[int(field)]
                else:
                    e = kw[field]
                sp = ast.JoinedStr([ast.Constant(spec)]) if spec else None
                if spec and "{" in spec:
                    return None
                out.append(ast.FormattedValue(e, ord(conv) if conv else -1, sp))
        except (IndexError, KeyError, ValueError):
            return None
        return self.join(out)

    def join(self, parts):
        """Adjacent texts become one, formatted texts are spliced in."""
        out = []
        for p in parts:
            if isinstance(p, ast.FormattedValue) and p.conversion in (-1, 115) and p.format_spec is None:
                v = p.value
                if isinstance(v, ast.JoinedStr):
                    out += v.values
                    continue
                if isinstance(v, ast.Constant) and isinstance(v.value, str):
                    p = v
            out.append(p)
        res = []
        for p in out:
            if isinstance(p, ast.Constant) and res and isinstance(res[-1], ast.Constant):
                res[-1] = ast.copy_location(ast.Constant(res[-1].value + p.value), p)
            else:
                res.append(p)
        return ast.JoinedStr(res)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
            vals = n.right.elts if isinstance(n.right, ast.Tuple) else [n.right]
            bits = n.left.value.replace("%d", "%s").split("%s")
            if len(bits) == len(vals) + 1 and not any("%" in b for b in bits) and not (len(vals) == 1 and not isinstance(n.right, ast.Tuple) and isinstance(n.right, (ast.Dict, ast.Name))):
                out = []
                for k, b in enumerate(bits):
                    if b:
                        out.append(ast.Constant(b))
                    if k < len(vals):
                        out.append(ast.FormattedValue(vals[k], -1, None))
                return at(self.join(out), n)
        if isinstance(n.op, ast.Add):
            def part(x):
                if isinstance(x, ast.Constant) and isinstance(x.value, str):
                    return [x]
                if isinstance(x, ast.JoinedStr):
                    return list(x.values)
                if isinstance(x, ast.Call) and is_name(x.func, "str") and len(x.args) == 1 and not x.keywords:
                    return [ast.FormattedValue(x.args[0], -1, None)]
                return None
            a, b = part(n.left), part(n.right)
            if a is not None and b is not None and not (isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant)):
                return at(self.join(a + b), n)
        return n


# ---------------------------------------------------------------------- statements
def own_loop(body, kinds):
    """Statements of the given kinds that belong to the loop with this body."""
    todo = list(body)
    while todo:
        s = todo.pop()
        if isinstance(s, kinds):
            return True
        if isinstance(s, SCOPES):
            continue
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
            todo += s.orelse
            continue
        for f in ("body", "orelse", "finalbody", "handlers"):
            todo += [x for x in getattr(s, f, None) or [] if isinstance(x, (ast.stmt, ast.ExceptHandler))]
        if isinstance(s, ast.Match) if hasattr(ast, "Match") else False:
            todo += [x for c in s.cases for x in c.body]
    return False


class Uses:
    """How often the names of a function are stored and loaded."""

    def __init__(self, f):
        self.st, self.ld, self.hard = {}, {}, set(params(f)) if isinstance(f, FUNC) else set()
        for x in ast.walk(f):
            if isinstance(x, ast.Name):
                d = self.ld if isinstance(x.ctx, ast.Load) else self.st
                d[x.id] = d.get(x.id, 0) + 1
                if isinstance(x.ctx, ast.Del):
                    self.hard.add(x.id)
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                self.hard |= set(x.names)
            elif isinstance(x, FUNC + (ast.Lambda,)) and x is not f:
                self.hard |= set(params(x))
            elif isinstance(x, ast.ExceptHandler) and x.name:
                self.hard.add(x.name)


def load_count(nodes, n):
    return sum(1 for y in nodes for x in ast.walk(y) if is_name(x, n) and isinstance(x.ctx, ast.Load))


def store_count(nodes, n):
    return sum(1 for y in nodes for x in ast.walk(y) if is_name(x, n) and not isinstance(x.ctx, ast.Load))


def one_target(s):
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and is_name(s.targets[0]):
        return s.targets[0].id
    return None


class Stmts:
    def __init__(self, f, rules):
        self.f = f
        self.rules = rules
        self.changed = False

    def run(self):
        self.go(self.f)
        return self.changed

    def go(self, n):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for s in b:
                    if not isinstance(s, SCOPES):
                        self.go(s)
                setattr(n, f, self.block(b))
        for h in getattr(n, "handlers", None) or []:
            self.go(h)
        for c in getattr(n, "cases", None) or []:
            self.go(c)

    def block(self, b):
        for rule in [getattr(self, r) for r in self.rules]:
            while True:
                r = rule(b)
                if r is None:
                    break
                b, self.changed = r, True
        return b

    # a, b = x, y
    def split(self, b):
        for k, s in enumerate(b):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) and len(s.targets[0].elts) == len(s.value.elts):
                ts, es = s.targets[0].elts, s.value.elts
                if any(isinstance(x, ast.Starred) for x in ts + es) or not all(chain(t) for t in ts):
                    continue
                # an earlier target must not change what a later value reads
                if any(n.id in {t.id for t in ts[:j] if is_name(t)} for j, e in enumerate(es) for n in ast.walk(e) if is_name(n)):
                    continue
                if not all(is_name(t) for t in ts) and not all(pure(e) or isinstance(e, (ast.Dict, ast.List, ast.Set)) for e in es):
                    continue
                if any(ast.dump(x) .replace("Store()", "Load()") == ast.dump(t).replace("Store()", "Load()") for j, e in enumerate(es) for x in ast.walk(e) for t in ts[:j] if isinstance(x, ast.Attribute)):
                    continue
                b[k:k + 1] = [ast.copy_location(ast.Assign([t], e, None), s) for t, e in zip(ts, es) if not (is_name(t) and is_name(e, t.id))]
                return b or [ast.copy_location(ast.Pass(), s)]
        return None

    # v = p, where p is a parameter that is never set
    def copies(self, b):
        if not isinstance(self.f, FUNC) or not any(one_target(s) is not None and is_name(s.value) for s in b):
            return None
        u, ps = Uses(self.f), set(params(self.f))
        inner = {n for x in scope_walk(self.f) if isinstance(x, FUNC + (ast.Lambda,)) for n in params(x)}
        gone = {n for x in ast.walk(self.f) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        for k, s in enumerate(b):
            v = one_target(s)
            if v is None or not is_name(s.value) or s.value.id not in ps or len(b) == 1:
                continue
            p = s.value.id
            if p in u.st or u.st.get(v) != 1 or v in ps or {v, p} & (inner | gone) or v in u.hard:
                continue
            for x in ast.walk(self.f):
                if is_name(x, v):
                    x.id = p
            del b[k]
            return b
        return None

    # while True: if c: break; ...
    def while_true(self, b):
        for s in b:
            if isinstance(s, ast.While) and is_const(s.test, True) and not s.orelse and len(s.body) > 1:
                i = s.body[0]
                if isinstance(i, ast.If) and not i.orelse and len(i.body) == 1 and isinstance(i.body[0], ast.Break):
                    t = i.test.operand if isinstance(i.test, ast.UnaryOp) and isinstance(i.test.op, ast.Not) else Exprs().visit(at(ast.UnaryOp(ast.Not(), i.test), i.test))
                    s.test, s.body = t, s.body[1:]
                    return b
        return None

    # if c: x = a else: x = b
    def branches(self, b):
        for k, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign):
                x, y = s.body[0], s.orelse[0]
                if len(x.targets) == 1 and len(y.targets) == 1 and chain(x.targets[0]) and ast.dump(x.targets[0]) == ast.dump(y.targets[0]):
                    if any(isinstance(z, (ast.Yield, ast.YieldFrom, ast.Await)) for z in ast.walk(s)):
                        continue
                    b[k] = ast.copy_location(ast.Assign(x.targets, Exprs().visit(ast.copy_location(ast.IfExp(s.test, x.value, y.value), s)), None), s)
                    return b
        # x = a; if c: x = b
        for k in range(len(b) - 1):
            v, s = one_target(b[k]), b[k + 1]
            if v is None or not isinstance(s, ast.If) or s.orelse or len(s.body) != 1 or one_target(s.body[0]) != v:
                continue
            a, c, e = b[k].value, s.test, s.body[0].value
            if not (isinstance(a, ast.Constant) or pure(a) and pure(c)) or load_count([c, e], v) or any(isinstance(z, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for z in ast.walk(s)):
                continue
            b[k:k + 2] = [ast.copy_location(ast.Assign(s.body[0].targets, Exprs().visit(ast.copy_location(ast.IfExp(c, e, a), s)), None), s)]
            return b
        return None

    # it = iter(X); while True: try: v = next(it) except StopIteration: break; ...
    def iterate(self, b):
        for k in range(len(b) - 1):
            v, w = one_target(b[k]), b[k + 1]
            if v is None or not isinstance(w, ast.While) or not is_const(w.test, True) or w.orelse:
                continue
            c = b[k].value
            if not (isinstance(c, ast.Call) and is_name(c.func, "iter") and len(c.args) == 1 and not c.keywords):
                continue
            t = w.body[0]
            if not (isinstance(t, ast.Try) and len(t.body) == 1 and not t.finalbody and len(t.handlers) == 1 and is_name(t.handlers[0].type, "StopIteration")
                    and len(t.handlers[0].body) == 1 and isinstance(t.handlers[0].body[0], ast.Break)):
                continue
            a = t.body[0]
            if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Call) and is_name(a.value.func, "next") and len(a.value.args) == 1 and is_name(a.value.args[0], v)):
                continue
            if load_count([self.f], v) != 1 or store_count([self.f], v) != 1:
                continue
            body = t.orelse + w.body[1:]
            if not body:
                continue
            b[k:k + 2] = [ast.copy_location(ast.For(a.targets[0], c.args[0], body, [], None), w)]
            return b
        return None

    # n = -1; for x in X: n += 1; ...
    def count(self, b):
        for k in range(len(b) - 1):
            v, s = one_target(b[k]), b[k + 1]
            if v is None or not isinstance(s, ast.For) or s.orelse or len(s.body) < 2:
                continue
            try:
                n = ast.literal_eval(b[k].value)
            except ValueError:
                continue
            if type(n) is not int or v in Uses(self.f).hard:
                continue
            def inc(x):
                return isinstance(x, ast.AugAssign) and is_name(x.target, v) and isinstance(x.op, ast.Add) and is_const(x.value, 1)
            if inc(s.body[0]):
                n, body = n + 1, s.body[1:]
            elif inc(s.body[-1]) and not own_loop(s.body, ast.Continue):
                body = s.body[:-1]
            else:
                continue
            if store_count([self.f], v) != 2 or load_count([self.f], v) != load_count(body, v) or not load_count(body, v):
                continue
            if isinstance(s.iter, ast.Call) and is_name(s.iter.func, "enumerate"):
                continue
            tgt = v
            a = body[0]
            if one_target(a) is not None and is_name(a.value, v) and load_count(body, v) == 1 and store_count(s.body, one_target(a)) == 1:
                tgt, body = one_target(a), body[1:]
            if not body:
                continue
            call = ast.Call(ast.Name("enumerate", LOAD), [s.iter] + ([ast.Constant(n)] if n else []), [])
            s.target = at(ast.Tuple([ast.Name(tgt, STORE), s.target], STORE), s)
            s.iter, s.body = at(call, s.iter), body
            del b[k]
            return b
        return None

    # for i in range(len(X)): x = X[i]
    def index(self, b):
        for k, s in enumerate(b):
            if isinstance(s, ast.For) and is_name(s.target) and isinstance(s.iter, ast.Call) and is_name(s.iter.func, "range") and len(s.iter.args) == 1 and not s.iter.keywords:
                l = s.iter.args[0]
                if not (isinstance(l, ast.Call) and is_name(l.func, "len") and len(l.args) == 1 and chain(l.args[0])):
                    continue
                a, x = s.body[0], ast.dump(l.args[0])
                if len(s.body) > 1 and isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Subscript) and ast.dump(a.value.value) == x and is_name(a.value.slice, s.target.id):
                    if store_count(s.body, s.target.id) or is_name(l.args[0]) and store_count(s.body, l.args[0].id):
                        continue
                    s.target = at(ast.Tuple([s.target, a.targets[0]], STORE), s.target)
                    s.iter = at(ast.Call(ast.Name("enumerate", LOAD), [l.args[0]], []), s.iter)
                    s.body = s.body[1:]
                    return b
        for k in range(len(b) - 1):
            v, s = one_target(b[k]), b[k + 1]
            if v is None or not is_const(b[k].value, 0) or not isinstance(s, ast.While) or s.orelse or len(s.body) < 3:
                continue
            t = s.test
            if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and is_name(t.left, v)):
                continue
            l = t.comparators[0]
            if not (isinstance(l, ast.Call) and is_name(l.func, "len") and len(l.args) == 1 and chain(l.args[0])):
                continue
            a, z = s.body[0], s.body[-1]
            if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.value, ast.Subscript) and ast.dump(a.value.value) == ast.dump(l.args[0]) and is_name(a.value.slice, v)):
                continue
            if not (isinstance(z, ast.AugAssign) and is_name(z.target, v) and isinstance(z.op, ast.Add) and is_const(z.value, 1)) or own_loop(s.body, ast.Continue):
                continue
            if store_count([self.f], v) != 2 or load_count([self.f], v) != load_count([s], v):
                continue
            body = s.body[1:-1]
            if load_count(body, v):
                tg = ast.Tuple([ast.Name(v, STORE), a.targets[0]], STORE)
                it = ast.Call(ast.Name("enumerate", LOAD), [l.args[0]], [])
            else:
                tg, it = a.targets[0], l.args[0]
            b[k:k + 2] = [ast.copy_location(ast.For(at(tg, s), at(it, s), body, [], None), s)]
            return b
        return None

    # for k in d: v = d[k]
    def items(self, b):
        for s in b:
            if not (isinstance(s, ast.For) and is_name(s.target) and len(s.body) > 1):
                continue
            d = s.iter
            if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "keys" and not d.args:
                d = d.func.value
            if not chain(d):
                continue
            a = s.body[0]
            if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and is_name(a.targets[0]) and isinstance(a.value, ast.Subscript) and ast.dump(a.value.value) == ast.dump(d) and is_name(a.value.slice, s.target.id)):
                continue
            if is_name(d) and d.id == a.targets[0].id:
                continue
            if store_count(s.body[1:], s.target.id) or is_name(d) and store_count(s.body, d.id):
                continue
            s.target = at(ast.Tuple([s.target, a.targets[0]], STORE), s.target)
            s.iter = at(ast.Call(ast.Attribute(d, "items", LOAD), [], []), s.iter)
            s.body = s.body[1:]
            return b
        return None

    # x = []; for v in X: if c: x.append(e)
    def collect(self, b):
        for k in range(len(b) - 1):
            a, s = b[k], b[k + 1]
            v = one_target(a)
            if v is None and isinstance(a, ast.AnnAssign) and is_name(a.target) and a.value is not None:
                v = a.target.id
            if v is None or not isinstance(s, ast.For):
                continue
            e = a.value
            kind = "list" if isinstance(e, ast.List) and not e.elts or isinstance(e, ast.Call) and is_name(e.func, "list") and not e.args else \
                "dict" if isinstance(e, ast.Dict) and not e.keys or isinstance(e, ast.Call) and is_name(e.func, "dict") and not e.args and not e.keywords else \
                "set" if isinstance(e, ast.Call) and is_name(e.func, "set") and not e.args else None
            if kind is None:
                continue
            gens, cur = [], s
            while True:
                if isinstance(cur, ast.For) and not cur.orelse and len(cur.body) == 1:
                    gens.append(ast.comprehension(cur.target, cur.iter, [], 0))
                    cur = cur.body[0]
                elif isinstance(cur, ast.If) and gens and not cur.orelse and len(cur.body) == 1:
                    gens[-1].ifs.append(cur.test)
                    cur = cur.body[0]
                else:
                    break
            if not gens:
                continue
            if kind == "dict":
                if not (isinstance(cur, ast.Assign) and len(cur.targets) == 1 and isinstance(cur.targets[0], ast.Subscript) and is_name(cur.targets[0].value, v)):
                    continue
                comp = ast.DictComp(cur.targets[0].slice, cur.value, gens)
            else:
                c = cur.value if isinstance(cur, ast.Expr) else None
                if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and is_name(c.func.value, v) and c.func.attr == ("append" if kind == "list" else "add") and len(c.args) == 1
                        and not isinstance(c.args[0], ast.Starred)):
                    continue
                comp = ast.ListComp(c.args[0], gens) if kind == "list" else ast.SetComp(c.args[0], gens)
            if load_count([s], v) != 1 or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(s)):
                continue
            tg = {x.id for g in gens for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if any(not isinstance(x, (ast.Name, ast.Tuple, ast.expr_context)) for g in gens for x in ast.walk(g.target)):
                continue
            u = Uses(self.f)
            bad = False
            for n in tg:
                loops = [x for x in ast.walk(self.f) if isinstance(x, (ast.For, ast.comprehension)) and n in {y.id for y in ast.walk(x.target) if isinstance(y, ast.Name)}]
                inside = set()
                for x in loops:
                    for root in ([x] if isinstance(x, ast.For) else []):
                        inside |= {id(y) for y in ast.walk(root)}
                for x in ast.walk(self.f):
                    if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(g in loops for g in x.generators):
                        inside |= {id(y) for y in ast.walk(x)}
                if n in u.hard or any(is_name(x, n) and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(self.f)):
                    bad = True
            if bad:
                continue
            a.value = at(comp, s)
            del b[k + 1]
            return b
        return None

    # v = False; for x in X: if c: v = True; break
    def anyall(self, b):
        for k in range(len(b) - 1):
            a, s = b[k], b[k + 1]
            v = one_target(a)
            if v is not None and isinstance(a.value, ast.Constant) and type(a.value.value) is bool and isinstance(s, ast.For) and not s.orelse:
                start = a.value.value
                cur, ifs = s.body, []
                while len(cur) == 1 and isinstance(cur[0], ast.If) and not cur[0].orelse:
                    ifs.append(cur[0].test)
                    cur = cur[0].body
                if not ifs or not (len(cur) == 2 and isinstance(cur[1], ast.Break)) or one_target(cur[0]) != v or not is_const(cur[0].value, not start):
                    continue
                last, ret = 1, False
            elif isinstance(a, ast.For) and not a.orelse and isinstance(s, ast.Return) and isinstance(s.value, ast.Constant) and type(s.value.value) is bool:
                start, v = s.value.value, None
                cur, ifs, ret = a.body, [], True
                while len(cur) == 1 and isinstance(cur[0], ast.If) and not cur[0].orelse:
                    ifs.append(cur[0].test)
                    cur = cur[0].body
                if not ifs or len(cur) != 1 or not isinstance(cur[0], ast.Return) or cur[0].value is None or not is_const(cur[0].value, not start):
                    continue
                s = a
            else:
                continue
            if v is not None and load_count([s], v) or any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for x in ast.walk(s)):
                continue
            tg = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
            inside = {id(x) for x in ast.walk(s)}
            if not tg or any(isinstance(x, ast.Name) and x.id in tg and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in scope_walk(self.f)) or tg & Uses(self.f).hard:
                continue
            e = ifs[-1]
            if start:
                e = e.operand if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not) else Exprs().visit(at(ast.UnaryOp(ast.Not(), e), e))
            gen = ast.GeneratorExp(e, [ast.comprehension(s.target, s.iter, ifs[:-1], 0)])
            call = at(ast.Call(ast.Name("all" if start else "any", LOAD), [gen], []), s)
            if ret:
                b[k:k + 2] = [ast.copy_location(ast.Return(call), s)]
            else:
                a.value = call
                del b[k + 1]
            return b
        return None

    # return x if c else y
    def expand(self, b):
        for k, s in enumerate(b):
            if isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                v = s.value
                b[k:k + 1] = [ast.copy_location(ast.If(v.test, [ast.copy_location(ast.Return(v.body), v.body)], []), s), ast.copy_location(ast.Return(v.orelse), v.orelse)]
                return b
        return None

    # t = e; f(t)
    def temps(self, b):
        u = None
        for k in range(len(b) - 2, -1, -1):
            v, s = one_target(b[k]), b[k + 1]
            if v is None or isinstance(s, SCOPES):
                continue
            u = u or Uses(self.f)
            if u.st.get(v) != 1 or u.ld.get(v) != 1 or v in u.hard:
                continue
            e = b[k].value
            if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.NamedExpr)) for x in ast.walk(e)):
                continue
            use = next((x for x in ast.walk(s) if is_name(x, v)), None)
            if use is None or not first_evaluated(s, lambda x: x is use, pure(e)):
                continue
            b[k + 1] = Replace(use, e).visit(s)
            del b[k]
            return b
        return None


def self_name(tree):
    """The object a method belongs to is called self."""
    for c in ast.walk(tree):
        if not isinstance(c, ast.ClassDef):
            continue
        for f in c.body:
            if not isinstance(f, FUNC) or any(ast.unparse(d) in ("staticmethod", "classmethod") for d in f.decorator_list) or f.name in ("__new__", "__init_subclass__", "__class_getitem__"):
                continue
            ps = f.args.posonlyargs + f.args.args
            if not ps or ps[0].arg in ("self", "cls", "mcs") or any(is_name(x, "self") or isinstance(x, ast.arg) and x.arg == "self" for x in ast.walk(f)):
                continue
            old = ps[0].arg
            if any(isinstance(x, FUNC + (ast.Lambda,)) and x is not f and old in params(x) for x in ast.walk(f)) or any(is_name(x, old) and not isinstance(x.ctx, ast.Load) for x in ast.walk(f)):
                continue
            ps[0].arg = "self"
            for x in ast.walk(f):
                if is_name(x, old):
                    x.id = "self"


LOOPS = ("split", "copies", "while_true", "branches", "iterate", "count", "index", "items")


def tidy(tree):
    self_name(tree)
    Exprs().visit(tree)
    fs = [n for n in ast.walk(tree) if isinstance(n, FUNC)]
    for f in reversed(fs):
        for rules in (LOOPS, LOOPS + ("collect", "anyall", "temps")):
            for _ in range(6):
                if not Stmts(f, rules).run():
                    break


# ---------------------------------------------------------------------- helpers extracted since the pinned tree
def bag(f):
    """What a function's body mentions, to recognise it under another name."""
    out = {}
    for s in f.body:
        for x in ast.walk(s):
            w = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else x.value if isinstance(x, ast.Constant) and isinstance(x.value, (str, int)) and not (
                isinstance(s, ast.Expr) and s.value is x) else type(x).__name__ if isinstance(x, ast.stmt) else None
            if w is not None:
                w = str(w)[:40]
                out[w] = out.get(w, 0) + 1
    return out


def alike(a, b):
    n = sum(min(a.get(k, 0), b.get(k, 0)) for k in a)
    t = max(sum(a.values()), sum(b.values()))
    return n / t if t else 0.0


def declared(mod, tree):
    """(qualified name, function, class or None) of the functions and methods of a module."""
    for s in tree.body:
        if isinstance(s, FUNC):
            yield f"{mod}.{s.name}", s, None
        elif isinstance(s, ast.ClassDef):
            for x in s.body:
                if isinstance(x, FUNC):
                    yield f"{mod}.{s.name}.{x.name}", x, s


def make_baseline(trees):
    return {"funcs": {q: bag(f) for m, t in sorted(trees.items()) for q, f, c in declared(m, t)}, "fields": fields(trees),
            "consts": sorted(f"{m}.{n}" for m, t in trees.items() for n in constants(t)),
            "attrs": sorted({x.id for t in trees.values() for c in t.body if isinstance(c, ast.ClassDef) for s in c.body if isinstance(s, (ast.Assign, ast.AnnAssign)) for x in ast.walk(s) if is_name(x) and
                             isinstance(x.ctx, ast.Store)})}


def fields(trees):
    """Attributes set on self somewhere, and where they are used."""
    mine, prof = set(), {}
    for m, t in trees.items():
        for q, f, c in declared(m, t):
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute):
                    k = f"{q.split('.')[-2] if c is not None else ''}.{f.name}:{type(x.ctx).__name__}"
                    d = prof.setdefault(x.attr, {})
                    d[k] = d.get(k, 0) + 1
                    if isinstance(x.ctx, ast.Store) and is_name(x.value, "self"):
                        mine.add(x.attr)
    return {a: prof[a] for a in sorted(mine)}


def constants(t):
    """Names a module binds once, to a constant."""
    out, n = {}, {}
    for s in t.body:
        v = one_target(s)
        if v is None and isinstance(s, ast.AnnAssign) and is_name(s.target) and s.value is not None:
            v = s.target.id
        if v is not None:
            e = s.value
            if isinstance(e, ast.Constant) or isinstance(e, ast.UnaryOp) and isinstance(e.operand, ast.Constant) or isinstance(e, ast.Tuple) and e.elts and all(isinstance(x, ast.Constant) for x in e.elts) or \
                    isinstance(e, ast.BinOp) and isinstance(e.left, ast.Constant) and isinstance(e.right, ast.Constant) or \
                    isinstance(e, ast.Call) and is_name(e.func, "frozenset") and len(e.args) == 1 and isinstance(e.args[0], (ast.Tuple, ast.Set, ast.List)) and all(isinstance(x, ast.Constant) for x in e.args[0].elts):
                out[v] = e
    for x in ast.walk(t):
        if is_name(x) and not isinstance(x.ctx, ast.Load):
            n[x.id] = n.get(x.id, 0) + 1
        elif isinstance(x, ast.Global):
            for y in x.names:
                n[y] = n.get(y, 0) + 2
    return {v: e for v, e in out.items() if n.get(v) == 1}


class Constants(ast.NodeTransformer):
    """Constants that the pinned tree does not name are written where they are used."""

    def __init__(self, values, cls=None):
        self.values, self.hidden, self.cls = values, [], cls

    def visit_FunctionDef(self, n):
        loc = set(params(n)) | {x.id for x in ast.walk(n) if is_name(x) and not isinstance(x.ctx, ast.Load)}
        self.hidden.append(loc)
        self.generic_visit(n)
        self.hidden.pop()
        return n

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load) and n.id in self.values and not any(n.id in h for h in self.hidden):
            return ast.copy_location(copy.deepcopy(self.values[n.id]), n)
        return n


def new_constants(trees, base):
    known = set(base["consts"])
    for m, t in trees.items():
        vals = {n: e for n, e in constants(t).items() if f"{m}.{n}" not in known and not n.startswith("__")}
        # from other modules
        for s in t.body:
            if isinstance(s, ast.ImportFrom) and s.module in trees:
                for a in s.names:
                    o = constants(trees[s.module])
                    if a.name in o and f"{s.module}.{a.name}" not in known:
                        vals[a.asname or a.name] = o[a.name]
        # of classes
        for c in t.body:
            if not isinstance(c, ast.ClassDef) or any("Enum" in ast.unparse(b) for b in c.bases) or c.decorator_list:
                continue
            own = {n: e for n, e in constants(ast.Module(c.body, [])).items() if n not in base["attrs"]} if "attrs" in base else {}
            for n, e in own.items():
                stored = any(isinstance(x, ast.Attribute) and x.attr == n and not isinstance(x.ctx, ast.Load) for y in trees.values() for x in ast.walk(y))
                if not stored and n.startswith("_"):
                    for f in c.body:
                        if isinstance(f, FUNC):
                            ClassConstants(n, e, c.name).visit(f)
        if vals:
            T = Constants(vals)
            for s in t.body:
                if isinstance(s, FUNC + (ast.ClassDef,)):
                    T.visit(s)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None and one_target(s) not in vals:
                    s.value = T.visit(s.value)


class ClassConstants(ast.NodeTransformer):
    def __init__(self, name, value, cls):
        self.name, self.value, self.cls = name, value, cls

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if n.attr == self.name and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls", self.cls):
            return ast.copy_location(copy.deepcopy(self.value), n)
        return n


def rename_fields(trees, base):
    """Fields that only have another name get the old one back."""
    now, old = fields(trees), base["fields"]
    used = {x.attr for t in trees.values() for x in ast.walk(t) if isinstance(x, ast.Attribute)}
    lost = {a: p for a, p in old.items() if a not in used}
    new = {a: p for a, p in now.items() if a not in old}
    pairs = sorted(((alike(p, q), a, b) for a, p in lost.items() for b, q in new.items()), reverse=True)
    ren, taken = {}, set()
    for sc, a, b in pairs:
        if sc >= 0.6 and a not in taken and b not in ren:
            ren[b] = a
            taken.add(a)
    if ren:
        for t in trees.values():
            for x in ast.walk(t):
                if isinstance(x, ast.Attribute) and x.attr in ren:
                    x.attr = ren[x.attr]


def ends(body):
    """The block never falls through."""
    if not body:
        return False
    l = body[-1]
    if isinstance(l, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    if isinstance(l, ast.If):
        return bool(l.orelse) and ends(l.body) and ends(l.orelse)
    if isinstance(l, (ast.With, ast.AsyncWith)):
        return False
    if isinstance(l, ast.Try):
        return ends(l.finalbody) or (ends(l.orelse) if l.orelse else ends(l.body)) and all(ends(h.body) for h in l.handlers)
    if isinstance(l, ast.While):
        return is_const(l.test, True) and not own_loop(l.body, ast.Break)
    return False


def returns(stmts):
    return any(isinstance(x, ast.Return) for s in stmts if not isinstance(s, SCOPES) for x in [s] + list(scope_walk(s)))


class No(Exception):
    pass


def tail(stmts, sink, loop=False):
    """The statements with every return replaced by sink(value), in a way that then nothing else of them runs."""
    if not stmts:
        return sink(None)
    for k, s in enumerate(stmts):
        if isinstance(s, ast.Return):
            return stmts[:k] + [at(x, s) for x in sink(s.value)]
        if isinstance(s, (ast.Raise,)):
            return stmts[:k + 1]
        if isinstance(s, SCOPES) or not returns([s]):
            continue
        rest = stmts[k + 1:]
        if isinstance(s, ast.If):
            if ends(s.body) or not rest:
                body, orelse = tail(s.body, sink), tail(s.orelse + rest, sink)
            elif s.orelse and ends(s.orelse):
                body, orelse = tail(s.body + rest, sink), tail(s.orelse, sink)
            elif len(rest) <= 2:
                body, orelse = tail(s.body + copy.deepcopy(rest), sink), tail(s.orelse + rest, sink)
            else:
                raise No
            n = ast.copy_location(ast.If(s.test, body or [at(ast.Pass(), s)], orelse), s)
            return stmts[:k] + [n]
        if isinstance(s, (ast.With, ast.AsyncWith)):
            if rest and not (ends(s.body) and all(isinstance(x, ast.Raise) for x in rest)):
                if not ends(s.body):
                    raise No
            n = copy.copy(s)
            n.body = tail(s.body, sink)
            return stmts[:k] + [n]
        if isinstance(s, ast.Try):
            n = copy.copy(s)
            if returns(s.finalbody):
                raise No
            if not rest:
                if s.orelse:
                    if returns(s.body):
                        raise No
                    n.orelse = tail(s.orelse, sink)
                else:
                    n.body = tail(s.body, sink)
                n.handlers = []
                for h in s.handlers:
                    g = copy.copy(h)
                    g.body = tail(h.body, sink)
                    n.handlers.append(g)
                return stmts[:k] + [n]
            # what follows runs only when the body was left normally, or only after a handler
            if not returns(s.body) and not s.orelse and all(ends(h.body) for h in s.handlers) and s.handlers and not s.finalbody:
                n.handlers = []
                for h in s.handlers:
                    g = copy.copy(h)
                    g.body = tail(h.body, sink)
                    n.handlers.append(g)
                n.orelse = tail(rest, sink)
                return stmts[:k] + [n]
            if ends(s.body) and not s.orelse and not s.finalbody and not returns([y for h in s.handlers for y in h.body]):
                n.body = tail(s.body, sink)
                n.handlers = []
                for h in s.handlers:
                    g = copy.copy(h)
                    g.body = h.body if ends(h.body) else h.body + tail(copy.deepcopy(rest), sink)
                    n.handlers.append(g)
                return stmts[:k] + [n]
            raise No
        if isinstance(s, (ast.For, ast.While, ast.AsyncFor)) and not s.orelse and not own_loop(s.body, ast.Break):
            n = copy.copy(s)
            n.body = loop_returns(s.body, sink)
            if not (isinstance(s, ast.While) and is_const(s.test, True)):
                n.orelse = tail(rest, sink)
            return stmts[:k] + [n]
        raise No
    return stmts + sink(None)


def loop_returns(body, sink):
    out = []
    for s in body:
        if isinstance(s, ast.Return):
            return out + [at(x, s) for x in sink(s.value)] + [at(ast.Break(), s)]
        if isinstance(s, SCOPES) or not returns([s]):
            out.append(s)
            continue
        n = copy.copy(s)
        if isinstance(s, ast.If):
            n.body, n.orelse = loop_returns(s.body, sink), loop_returns(s.orelse, sink)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            n.body = loop_returns(s.body, sink)
        elif isinstance(s, ast.Try) and not returns(s.finalbody):
            n.body, n.orelse = loop_returns(s.body, sink), loop_returns(s.orelse, sink)
            n.handlers = []
            for h in s.handlers:
                g = copy.copy(h)
                g.body = loop_returns(h.body, sink)
                n.handlers.append(g)
        else:
            raise No
        out.append(n)
    return out


class Subst(ast.NodeTransformer):
    """Other expressions for parameters, other names for locals."""

    def __init__(self, values, names):
        self.values, self.names = values, names

    def visit_Name(self, n):
        if n.id in self.values:
            if isinstance(n.ctx, ast.Load):
                return copy.deepcopy(self.values[n.id])
            raise No
        if n.id in self.names:
            n.id = self.names[n.id]
        return n

    def visit_ExceptHandler(self, n):
        if n.name in self.names:
            n.name = self.names[n.name]
        return self.generic_visit(n)

    def scoped(self, n):
        if set(params(n)) & (set(self.values) | set(self.names)):
            raise No
        if isinstance(n, FUNC) and n.name in self.names:
            n.name = self.names[n.name]
        return self.generic_visit(n)

    visit_FunctionDef = visit_AsyncFunctionDef = visit_Lambda = scoped

    def visit_Global(self, n):
        raise No

    visit_Nonlocal = visit_Global


class Helper:
    def __init__(self, mod, node, cls):
        self.mod, self.node, self.cls = mod, node, cls
        self.name = node.name
        self.dec = [ast.unparse(d) for d in node.decorator_list]
        self.kind = "static" if "staticmethod" in self.dec else "class" if "classmethod" in self.dec else "property" if "property" in self.dec else "method" if cls is not None else "module"
        self.gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in scope_walk(node))
        self.is_async = isinstance(node, ast.AsyncFunctionDef)

    def usable(self):
        n = self.node
        if len(self.dec) > (self.kind in ("static", "class", "property")) or n.args.vararg or n.args.kwarg or self.is_async and self.gen:
            return False
        for x in ast.walk(n):
            if isinstance(x, (ast.Global, ast.Nonlocal)) or is_name(x) and x.id in ("__class__", "locals", "super"):
                return False
            if isinstance(x, ast.Attribute) and x.attr == self.name or isinstance(x, ast.Name) and x.id == self.name and self.kind == "module":
                return False
        return True

    def body(self):
        b = self.node.body
        if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str):
            b = b[1:]
        return copy.deepcopy(b)

    def expression(self):
        def value(b):
            if not b:
                return None
            if isinstance(b[0], ast.Return):
                return b[0].value
            if isinstance(b[0], ast.If) and (b[0].orelse or len(b) > 1):
                x, y = value(b[0].body), value(b[0].orelse or b[1:])
                if x is not None and y is not None and (not b[0].orelse or len(b) == 1) and len(b[0].body) == 1:
                    return ast.copy_location(ast.IfExp(b[0].test, x, y), b[0])
            return None
        return value(self.body())


class Inline:
    """Puts the bodies of helpers that the pinned tree does not have where they are called."""

    def __init__(self, trees, baseline):
        self.trees, self.baseline, self.n = trees, baseline, 0
        self.helpers, self.done = {}, []
        self.bases = {}
        for m, t in trees.items():
            for s in t.body:
                if isinstance(s, ast.ClassDef):
                    self.bases.setdefault(s.name, set()).update(x.id if isinstance(x, ast.Name) else x.attr for x in [b.value if isinstance(b, ast.Subscript) else b for b in s.bases]
                                                                if isinstance(x, (ast.Name, ast.Attribute)))

    def supers(self, c):
        out, todo = set(), [c]
        while todo:
            for b in self.bases.get(todo.pop(), ()):
                if b not in out:
                    out.add(b)
                    todo.append(b)
        return out

    def run(self):
        self.rename(self.index())
        here = self.index()
        new = [(m, f, c) for q, (m, f, c) in here.items() if q not in self.baseline and not (f.name.startswith("__") and f.name.endswith("__"))]
        known = {f.name for q, (m, f, c) in here.items() if q in self.baseline}
        for m, f, c in new:
            h = Helper(m, f, c)
            # a method that overrides, or is overridden by, another one is not a helper
            if c is not None:
                family = [x for x in self.bases if c.name in self.supers(x)] + list(self.supers(c.name))
                if any(q2.split(".")[-1] == f.name and q2.split(".")[-2] in family for q2 in here):
                    continue
            if h.usable():
                self.helpers.setdefault(f.name, []).append(h)
        if not self.helpers:
            return False
        for _ in range(6):
            self.changed = False
            for m, t in self.trees.items():
                for s in list(t.body):
                    if isinstance(s, FUNC):
                        self.function(m, None, s)
                    elif isinstance(s, ast.ClassDef):
                        for x in s.body:
                            if isinstance(x, FUNC):
                                self.function(m, s, x)
            if not self.changed:
                break
        gone = {h.node: h for h in self.done}
        used = set()
        for t in self.trees.values():
            todo = [(x, None) for x in t.body]
            while todo:
                x, c = todo.pop()
                if x in gone:
                    continue
                if isinstance(x, ast.ClassDef):
                    c = x.name
                n = x.attr if isinstance(x, ast.Attribute) else x.id if isinstance(x, ast.Name) else None
                if n in self.helpers:
                    own = isinstance(x, ast.Attribute) and c is not None and (isinstance(x.value, ast.Name) and x.value.id in ("self", "cls") or
                                                                              isinstance(x.value, ast.Call) and is_name(x.value.func, "super"))
                    for h in self.helpers[n]:
                        if not own or h.cls is None or h.cls.name == c or h.cls.name in self.supers(c) or c in self.supers(h.cls.name):
                            used.add(h.node)
                todo += [(y, c) for y in ast.iter_child_nodes(x)]
        for t in self.trees.values():
            t.body = [s for s in t.body if not (s in gone and s not in used)]
            for s in t.body:
                if isinstance(s, ast.ClassDef):
                    s.body = [x for x in s.body if not (x in gone and x not in used)] or [at(ast.Pass(), s)]
        return True

    def index(self):
        return {q: (m, f, c) for m, t in self.trees.items() for q, f, c in declared(m, t)}

    def rename(self, here):
        """Functions that only have another name get the old one back."""
        lost = [q for q in self.baseline if q not in here and not q.endswith("__")]
        for q in lost:
            scope = q.rsplit(".", 1)[0]
            cands = sorted(((alike(self.baseline[q], bag(f)), q2) for q2, (m, f, c) in here.items() if q2 not in self.baseline and q2.rsplit(".", 1)[0] == scope), reverse=True)
            if not cands or cands[0][0] < 0.6 or any(x.rsplit(".", 1)[1] == q.rsplit(".", 1)[1] for x in here):
                continue
            q2 = cands[0][1]
            old, new = q.rsplit(".", 1)[1], q2.rsplit(".", 1)[1]
            if any(x != q2 and x.rsplit(".", 1)[1] == new and x in self.baseline for x in here):
                continue
            for t in self.trees.values():
                for x in ast.walk(t):
                    if isinstance(x, ast.Attribute) and x.attr == new:
                        x.attr = old
                    elif isinstance(x, ast.Name) and x.id == new and scope in self.trees:
                        x.id = old
                    elif isinstance(x, ast.alias) and x.name == new and scope in self.trees:
                        x.name, x.asname = old, x.asname
                    elif isinstance(x, FUNC) and x.name == new:
                        x.name = old
            here = self.index()

    # -- one caller
    def function(self, mod, cls, f):
        self.mod, self.cls, self.f = mod, cls, f
        self.blocks(f, f)

    def resolve(self, e, awaited=False):
        """The helper an expression calls or reads, and the receiver."""
        call = e if isinstance(e, ast.Call) else None
        fn = call.func if call else e
        if isinstance(fn, ast.Name):
            if not call:
                return None
            for h in self.helpers.get(fn.id, ()):
                if h.kind == "module" and (h.mod == self.mod or self.imported(h, fn.id)):
                    return (h, None) if h.node is not self.f and h.is_async == awaited else None
            return None
        if not isinstance(fn, ast.Attribute) or fn.attr not in self.helpers:
            return None
        hs = [h for h in self.helpers[fn.attr] if h.kind != "module"]
        modules = [h for h in self.helpers[fn.attr] if h.kind == "module"]
        if modules and call and isinstance(fn.value, ast.Name):
            m = [h for h in modules if h.mod.split(".")[-1] == fn.value.id]
            if len(m) == 1:
                return (m[0], None) if m[0].node is not self.f and m[0].is_async == awaited else None
        r = fn.value
        own = self.cls.name if self.cls is not None else None
        pick = None
        if isinstance(r, ast.Name) and r.id in ("self", "cls") and own:
            fit = [h for h in hs if h.cls.name == own] or [h for h in hs if h.cls.name in self.supers(own)]
            pick = fit[0] if len(fit) == 1 else None
        elif isinstance(r, ast.Name) and r.id in self.bases:
            fit = [h for h in hs if h.cls.name == r.id]
            pick = fit[0] if len(fit) == 1 else None
            if pick is not None and pick.kind not in ("static", "class"):
                pick = None
        elif chain(r) and len(hs) == 1 and not fn.attr.startswith("_"):
            pick = hs[0]
        elif isinstance(r, ast.Call) and is_name(r.func, "type") and own and len(hs) == 1:
            pick = hs[0] if hs[0].kind == "static" else None
        elif chain(r) and len(hs) == 1:
            pick = hs[0]
        if pick is None or (pick.kind == "property") != (call is None) or pick.node is self.f or pick.is_async != awaited:
            return None
        return pick, r

    def imported(self, h, name):
        for s in self.trees[self.mod].body:
            if isinstance(s, ast.ImportFrom) and any((a.asname or a.name) == name for a in s.names):
                return True
        return any(isinstance(s, ast.ImportFrom) and any((a.asname or a.name) == name for a in s.names) for s in ast.walk(self.f))

    def fresh(self, n):
        self.n += 1
        return f"{n}__h{self.n}"

    def bind(self, h, call, recv, tailpos, one_expr=None, keep=()):
        """(statements that set the parameters, values for parameters, names for locals)"""
        a = h.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        given = {}
        pos = list(call.args) if isinstance(call, ast.Call) else []
        kws = {k.arg: k.value for k in call.keywords} if isinstance(call, ast.Call) else {}
        if any(isinstance(x, ast.Starred) for x in pos) or None in kws:
            raise No
        if h.kind in ("method", "property"):
            pos = [recv] + pos
        elif h.kind == "class":
            pos = [recv if isinstance(recv, ast.Name) and recv.id != "self" else at(ast.Call(ast.Name("type", LOAD), [recv], []), recv)] + pos
        if len(pos) > len(ps):
            raise No
        for p, v in zip(ps, pos):
            given[p] = v
        for k, v in kws.items():
            if k in given or k not in ps + [x.arg for x in a.kwonlyargs]:
                raise No
            given[k] = v
        for p, d in zip(ps[len(ps) - len(a.defaults):], a.defaults):
            given.setdefault(p, d)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                given.setdefault(p.arg, d)
        if set(given) != set(ps + [x.arg for x in a.kwonlyargs]):
            raise No
        u = Uses(h.node)
        here = {x.id for x in ast.walk(self.f) if isinstance(x, ast.Name)} | set(params(self.f))
        pre, vals, names = [], {}, {}
        for p in ps + [x.arg for x in a.kwonlyargs]:
            v = given[p]
            if p not in u.st and (isinstance(v, (ast.Name, ast.Constant)) or one_expr is not None and (pure(v) and chain(v) or u.ld.get(p, 0) == 1 and (pure(v) or seek(
                    one_expr, lambda x: is_name(x, p), False) is FOUND))):
                vals[p] = v
                continue
            if one_expr is not None and not (u.ld.get(p, 0) == 0 and pure(v)):
                if pure(v) and p not in u.st:
                    vals[p] = v
                    continue
                raise No
            if tailpos and is_name(v, p):
                names[p] = p
                continue
            t = p if p not in here else self.fresh(p)
            names[p] = t
            pre.append(at(ast.Assign([ast.Name(t, STORE)], v), call))
        bound = set(u.st) | {x.name for x in scope_walk(h.node) if isinstance(x, ast.ExceptHandler) and x.name} | {x.name for x in scope_walk(h.node) if isinstance(x, FUNC)}
        for n in bound - set(ps) - {x.arg for x in a.kwonlyargs}:
            if n in here and not tailpos and not (n in keep and not any(is_name(x, n) for v in given.values() for x in ast.walk(v))):
                names[n] = self.fresh(n)
        names = {k: v for k, v in names.items() if k != v}
        # what the helper takes from its module must mean the same here
        free = {x.id for x in ast.walk(h.node) if isinstance(x, ast.Name)} - bound - set(given)
        if h.mod != self.mod:
            self.bring(h, free)
        loc = set(Uses(self.f).st) | set(params(self.f))
        if (free - {"self", "cls"}) & loc:
            raise No
        return pre, vals, names

    def bring(self, h, free):
        def top(t):
            out = {}
            for s in ast.walk(ast.Module([x for x in t.body if not isinstance(x, SCOPES)], [])):
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    for a in s.names:
                        out[(a.asname or a.name).split(".")[0]] = ast.dump(s) if not isinstance(s, ast.ImportFrom) else f"{s.module}.{a.name}"
                elif isinstance(s, ast.Name) and isinstance(s.ctx, ast.Store):
                    out[s.id] = f"{h.mod}.{s.id}"
            for s in t.body:
                if isinstance(s, FUNC + (ast.ClassDef,)):
                    out[s.name] = None
            return out
        src, dst = top(self.trees[h.mod]), top(self.trees[self.mod])
        add = []
        for n in sorted(free):
            if n not in src:
                continue
            if n in dst:
                continue
            add.append(ast.ImportFrom(h.mod, [ast.alias(n, None)], 0))
        t = self.trees[self.mod]
        for x in add:
            at(x, t.body[0])
            x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = 1, 0, 1, 0
            k = 1 if isinstance(t.body[0], ast.Expr) else 0
            while k < len(t.body) and isinstance(t.body[k], ast.ImportFrom) and t.body[k].module == "__future__":
                k += 1
            t.body.insert(k, x)

    def splice(self, h, call, recv, sink, tailpos=False, keep=()):
        pre, vals, names = self.bind(h, call, recv, tailpos, keep=keep)
        body = [Subst(vals, names).visit(s) for s in h.body()]
        if sink is not None:
            body = tail(body, sink)
        self.took(h)
        return pre + body

    def took(self, h):
        self.changed = True
        if h not in self.done:
            self.done.append(h)

    def blocks(self, n, f):
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out = []
                for k, s in enumerate(b):
                    out += self.stmt(s, last=n is f and k == len(b) - 1 and fld == "body")
                setattr(n, fld, out)
        for h in getattr(n, "handlers", None) or []:
            self.blocks(h, f)
        for c in getattr(n, "cases", None) or []:
            self.blocks(c, f)

    def mentions(self, s):
        for x in ast.walk(s):
            if isinstance(x, ast.Attribute) and x.attr in self.helpers or isinstance(x, ast.Name) and x.id in self.helpers:
                return True
        return False

    def stmt(self, s, last=False):
        if isinstance(s, FUNC):
            outer = self.f
            self.f = s if False else outer
            self.blocks(s, s)
            return [s]
        if isinstance(s, ast.ClassDef):
            return [s]
        if not self.mentions(s):
            return [s]
        r = self.whole(s, last)
        if r is not None:
            return r
        # a call whose helper is one expression
        s = self.inside(s)
        # a call that is evaluated first in the statement
        for e in entry(s):
            for x in ast.walk(e):
                y = x.value if isinstance(x, (ast.Await, ast.YieldFrom)) else x
                if isinstance(x, ast.YieldFrom) and not isinstance(y, ast.Call):
                    continue
                r = self.resolve(y, isinstance(x, ast.Await))
                if r is None or r[0].gen != isinstance(x, ast.YieldFrom) or not first_evaluated(s, lambda z: z is x, False):
                    continue
                t = self.fresh("value")
                a = at(ast.Assign([ast.Name(t, STORE)], x), x)
                s2 = Replace(x, at(ast.Name(t, LOAD), x)).visit(s)
                pre = self.whole(a, False)
                if pre is None:
                    s = Replace(next(z for z in ast.walk(s2) if is_name(z, t)), x).visit(s2)
                    continue
                return pre + self.stmt(s2, last)
        if not isinstance(s, SCOPES):
            self.blocks(s, self.f)
        return [s]

    def whole(self, s, last):
        """A statement that is nothing but a call of a helper and what happens to its value."""
        v = s.value if isinstance(s, (ast.Expr, ast.Return, ast.Assign, ast.AnnAssign, ast.AugAssign)) else None
        if v is None:
            return None
        aw, yf = isinstance(v, ast.Await), isinstance(v, ast.YieldFrom)
        c = v.value if aw or yf else v
        r = self.resolve(c, aw)
        if r is None or r[0].gen != yf:
            return None
        h, recv = r
        caller_gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in scope_walk(self.f))
        if h.gen and not caller_gen:
            return None
        try:
            if isinstance(s, ast.Return):
                body = self.splice(h, c, recv, None, tailpos=True)
                if not ends(body) and not last:
                    body = body + [at(ast.Return(None), s)]
                return body
            if isinstance(s, ast.AugAssign) and not is_name(s.target):
                return None
            one = h.expression()

            def sink(e):
                if isinstance(s, ast.Expr):
                    return [] if e is None or pure(e) else [at(ast.Expr(e), s)]
                e = e if e is not None else at(ast.Constant(None), s)
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and is_name(s.targets[0]) and is_name(e, s.targets[0].id):
                    return []
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(e, ast.Tuple) and ast.dump(s.targets[0]).replace("Store()", "Load()") == ast.dump(e):
                    return []
                n = copy.deepcopy(s) if not isinstance(s, ast.Assign) else ast.copy_location(ast.Assign(copy.deepcopy(s.targets), None), s)
                n.value = e
                return [at(n, s)]

            if one is not None and not isinstance(s, ast.Expr):
                e = self.substitute(h, c, recv, one)
                if e is not None:
                    return sink(e)
            keep = {x.id for t in (s.targets if isinstance(s, ast.Assign) else [s.target] if isinstance(s, ast.AnnAssign) else []) for x in (t.elts if isinstance(t, ast.Tuple) else [t]) if is_name(x)}
            body = self.splice(h, c, recv, sink, keep=keep)
            return body or [at(ast.Pass(), s)]
        except No:
            return None

    def substitute(self, h, c, recv, one):
        try:
            pre, vals, names = self.bind(h, c, recv, False, one_expr=one)
            if pre:
                if not all(pure(p.value) for p in pre):
                    return None
            inner = {y.id for x in ast.walk(one) if isinstance(x, ast.comprehension) for y in ast.walk(x.target) if isinstance(y, ast.Name)}
            outer = {y.id for v in vals.values() for y in ast.walk(v) if isinstance(y, ast.Name)}
            names.update({n: self.fresh(n) for n in inner & outer})
            e = Subst(vals, names).visit(one)
            self.took(h)
            return e
        except No:
            return None

    def inside(self, s):
        """Calls anywhere in the expressions of a statement, of helpers that are one expression."""
        me = self

        class T(ast.NodeTransformer):
            def visit(self, n):
                if isinstance(n, ast.stmt) and n is not s:
                    return n
                if isinstance(n, ast.ExceptHandler) or type(n).__name__ == "match_case":
                    return n
                n = self.generic_visit(n)
                aw = isinstance(n, ast.Await)
                x = n.value if aw else n
                if isinstance(x, ast.Call) or isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and not aw:
                    r = me.resolve(x, aw)
                    if r is not None and not r[0].gen:
                        one = r[0].expression()
                        if one is not None:
                            e = me.substitute(r[0], x, r[1], one)
                            if e is not None:
                                return e
                return n

        return T().visit(s)


def final_fields(trees):
    """Attributes that are only ever set while their object is constructed."""
    out, bad = set(), set()
    for m, t in trees.items():
        for q, f, c in declared(m, t):
            own = c is not None and f.name == "__init__"
            for x in ast.walk(f):
                if isinstance(x, ast.Attribute) and not isinstance(x.ctx, ast.Load):
                    (out if own and is_name(x.value, "self") else bad).add(x.attr)
    props = {f.name for m, t in trees.items() for q, f, c in declared(m, t)}
    return out - bad - props


def aliases(tree, final):
    """v = self.field, where nothing sets the field again"""
    for f in ast.walk(tree):
        if not isinstance(f, FUNC) or f.name == "__init__" or not params(f) or params(f)[0] != "self":
            continue
        u = None
        for b in [getattr(x, n) for x in [f] + list(scope_walk(f)) for n in ("body", "orelse", "finalbody") if isinstance(getattr(x, n, None), list)]:
            for s in list(b):
                v = one_target(s) if isinstance(s, ast.stmt) else None
                if v is None or not isinstance(s.value, ast.Attribute) or not is_name(s.value.value, "self") or s.value.attr not in final or len(b) == 1:
                    continue
                u = u or Uses(f)
                if u.st.get(v) != 1 or v in u.hard or "self" in u.st or not u.ld.get(v):
                    continue
                Alias(v, s.value).visit(f)
                b.remove(s)


class Alias(ast.NodeTransformer):
    def __init__(self, v, e):
        self.v, self.e = v, e

    def visit_Name(self, n):
        if n.id == self.v and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.copy_location(copy.deepcopy(self.e), n), n)
        return n


def baseline():
    with open(BASE) as f:
        return json.load(f)


def canonicalise(trees, base=None):
    """trees: module name -> syntax tree; changed in place."""
    for t in trees.values():
        tidy(t)
    base = baseline() if base is None else base
    new_constants(trees, base)
    inl = Inline(trees, base["funcs"])
    inl.rename(inl.index())
    rename_fields(trees, base)
    final = final_fields(trees)
    for t in trees.values():
        aliases(t, final)
    if inl.run():
        for t in trees.values():
            ast.fix_missing_locations(t)
            tidy(t)
    for t in trees.values():
        ast.fix_missing_locations(t)
        for f in [n for n in ast.walk(t) if isinstance(n, FUNC)]:
            Stmts(f, ("expand",)).run()
