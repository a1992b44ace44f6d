"""Whole-project index: modules, classes, functions, imports and a light type inference.

Everything here is computed from the source text under REPO on every run; nothing is imported or executed.
"""
from __future__ import annotations

import ast
import os
import hashlib

from . import canon

REPO = os.environ.get("MXLINT_REPO", "/repo")
PKG = "mixtera"


class AnchorError(Exception):
    """A construct the rule is anchored in does not exist any more."""


class FuncInfo:
    __slots__ = ("name", "qual", "node", "module", "cls", "parent", "nested", "_locals", "_isgen", "_assigns")

    def __init__(self, name, qual, node, module, cls=None, parent=None):
        self.name, self.qual, self.node, self.module, self.cls, self.parent = name, qual, node, module, cls, parent
        self.nested = {}
        self._locals = None
        self._isgen = None
        self._assigns = None

    @property
    def loc(self):
        return f"{self.module.rel}:{self.node.lineno} ({self.qual.split(':')[-1]})"

    @property
    def is_async(self):
        return isinstance(self.node, ast.AsyncFunctionDef)

    @property
    def is_gen(self):
        if self._isgen is None:
            self._isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_scope(self.node))
        return self._isgen

    def decorators(self):
        if isinstance(self.node, ast.Lambda):
            return []
        return [dotted(d.func if isinstance(d, ast.Call) else d) for d in self.node.decorator_list]

    @property
    def is_static(self):
        return "staticmethod" in self.decorators()

    @property
    def is_classmethod(self):
        return "classmethod" in self.decorators()

    @property
    def is_property(self):
        return any(d in ("property", "functools.cached_property", "cached_property") for d in self.decorators())

    @property
    def is_contextmanager(self):
        return any(d and d.split(".")[-1] in ("contextmanager", "asynccontextmanager") for d in self.decorators())

    @property
    def is_abstract(self):
        return any(d and d.split(".")[-1] == "abstractmethod" for d in self.decorators())

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def all_params(self):
        a = self.node.args
        r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            r.append(a.vararg.arg)
        if a.kwarg:
            r.append(a.kwarg.arg)
        return r

    def defaults(self):
        """param -> default AST"""
        a = self.node.args
        pos = a.posonlyargs + a.args
        d = {}
        for p, v in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            d[p.arg] = v
        for p, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None:
                d[p.arg] = v
        return d

    def annotation(self, p):
        a = self.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == p:
                return x.annotation
        return None

    def local_names(self):
        if self._locals is None:
            names = set(self.all_params())
            nonlocal_ = set()
            for n in walk_scope(self.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    names.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    names.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names:
                        names.add((al.asname or al.name).split(".")[0])
                elif isinstance(n, (ast.Global, ast.Nonlocal)):
                    nonlocal_.update(n.names)
                elif isinstance(n, ast.MatchAs) and n.name:
                    names.add(n.name)
                elif isinstance(n, ast.MatchStar) and n.name:
                    names.add(n.name)
            self._locals = names - nonlocal_
        return self._locals

    def assigns(self):
        """local name -> list of value ASTs assigned to it (plain assignments only)."""
        if self._assigns is None:
            d = {}
            for n in walk_scope(self.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name):
                            d.setdefault(t.id, []).append(n.value)
                elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    d.setdefault(n.target.id, []).append(("ann", n.annotation))
                elif isinstance(n, ast.NamedExpr) and isinstance(n.target, ast.Name):
                    d.setdefault(n.target.id, []).append(n.value)
                elif isinstance(n, (ast.For, ast.AsyncFor, ast.comprehension)):
                    d_iter(n.target, n.iter, d)
                elif isinstance(n, (ast.With, ast.AsyncWith)):
                    for it in n.items:
                        if isinstance(it.optional_vars, ast.Name):
                            d.setdefault(it.optional_vars.id, []).append(("with", it.context_expr))
            self._assigns = d
        return self._assigns

    def __repr__(self):
        return f"<F {self.qual}>"


def d_iter(target, it, d):
    if isinstance(target, ast.Name):
        d.setdefault(target.id, []).append(("iter", it))
    elif isinstance(target, ast.Tuple):
        for i, e in enumerate(target.elts):
            if isinstance(e, ast.Name):
                d.setdefault(e.id, []).append(("iteritem", it, i))


def walk_scope(fn):
    """Walk the nodes of a function body without entering nested function/class scopes (their nodes are yielded, their bodies are not)."""
    body = [fn.body] if isinstance(fn, ast.Lambda) else list(fn.body)
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            if not isinstance(n, ast.Lambda):
                stack.extend(n.decorator_list)
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        b = dotted(e.value)
        return f"{b}.{e.attr}" if b else None
    return None


class ClassInfo:
    def __init__(self, name, qual, node, module):
        self.name, self.qual, self.node, self.module = name, qual, node, module
        self.methods = {}
        self.class_attrs = {}  # name -> (value ast or None, annotation or None)
        self.bases = []  # resolved lazily
        self.base_exprs = node.bases
        self._mro = None
        self._fields = None

    def __repr__(self):
        return f"<C {self.qual}>"


class ModuleInfo:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.ns = {}  # name -> ('func',F)|('class',C)|('import',module,attr|None)|('const',ast)
        self.is_pkg = path.endswith("__init__.py")

    @property
    def rel(self):
        return os.path.relpath(self.path, REPO)


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.classes = {}  # simple name -> [ClassInfo]
        self.funcs = {}  # qual -> FuncInfo
        self._load()
        self._subs = None
        self._tcache = {}

    # ---------------------------------------------------------------- loading
    def _load(self):
        root = os.path.join(self.repo, PKG)
        for dp, dn, fn in os.walk(root):
            dn[:] = sorted(d for d in dn if d not in ("tests", "__pycache__", "node_modules"))
            for f in sorted(fn):
                if not f.endswith(".py"):
                    continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.repo)[:-3].replace(os.sep, ".")
                if rel.endswith(".__init__"):
                    rel = rel[: -len(".__init__")]
                src = open(path, encoding="utf-8").read()
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnchorError(f"cannot parse {path}: {e}")
                m = ModuleInfo(rel, path, tree, src)
                self.modules[rel] = m
        if not os.environ.get("MXLINT_RAW"):
            canon.canonicalise({n: m.tree for n, m in self.modules.items()})
        for m in self.modules.values():
            self._index_module(m)

    def _index_module(self, m):
        def visit(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.ns[s.name] = ("func", self._mkfunc(s, m, None, None, m.name))
                elif isinstance(s, ast.ClassDef):
                    c = ClassInfo(s.name, f"{m.name}.{s.name}", s, m)
                    m.ns[s.name] = ("class", c)
                    self.classes.setdefault(s.name, []).append(c)
                    for b in s.body:
                        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            f = self._mkfunc(b, m, c, None, c.qual)
                            if any(d and (d.endswith(".setter") or d.endswith(".deleter")) for d in f.decorators()):
                                continue
                            c.methods[b.name] = f
                        elif isinstance(b, ast.Assign):
                            for t in b.targets:
                                if isinstance(t, ast.Name):
                                    c.class_attrs[t.id] = (b.value, None)
                        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name):
                            c.class_attrs[b.target.id] = (b.value, b.annotation)
                elif isinstance(s, ast.Import):
                    for al in s.names:
                        if al.asname:
                            m.ns[al.asname] = ("import", al.name, None)
                        else:
                            m.ns[al.name.split(".")[0]] = ("import", al.name.split(".")[0], None)
                elif isinstance(s, ast.ImportFrom):
                    base = s.module or ""
                    if s.level:
                        parts = m.name.split(".")
                        if not m.is_pkg:
                            parts = parts[:-1]
                        parts = parts[: len(parts) - (s.level - 1)]
                        base = ".".join(parts + ([s.module] if s.module else []))
                    for al in s.names:
                        m.ns[al.asname or al.name] = ("import", base, al.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.ns.setdefault(t.id, ("const", s.value))
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                    m.ns.setdefault(s.target.id, ("const", s.value))
                elif isinstance(s, ast.If):
                    visit(s.body)
                    visit(s.orelse)
                elif isinstance(s, ast.Try):
                    visit(s.body)
                    for h in s.handlers:
                        visit(h.body)
                    visit(s.orelse)
                    visit(s.finalbody)

        visit(m.tree.body)

    def _mkfunc(self, node, m, cls, parent, prefix):
        f = FuncInfo(node.name, f"{prefix}.{node.name}", node, m, cls, parent)
        self.funcs[f.qual] = f
        for n in walk_scope(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f.nested[n.name] = self._mkfunc(n, m, cls if parent is None else cls, f, f.qual)
        return f

    # ---------------------------------------------------------------- lookup
    def cls(self, name):
        c = self.classes.get(name)
        if not c:
            raise AnchorError(f"class {name} not found")
        if len(c) > 1:
            c = [x for x in c if not x.module.name.startswith("mixtera.tests")]
        return c[0]

    def has_cls(self, name):
        return bool(self.classes.get(name))

    def module(self, name):
        if name not in self.modules:
            raise AnchorError(f"module {name} not found")
        return self.modules[name]

    def method(self, cls, name, required=True):
        c = self.cls(cls) if isinstance(cls, str) else cls
        f = self.find_method(c, name)
        if f is None and required:
            raise AnchorError(f"method {c.name}.{name} not found")
        return f

    def func(self, name, module=None, required=True):
        """Module-level function by simple name (unique in the project) or module+name."""
        cands = [f for f in self.funcs.values() if f.name == name and f.cls is None and f.parent is None
                 and (module is None or f.module.name == module)]
        if not cands and module is not None:
            r = self.resolve(self.modules.get(module), name) if module in self.modules else None
            if r and r[0] == "func":
                return r[1]
            cands = [f for f in self.funcs.values() if f.name == name and f.cls is None and f.parent is None]
        if not cands:
            if required:
                raise AnchorError(f"function {name} not found")
            return None
        return cands[0]

    def resolve(self, m, name, seen=None):
        """Resolve a module-level name to ('func',F)|('class',C)|('module',M)|('const',ast,M)|('ext',dotted)|None"""
        if m is None:
            return None
        seen = seen or set()
        if (m.name, name) in seen:
            return None
        seen.add((m.name, name))
        e = m.ns.get(name)
        if e is None:
            sub = self.modules.get(f"{m.name}.{name}")
            return ("module", sub) if sub else None
        if e[0] in ("func", "class"):
            return e
        if e[0] == "const":
            return ("const", e[1], m)
        _, mod, attr = e
        if attr is None:
            if mod in self.modules:
                return ("module", self.modules[mod])
            return ("ext", mod)
        if mod in self.modules:
            r = self.resolve(self.modules[mod], attr, seen)
            if r:
                return r
            sub = self.modules.get(f"{mod}.{attr}")
            if sub:
                return ("module", sub)
            return ("ext", f"{mod}.{attr}")
        return ("ext", f"{mod}.{attr}")

    def mro(self, c):
        if c._mro is None:
            c._mro = [c]
            for b in c.base_exprs:
                d = dotted(b.value if isinstance(b, ast.Subscript) else b)
                r = self.resolve_dotted(c.module, d) if d else None
                if r and r[0] == "class":
                    for x in self.mro(r[1]):
                        if x not in c._mro:
                            c._mro.append(x)
        return c._mro

    def ext_bases(self, c):
        res = []
        for k in self.mro(c):
            for b in k.base_exprs:
                d = dotted(b.value if isinstance(b, ast.Subscript) else b)
                r = self.resolve_dotted(k.module, d) if d else None
                if r is None or r[0] == "ext":
                    res.append(r[1] if r else d)
        return res

    def resolve_dotted(self, m, d):
        parts = d.split(".")
        r = self.resolve(m, parts[0])
        for i, p in enumerate(parts[1:], 1):
            if r is None:
                return None
            if r[0] == "module":
                r = self.resolve(r[1], p)
            elif r[0] == "class":
                f = self.find_method(r[1], p)
                if f:
                    r = ("func", f)
                else:
                    return ("classattr", r[1], p)
            elif r[0] == "ext":
                r = ("ext", r[1] + "." + p)
            else:
                return None
        return r

    def find_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def find_after(self, c, owner, name):
        """super() lookup: method `name` in the MRO of c after class owner."""
        mro = self.mro(c)
        i = mro.index(owner) if owner in mro else 0
        for k in mro[i + 1:]:
            if name in k.methods:
                return k.methods[name]
        return None

    def subclasses(self, c, strict=True):
        if self._subs is None:
            self._subs = {}
            for cl in self.classes.values():
                for k in cl:
                    for b in self.mro(k)[1:]:
                        self._subs.setdefault(b.qual, []).append(k)
        r = list(self._subs.get(c.qual, []))
        return r if strict else [c] + r

    def is_enum(self, c):
        return any(b and b.split(".")[-1] in ("Enum", "IntEnum", "StrEnum", "Flag") for b in self.ext_bases(c))

    def enum_members(self, c):
        return {n: v for n, (v, a) in c.class_attrs.items() if v is not None}

    # ---------------------------------------------------------------- types
    # Types: ('inst',C) ('type',C) ('list',T) ('dict',K,V) ('tuple',[T]) ('ext',dotted) None
    def ann_type(self, a, m, cls=None):
        if a is None:
            return None
        if isinstance(a, ast.Constant):
            if isinstance(a.value, str):
                try:
                    return self.ann_type(ast.parse(a.value, mode="eval").body, m, cls)
                except SyntaxError:
                    return None
            return None
        if isinstance(a, ast.BinOp) and isinstance(a.op, ast.BitOr):
            l = self.ann_type(a.left, m, cls)
            r = self.ann_type(a.right, m, cls)
            return l or r
        if isinstance(a, ast.Subscript):
            b = dotted(a.value)
            b = b.split(".")[-1] if b else None
            args = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if b in ("Optional", "Final", "ClassVar"):
                return self.ann_type(args[0], m, cls)
            if b == "Union":
                for x in args:
                    t = self.ann_type(x, m, cls)
                    if t:
                        return t
                return None
            if b in ("Type", "type"):
                t = self.ann_type(args[0], m, cls)
                return ("type", t[1]) if t and t[0] == "inst" else None
            if b in ("list", "List", "set", "Set", "Iterable", "Iterator", "Generator", "Sequence", "deque", "frozenset"):
                return ("list", self.ann_type(args[0], m, cls))
            if b in ("dict", "Dict", "defaultdict", "Mapping", "MutableMapping", "OrderedDict", "SortedDict"):
                if len(args) == 2:
                    return ("dict", self.ann_type(args[0], m, cls), self.ann_type(args[1], m, cls))
                return ("dict", None, None)
            if b in ("tuple", "Tuple"):
                return ("tuple", [self.ann_type(x, m, cls) for x in args])
            if b in ("Callable", "Literal"):
                return None
            return self.ann_type(a.value, m, cls)
        d = dotted(a)
        if d is None:
            return None
        if d.split(".")[-1] in ("Self",) and cls is not None:
            return ("inst", cls)
        r = self.resolve_dotted(m, d)
        if r and r[0] == "class":
            return ("inst", r[1])
        if r and r[0] == "const":
            return self.ann_type(r[1], r[2], cls)
        if d in ("int", "str", "float", "bool", "bytes"):
            return ("ext", d)
        if r and r[0] == "ext":
            return ("ext", r[1])
        return None

    def field_type(self, c, name):
        key = (c.qual, name)
        if key in self._tcache:
            return self._tcache[key]
        self._tcache[key] = None
        t = None
        for k in self.mro(c):
            if name in k.class_attrs:
                v, a = k.class_attrs[name]
                t = self.ann_type(a, k.module, k) if a is not None else (
                    self.expr_type(v, None, k.module, k) if v is not None else None)
                if t:
                    break
            for f in sorted(k.methods.values(), key=lambda f: f.name != "__init__"):
                if f.is_static:
                    continue
                ps = f.params()
                selfname = ps[0] if ps else "self"
                for n in walk_scope(f.node):
                    tgt, val, ann = None, None, None
                    if isinstance(n, ast.Assign) and len(n.targets) == 1:
                        tgt, val = n.targets[0], n.value
                    elif isinstance(n, ast.AnnAssign):
                        tgt, val, ann = n.target, n.value, n.annotation
                    if (isinstance(tgt, ast.Attribute) and tgt.attr == name and isinstance(tgt.value, ast.Name)
                            and tgt.value.id == selfname):
                        t = self.ann_type(ann, k.module, k) if ann is not None else None
                        if t is None and val is not None:
                            t = self.expr_type(val, f, k.module, c)
                        if t:
                            break
                if t:
                    break
            if t:
                break
        if t is None or t == ("dict", None, None) or t == ("list", None):
            t = self._put_type(c, name) or t
        self._tcache[key] = t
        return t

    def _put_type(self, c, name):
        """Type of a container field without annotation, from what is put into it."""
        for k in self.mro(c):
            for f in k.methods.values():
                ps = f.params()
                if f.is_static or not ps:
                    continue
                mine = lambda e: isinstance(e, ast.Attribute) and e.attr == name and isinstance(e.value, ast.Name) and e.value.id == ps[0]
                for n in walk_scope(f.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Subscript) and mine(n.targets[0].value):
                        v = self.expr_type(n.value, f, k.module, c)
                        if v is None and isinstance(n.value, ast.Tuple):
                            v = ("tuple", [self.expr_type(x, f, k.module, c) for x in n.value.elts])
                        if v is not None:
                            return ("dict", None, v)
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "add") and mine(n.func.value) and len(n.args) == 1:
                        v = self.expr_type(n.args[0], f, k.module, c)
                        if v is not None:
                            return ("list", v)
        return None

    def expr_type(self, e, f, m, cls, depth=0):
        """AST-based, flow-insensitive type of expression e inside function f (may be None) of module m, self class cls."""
        if e is None or depth > 12:
            return None
        if isinstance(e, ast.Await):
            return self.expr_type(e.value, f, m, cls, depth + 1)
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.local_names():
                    ps = g.params()
                    if g.cls is not None and g.parent is None and ps and e.id == ps[0] and not g.is_static:
                        return ("type", cls or g.cls) if g.is_classmethod else ("inst", cls or g.cls)
                    a = g.annotation(e.id)
                    if a is not None:
                        return self.ann_type(a, m, cls)
                    for v in g.assigns().get(e.id, []):
                        t = None
                        if isinstance(v, tuple):
                            if v[0] == "ann":
                                t = self.ann_type(v[1], m, cls)
                            elif v[0] == "with":
                                t = None
                            else:
                                t = self._elem_type(v[1], g, m, cls, depth + 1, v[2] if v[0] == "iteritem" else None)
                        else:
                            if isinstance(v, ast.Name) and v.id == e.id:
                                continue
                            t = self.expr_type(v, g, m, cls, depth + 1)
                        if t:
                            return t
                    return None
                g = g.parent
            r = self.resolve(m, e.id)
            if r and r[0] == "class":
                return ("type", r[1])
            if r and r[0] == "const":
                return self.expr_type(r[1], None, r[2], None, depth + 1)
            return None
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d and not self._is_local(d.split(".")[0], f):
                r = self.resolve_dotted(m, d)
                if r and r[0] == "class":
                    return ("type", r[1])
                if r and r[0] == "classattr" and self.is_enum(r[1]):
                    return ("inst", r[1])
            bt = self.expr_type(e.value, f, m, cls, depth + 1)
            if bt and bt[0] in ("inst", "type"):
                p = self.find_method(bt[1], e.attr)
                if p is not None and p.is_property:
                    return self.ann_type(p.node.returns, p.module, bt[1])
                return self.field_type(bt[1], e.attr)
            return None
        if isinstance(e, ast.Call):
            fn = e.func
            if isinstance(fn, ast.Name):
                if fn.id == "cast" and len(e.args) == 2:
                    return self.ann_type(e.args[0], m, cls)
                if fn.id == "super":
                    return None
                if fn.id in ("deepcopy", "copy", "sorted", "list", "iter") and e.args:
                    return self.expr_type(e.args[0], f, m, cls, depth + 1)
                ft = self.expr_type(fn, f, m, cls, depth + 1)
                if ft and ft[0] == "type":
                    return ("inst", ft[1])
                g = f
                while g is not None:
                    if fn.id in g.nested:
                        return self.ann_type(g.nested[fn.id].node.returns, m, cls)
                    g = g.parent
                r = self.resolve(m, fn.id)
                if r and r[0] == "func":
                    return self.ann_type(r[1].node.returns, r[1].module, None)
                return None
            if isinstance(fn, ast.Attribute):
                d = dotted(fn)
                if d in ("copy.deepcopy", "copy.copy") and e.args:
                    return self.expr_type(e.args[0], f, m, cls, depth + 1)
                if d == "typing.cast" and len(e.args) == 2:
                    return self.ann_type(e.args[0], m, cls)
                tgt = self.resolve_callee(e, f, m, cls, depth + 1)
                if tgt and tgt[0] == "func":
                    rcls = tgt[2] or tgt[1].cls
                    return self.ann_type(tgt[1].node.returns, tgt[1].module, rcls)
                if tgt and tgt[0] == "class":
                    return ("inst", tgt[1])
                bt = self.expr_type(fn.value, f, m, cls, depth + 1)
                if bt and bt[0] == "dict":
                    if fn.attr in ("get", "pop", "setdefault"):
                        return bt[2]
                    if fn.attr == "values":
                        return ("list", bt[2])
                    if fn.attr == "keys":
                        return ("list", bt[1])
                    if fn.attr == "items":
                        return ("list", ("tuple", [bt[1], bt[2]]))
                    if fn.attr == "copy":
                        return bt
                if bt and bt[0] == "list" and fn.attr in ("pop", "popleft"):
                    return bt[1]
            return None
        if isinstance(e, ast.Subscript):
            bt = self.expr_type(e.value, f, m, cls, depth + 1)
            if bt and bt[0] == "list":
                return bt if isinstance(e.slice, ast.Slice) else bt[1]
            if bt and bt[0] == "dict":
                return bt[2]
            if bt and bt[0] == "tuple" and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                try:
                    return bt[1][e.slice.value]
                except IndexError:
                    return None
            return None
        if isinstance(e, ast.IfExp):
            return self.expr_type(e.body, f, m, cls, depth + 1) or self.expr_type(e.orelse, f, m, cls, depth + 1)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                t = self.expr_type(v, f, m, cls, depth + 1)
                if t:
                    return t
            return None
        if isinstance(e, ast.NamedExpr):
            return self.expr_type(e.value, f, m, cls, depth + 1)
        return None

    def _elem_type(self, it, f, m, cls, depth, idx):
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args:
            if idx == 1:
                return self._elem_type(it.args[0], f, m, cls, depth + 1, None)
            return None
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip" and idx is not None \
                and idx < len(it.args):
            return self._elem_type(it.args[idx], f, m, cls, depth + 1, None)
        t = self.expr_type(it, f, m, cls, depth + 1)
        if t is None:
            return None
        el = t[1] if t[0] in ("list", "dict") else None
        if idx is not None:
            return el[1][idx] if el and el[0] == "tuple" and idx < len(el[1]) else None
        return el

    def _is_local(self, name, f):
        while f is not None:
            if name in f.local_names():
                return True
            f = f.parent
        return False

    def resolve_callee(self, call, f, m, cls, depth=0):
        """-> ('func', FuncInfo, recvclass|None, kind) | ('class', ClassInfo) | ('ext', dotted) | None

        kind: 'func' plain, 'self' bound on self/super, 'bound' bound on typed receiver, 'static'."""
        fn = call.func
        if isinstance(fn, ast.Name):
            g = f
            while g is not None:
                if fn.id in g.nested:
                    return ("func", g.nested[fn.id], None, "nested")
                if fn.id in g.local_names():
                    t = self.expr_type(fn, f, m, cls, depth + 1)
                    if t and t[0] == "type":
                        return ("class", t[1])
                    return None
                g = g.parent
            r = self.resolve(m, fn.id)
            if r is None:
                return ("ext", fn.id)
            if r[0] == "func":
                return ("func", r[1], None, "func")
            if r[0] == "class":
                return ("class", r[1])
            if r[0] == "ext":
                return ("ext", r[1])
            return None
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
                g = f
                while g is not None and g.cls is None:
                    g = g.parent
                if g is not None and g.cls is not None:
                    t = self.find_after(cls or g.cls, g.cls, fn.attr)
                    if t:
                        return ("func", t, cls or g.cls, "super")
                return ("ext", "super." + fn.attr)
            d = dotted(fn)
            if d and not self._is_local(d.split(".")[0], f):
                r = self.resolve_dotted(m, d)
                if r:
                    if r[0] == "func":
                        fi = r[1]
                        if fi.cls is not None:
                            base = self.resolve_dotted(m, d.rsplit(".", 1)[0])
                            return ("func", fi, base[1] if base and base[0] == "class" else fi.cls, "static")
                        return ("func", fi, None, "func")
                    if r[0] == "class":
                        return ("class", r[1])
                    if r[0] == "ext":
                        return ("ext", r[1])
            bt = self.expr_type(v, f, m, cls, depth + 1)
            if bt and bt[0] in ("inst", "type"):
                t = self.find_method(bt[1], fn.attr)
                if t:
                    isself = isinstance(v, ast.Name) and f is not None and f.params()[:1] == [v.id]
                    return ("func", t, bt[1], "self" if isself else "bound")
            return None
        return None

    def digest(self, mods=None):
        h = hashlib.sha256()
        for n in sorted(mods or self.modules):
            h.update(self.modules[n].src.encode())
        return h.hexdigest()[:16]
