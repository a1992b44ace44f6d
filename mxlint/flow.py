"""Dataflow over the inlined graph: reaching definitions, provenance terms, path-state exploration."""
from __future__ import annotations

import ast
from collections import deque

from .project import dotted

REC = ("rec",)
DEEP = ("deep",)


def mkphi(ts):
    out = set()
    for t in ts:
        if isinstance(t, tuple) and t and t[0] == "phi":
            out |= set(t[1])
        else:
            out.add(t)
    if len(out) > 1:
        out.discard(REC)
    if len(out) == 1:
        return next(iter(out))
    return ("phi", frozenset(out))


def alts(t):
    """Alternatives of a term."""
    return list(t[1]) if t and t[0] == "phi" else [t]


class Flow:
    def __init__(self, g, fields=True, maxdepth=60):
        self.g = g
        self.p = g.proj
        self.fields = fields
        self._rd = {}
        self._t = {}
        self._stack = set()
        self.maxdepth = maxdepth
        self._fd = {}
        self._stores = {}
        for i in g.live:
            if i.op == "store":
                self._stores.setdefault(i.data, []).append(i)

    # ---------------------------------------------------------------- reaching definitions
    def rdefs(self, ins, key):
        """set of store/param instructions for variable key reaching (before) ins; None element = undefined/entry."""
        k = (ins.id, key)
        if k in self._rd:
            return self._rd[k]
        res, seen, stack = [], set(), [p for p, _ in ins.pred]
        if not ins.pred:
            res.append(None)
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op == "store" and n.data == key:
                res.append(n)
                continue
            if n.op == "entry":
                res.append(None)
                continue
            for p, _ in n.pred:
                if p.id not in seen:
                    stack.append(p)
        self._rd[k] = res
        return res

    # ---------------------------------------------------------------- terms
    def term(self, t, depth=0):
        if t is None:
            return ("none",)
        if t in self._t:
            return self._t[t]
        if t in self._stack:
            return REC
        if depth > self.maxdepth:
            return DEEP
        d = self.g.tempdef.get(t)
        if d is None:
            return ("unknown",)
        self._stack.add(t)
        try:
            r = self._term(d, depth + 1)
        finally:
            self._stack.discard(t)
        if not _has_rec(r) or not self._stack:
            self._t[t] = r
        return r

    def var(self, ins, key, depth=0):
        defs = self.rdefs(ins, key)
        return mkphi([self.term(x.args[0], depth) if x is not None else ("undef", key[1]) for x in defs] or [("undef", key[1])])

    def _term(self, d, depth):
        T = lambda x: self.term(x, depth)
        op = d.op
        if op == "const":
            return ("const", d.data)
        if op == "param":
            f = self.g.func
            ps = f.params()
            if f.cls is not None and f.parent is None and not f.is_static and ps and d.data == ps[0]:
                return ("self",) if not f.is_classmethod else ("cls",)
            return ("param", d.data)
        if op == "load":
            defs = self.rdefs(d, d.data)
            if len(defs) == 1 and defs[0] is None:
                return self._closure(d)
            return mkphi([T(x.args[0]) if x is not None else ("undef", d.data[1]) for x in defs])
        if op == "global":
            r = d.data
            if r[0] == "const":
                v = self._const_ast(r[1], r[2])
                if v is not None:
                    return ("const", v[0])
                return ("global", f"{r[2].name}.{dotted(d.node) or '?'}")
            if r[0] == "func":
                return ("fn", r[1].qual)
            if r[0] == "class":
                return ("class", r[1].name)
            if r[0] == "module":
                return ("module", r[1].name)
            return ("global", r[1])
        if op == "enum":
            return ("enum",) + tuple(d.data)
        if op == "attr":
            b = T(d.args[0])
            if self.fields and b in (("self",), ("cls",)):
                return self.field_at(d, b, d.data, depth)
            if b[0] == "enum" and d.data == "value":
                return ("enumval",) + b[1:]
            if b[0] == "phi":
                return mkphi([("attr", x, d.data) for x in b[1]])
            return ("attr", b, d.data)
        if op == "item":
            return mkitem(T(d.args[0]), T(d.args[1]))
        if op == "unpack":
            idx = d.data
            b = T(d.args[0])
            if isinstance(idx, int):
                return mkitem(b, ("const", idx))
            return ("rest", b, idx[1])
        if op == "slice":
            return ("slice",) + tuple(T(x) for x in d.args)
        if op == "bin":
            return ("bin", d.data, T(d.args[0]), T(d.args[1]))
        if op == "unary":
            return ("un", d.data, T(d.args[0]))
        if op == "cmp":
            return ("cmp", d.data, T(d.args[0]), T(d.args[1]))
        if op == "list" and not d.args:
            return ("list0", d.id)
        if op == "dict" and not d.args:
            return ("dict0", d.id)
        if op in ("tuple", "list", "set"):
            return (op,) + tuple(T(x) for x in d.args)
        if op == "dict":
            return ("dict",) + tuple((T(d.args[i]) if d.args[i] is not None else None, T(d.args[i + 1]))
                                     for i in range(0, len(d.args), 2))
        if op == "fstr":
            return ("fstr",) + tuple(T(x) for x in d.args)
        if op == "fmt":
            return ("fmt", T(d.args[0]), d.data)
        if op == "star":
            return ("star", T(d.args[0]))
        if op in ("await", "alias"):
            return T(d.args[0])
        if op == "iter":
            return ("iterof", T(d.args[0]))
        if op == "next":
            x = T(d.args[0])
            return mkelem(x[1] if x[0] == "iterof" else x)
        if op == "with_enter":
            return ("entered", T(d.args[0]))
        if op == "newcomp":
            els = [i for i in self.g.live if i.op == "elem" and i.args[0] == d.dst]
            parts = [tuple(T(x) for x in i.args[1:]) for i in els]
            return ("comp", d.data) + (tuple(mkphi([p[k] for p in parts]) for k in range(len(parts[0]))) if parts else ())
        if op == "call":
            recv = T(d.recv) if d.recv is not None else None
            pos = tuple(T(x) for x in d.args)
            kw = tuple(sorted((k, T(v)) for k, v in (d.kw or {}).items()))
            return ("call", d.fn, recv, pos, kw, d.id)
        if op == "func":
            fi = d.data[0]
            return ("fn", fi.qual if fi is not None else "?")
        if op == "handler":
            return ("exc", tuple(d.data or ()))
        if op == "yield":
            return ("sent", d.id)
        if op == "opaque":
            return ("opaque", str(d.data), d.id)
        if op == "classdef":
            return ("localclass", d.data)
        return ("unknown", op, d.id)

    def _closure(self, d):
        """Load of a variable never stored in this graph before: free variable of an enclosing function not in the graph."""
        fid, name = d.data
        return ("free", name)

    def _const_ast(self, a, m, depth=0):
        if depth > 5:
            return None
        try:
            return (ast.literal_eval(a),) if not isinstance(a, (ast.List, ast.Dict, ast.Set)) else None
        except (ValueError, SyntaxError, TypeError):
            pass
        if isinstance(a, ast.Name):
            r = self.p.resolve(m, a.id)
            if r and r[0] == "const":
                return self._const_ast(r[1], r[2], depth + 1)
        return None

    def field_at(self, ins, base, name, depth=0):
        """Value of base.name (base = self) before ins, flow-sensitively through setattr in this graph."""
        key = (ins.id, base, name)
        if key in self._fd:
            return self._fd[key]
        self._fd[key] = REC
        res, seen, stack = [], set(), [p for p, _ in ins.pred]
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.op == "setattr" and n.data == name and self.term(n.args[0], depth + 1) == base:
                res.append(self.term(n.args[1], depth + 1))
                continue
            if n.op == "entry":
                res.append(("attr", base, name))
                continue
            for p, _ in n.pred:
                if p.id not in seen:
                    stack.append(p)
        r = mkphi(res) if res else ("attr", base, name)
        if self._stack:
            self._fd.pop(key, None)
            if not _has_rec(r):
                self._fd[key] = r
        else:
            self._fd[key] = r
        return r

    # ---------------------------------------------------------------- local containers / objects
    def appended(self, lst):
        """Terms of the elements added to the local list object denoted by term lst ('list0')."""
        out = []
        for i in self.g.live:
            if i.op == "call" and i.recv is not None and i.data in ("append", "add", "extend") and self.term(i.recv) == lst:
                t = self.term(i.args[0]) if i.args else None
                out.append((i, mkelem(t) if i.data == "extend" else t))
            elif i.op == "bin" and i.data == "Add" and self.term(i.args[0]) == lst:
                t = self.term(i.args[1])
                if t[0] == "list":
                    for x in t[1:]:
                        out.append((i, x))
        return out

    def attrs_set(self, obj):
        """attribute -> list of (ins, value term) assigned on the object denoted by term obj."""
        out = {}
        for i in self.g.live:
            if i.op == "setattr" and self.term(i.args[0]) == obj:
                out.setdefault(i.data, []).append((i, self.term(i.args[1])))
        return out

    def items_set(self, obj):
        out = []
        for i in self.g.live:
            if i.op == "setitem" and self.term(i.args[0]) == obj:
                out.append((i, self.term(i.args[1]), self.term(i.args[2])))
        return out

    # ---------------------------------------------------------------- exploration
    def truth_key(self, d):
        """Canonical variable tested by branch condition defined by instruction d: (key, test) or None."""
        return None


def _has_rec(t):
    if t == REC:
        return True
    if isinstance(t, tuple):
        return any(_has_rec(x) for x in t if isinstance(x, (tuple, frozenset)))
    if isinstance(t, frozenset):
        return any(_has_rec(x) for x in t)
    return False


def mkitem(b, k):
    if b[0] in ("tuple", "list") and k[0] == "const" and isinstance(k[1], int) and not isinstance(k[1], bool):
        els = b[1:]
        if not any(x[0] == "star" for x in els):
            try:
                return els[k[1]]
            except IndexError:
                pass
    if b[0] == "dict" and k[0] == "const":
        for kv in b[1:]:
            if kv[0] == k:
                return kv[1]
    if b[0] == "phi":
        return mkphi([mkitem(x, k) for x in b[1]])
    if b[0] == "elem" and k[0] == "const":
        s = b[1]
        if s[0] == "call" and s[1] == "enumerate" and s[3]:
            if k[1] == 1:
                return mkelem(s[3][0])
            if k[1] == 0:
                start = s[3][1] if len(s[3]) > 1 else dict(s[4]).get("start") if len(s) > 4 and s[4] else None
                if start not in (None, ("const", 0)):
                    return ("bin", "Add", ("index", s[3][0]), start)
                return ("index", s[3][0])
        if s[0] == "call" and s[1] == "zip" and isinstance(k[1], int) and 0 <= k[1] < len(s[3]):
            return mkelem(s[3][k[1]])
        if s[0] == "call" and s[1] is not None and (s[1] == ".items" or s[1].endswith(".items")) and s[2] is not None:
            return ("keyof", s[2]) if k[1] == 0 else ("valof", s[2])
    return ("item", b, k)


def mkelem(s):
    if s[0] == "call" and s[1] in ("list", "tuple", "iter", "reversed") and len(s[3]) == 1:
        return mkelem(s[3][0])
    if s[0] == "comp" and len(s) == 3:
        return s[2]
    if s[0] in ("list", "tuple") and len(s) > 1 and not any(x[0] == "star" for x in s[1:]):
        return mkphi(list(s[1:]))
    if s[0] == "call" and s[1] and s[1].endswith(".values") and s[2] is not None and not s[3]:
        return ("valof", s[2])
    if s[0] == "call" and s[1] and s[1].endswith(".keys") and s[2] is not None and not s[3]:
        return ("keyof", s[2])
    if s[0] == "phi":
        return mkphi([mkelem(x) for x in s[1]])
    return ("elem", s)


def subterms(t):
    """All sub-terms (pre-order)."""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))
        elif isinstance(x, frozenset):
            stack.extend(x)


def contains(t, pred):
    return any(pred(x) for x in subterms(t))


def strip_ids(t):
    """Term without call-site identities, for structural comparison."""
    if isinstance(t, frozenset):
        return frozenset(strip_ids(x) for x in t)
    if isinstance(t, tuple):
        if t and t[0] == "call" and len(t) == 6:
            return ("call", t[1], strip_ids(t[2]) if t[2] is not None else None, tuple(strip_ids(x) for x in t[3]),
                    tuple((k, strip_ids(v)) for k, v in t[4]))
        if t and t[0] in ("sent", "opaque", "unknown"):
            return t[:-1] if len(t) > 1 else t
        return tuple(strip_ids(x) if isinstance(x, (tuple, frozenset)) else x for x in t)
    return t


def show(t, depth=0):
    """Readable rendering of a term."""
    if t is None:
        return "-"
    if depth > 8:
        return "…"
    s = lambda x: show(x, depth + 1)
    k = t[0]
    if k == "const":
        return repr(t[1])
    if k == "param":
        return t[1]
    if k == "self":
        return "self"
    if k == "attr":
        return f"{s(t[1])}.{t[2]}"
    if k == "item":
        return f"{s(t[1])}[{s(t[2])}]"
    if k == "call":
        a = [s(x) for x in t[3]] + [f"{n}={s(v)}" for n, v in t[4]]
        return (f"{s(t[2])}" if t[2] is not None and t[1].startswith(".") else "") + f"{t[1]}({', '.join(a)})"
    if k == "bin":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if k == "cmp":
        return f"({s(t[2])} {t[1]} {s(t[3])})"
    if k == "un":
        return f"{t[1]}({s(t[2])})"
    if k == "phi":
        return "{" + " | ".join(sorted(s(x) for x in t[1])) + "}"
    if k in ("global", "fn", "class", "module"):
        return str(t[1]).split(".")[-1] if k != "global" else str(t[1])
    if k == "enum":
        return f"{t[1]}.{t[2]}"
    if k in ("elem", "keyof", "valof", "index", "entered", "star"):
        return f"{k}({s(t[1])})"
    if k in ("tuple", "list", "set", "fstr"):
        return f"{k}({', '.join(s(x) for x in t[1:])})"
    return "(" + ", ".join(show(x, depth + 1) if isinstance(x, tuple) else str(x) for x in t) + ")"


# --------------------------------------------------------------------------------------------------------------------
# Path exploration with a small constant environment.

UNK = None


class Explorer:
    """Enumerates (instruction, env, state) triples reachable from the entry.

    env: constants known for local variables (None, booleans, ints, strings) plus 'notnone'/'truthy' facts, so that
    infeasible combinations of correlated tests are not reported.
    step(ins, state) -> iterable of new states | None to kill the path
    edge(ins, succ, label, state) -> new state | False to kill
    """

    def __init__(self, flow, step, edge=None, follow_exc=True, follow_base=False, track_fields=False, limit=400000,
                 hook=None, record=False, watch=(), watch_keys=(), fold=False):
        self.fold = fold  # evaluate arithmetic on known values (only where no counters are involved)
        self.f = flow
        self.watch, self.watch_keys = watch, watch_keys
        self.hook = hook
        self.record = record
        self.trans = []
        self._lit = {}
        self.g = flow.g
        self.step = step
        self.edge = edge
        self.follow_exc = follow_exc
        self.follow_base = follow_base
        self.limit = limit
        self.track_fields = track_fields
        self.visited = {}
        self.relevant = self._relevant()
        self.keep = set(self.watch_keys)
        for t in self.watch:
            self.keep.update(self._tested(t))
        self._live = self._liveness()

    def _liveness(self):
        """Relevant variables that may still be read, per instruction: facts about others are dropped."""
        live = {i.id: frozenset() for i in self.g.live}
        uses = {}
        for i in self.g.live:
            u = set()
            if i.op == "load":
                u.add(i.data)
            for t in list(i.args) + ([i.recv] if i.recv is not None else []):
                if t is not None and not isinstance(t, (list, dict)):
                    u.update(self._tested(t))
            uses[i.id] = frozenset(k for k in u if k in self.relevant)
        work = deque(reversed(self.g.live))
        queued = {i.id for i in self.g.live}
        while work:
            i = work.popleft()
            queued.discard(i.id)
            out = set()
            for s, _ in i.succ:
                out |= live.get(s.id, frozenset())
            if i.op == "store":
                out.discard(i.data)
            # values are read from the environment where they are tested or copied, not where they were loaded
            out |= uses[i.id]
            out = frozenset(out)
            if out != live.get(i.id):
                live[i.id] = out
                for p, _ in i.pred:
                    if p.id not in queued:
                        queued.add(p.id)
                        work.append(p)
        return live

    def _relevant(self):
        """variables whose constants matter: tested in branches (directly or via copies)."""
        g = self.g
        rel = set(self.watch_keys)
        for t in self.watch:
            rel.update(self._tested(t))
        for i in g.live:
            if i.op == "branch":
                for k in self._tested(i.args[0]):
                    rel.add(k)
        changed = True
        while changed:
            changed = False
            for i in g.live:
                if i.op == "store" and i.data in rel:
                    d = g.tempdef.get(i.args[0])
                    for k in self._tested(i.args[0]):
                        if k not in rel:
                            rel.add(k)
                            changed = True
        return rel

    def _tested(self, t, depth=0):
        d = self.g.tempdef.get(t)
        if d is None or depth > 6:
            return []
        if d.op == "load":
            return [d.data]
        if d.op in ("cmp",):
            return self._tested(d.args[0], depth + 1) + self._tested(d.args[1], depth + 1)
        if d.op in ("unary", "alias", "await"):
            return self._tested(d.args[0], depth + 1)
        if d.op == "call" and d.fn in ("bool", "int") and len(d.args) == 1:
            return self._tested(d.args[0], depth + 1)
        if self.fold and (d.op in ("tuple", "bin") or d.op == "call" and d.fn in ("any", "all", "max", "min", "sum") and d.recv is None):
            return [k for a in d.args if a is not None for k in self._tested(a, depth + 1)]
        if d.op == "attr" and self.track_fields:
            b = self.g.tempdef.get(d.args[0])
            if b is not None and b.op == "load":
                return [("field", d.data)]
        return []

    # abstract values: ('c', const) | 'notnone' | 'truthy' | 'falsy'
    def aval(self, t, env, depth=0):
        d = self.g.tempdef.get(t)
        if d is None or depth > 8:
            return UNK
        if self.hook is not None:
            v = self.hook(d)
            if v is not None:
                return v
        if d.op == "const":
            return ("c", d.data) if _hashable(d.data) else UNK
        if d.op == "enum":
            return ("c", d.data)
        if d.op == "global":
            tt = self.f._term(d, 0)
            if tt[0] == "const" and _hashable(tt[1]):
                return ("c", tt[1])
            return "notnone" if d.data[0] in ("func", "class", "module") else UNK
        if d.op == "load":
            return env.get(d.data, UNK)
        if d.op in ("alias", "await"):
            return self.aval(d.args[0], env, depth + 1)
        if self.fold and d.op == "bin" and d.data in ("Add", "Sub", "Mult", "BitOr", "BitAnd") and len(d.args) == 2:
            l, r = self.aval(d.args[0], env, depth + 1), self.aval(d.args[1], env, depth + 1)
            if all(isinstance(x, tuple) and isinstance(x[1], int) for x in (l, r)):
                a, b = int(l[1]), int(r[1])
                return ("c", {"Add": a + b, "Sub": a - b, "Mult": a * b, "BitOr": a | b, "BitAnd": a & b}[d.data])
        if self.fold and d.op == "call" and d.fn in ("any", "all", "max", "min", "sum") and d.args and d.recv is None:
            vs = [self.aval(a, env, depth + 1) for a in d.args if a is not None]
            if len(vs) == 1 and isinstance(vs[0], tuple) and isinstance(vs[0][1], tuple):
                vs = [("c", x) for x in vs[0][1]]
                if vs and all(isinstance(v[1], (int, bool)) for v in vs):
                    return ("c", {"any": any, "all": all, "max": max, "min": min, "sum": sum}[d.fn]([v[1] for v in vs]))
            elif len(vs) > 1 and d.fn in ("max", "min") and all(isinstance(v, tuple) and isinstance(v[1], int) for v in vs):
                return ("c", {"max": max, "min": min}[d.fn]([v[1] for v in vs]))
        if d.op in ("tuple", "list", "dict", "set", "fstr", "newcomp", "func", "bin"):
            if self.fold and d.op == "tuple" and d.args:
                vs = [self.aval(a, env, depth + 1) for a in d.args if a is not None]
                if len(vs) == len(d.args) and all(isinstance(v, tuple) for v in vs):
                    return ("c", tuple(v[1] for v in vs))
            if d.op in ("tuple", "list") and d.args:
                return "truthy"
            if d.op in ("tuple", "list", "dict", "set") and self._returned_literal(d):
                return "falsy"
            return "notnone"
        if d.op == "call" and d.target is not None and type(d.target).__name__ == "ClassInfo":
            return "truthy"
        if d.op == "call" and d.fn in ("bool", "int") and len(d.args) == 1:
            v = self.aval(d.args[0], env, depth + 1)
            if isinstance(v, tuple) and isinstance(v[1], (bool, int)):
                return ("c", bool(v[1]) if d.fn == "bool" else int(v[1]))
            tv = self.truth(v)
            if d.fn == "bool" and tv is not None:
                return ("c", tv)
            return "notnone"
        if d.op == "attr" and self.track_fields:
            return env.get(("field", d.data), UNK)
        if d.op == "unary" and d.data == "Not":
            v = self.truth(self.aval(d.args[0], env, depth + 1))
            return ("c", not v) if v is not None else UNK
        if d.op == "cmp":
            return self.cmpval(d, env, depth)
        return UNK

    def _returned_literal(self, d):
        """Empty display that is only returned."""
        if d.id not in self._lit:
            self._lit[d.id] = all(u.op == "return" or (u.op == "store" and u.data[1] == "$ret") for u in self.g.live
                                  if d.dst in u.args or u.recv == d.dst or (u.kw and d.dst in u.kw.values()))
        return self._lit[d.id]

    def cmpval(self, d, env, depth=0):
        l = self.aval(d.args[0], env, depth + 1)
        r = self.aval(d.args[1], env, depth + 1)
        o = d.data
        if isinstance(l, tuple) and isinstance(r, tuple):
            a, b = l[1], r[1]
            try:
                if o == "Is":
                    return ("c", a is b or (a == b and type(a) is type(b)))
                if o == "IsNot":
                    return ("c", not (a is b or (a == b and type(a) is type(b))))
                if o == "Eq":
                    return ("c", a == b)
                if o == "NotEq":
                    return ("c", a != b)
                if o == "Lt":
                    return ("c", a < b)
                if o == "LtE":
                    return ("c", a <= b)
                if o == "Gt":
                    return ("c", a > b)
                if o == "GtE":
                    return ("c", a >= b)
            except TypeError:
                return UNK
        for x, y in ((l, r), (r, l)):
            if x == ("c", None) and (y in ("notnone", "truthy")):
                if o in ("Is", "Eq"):
                    return ("c", False)
                if o in ("IsNot", "NotEq"):
                    return ("c", True)
            if isinstance(x, tuple) and x[1] is not None and o in ("Eq", "NotEq") and (
                    (y == "truthy" and not x[1]) or (y == "falsy" and x[1])):
                return ("c", o == "NotEq")
        return UNK

    @staticmethod
    def truth(v):
        if v is UNK or v == "notnone":
            return None
        if v == "truthy":
            return True
        if v == "falsy":
            return False
        return bool(v[1])

    def refine(self, t, val, env):
        """Refine env knowing that condition temp t has truth value val. Returns env or False if contradictory."""
        d = self.g.tempdef.get(t)
        if d is None:
            return env
        key = None
        if d.op == "load":
            key = d.data
        elif d.op == "attr" and self.track_fields:
            key = ("field", d.data)
        if key is not None:
            cur = env.get(key, UNK)
            tv = self.truth(cur)
            if tv is not None:
                return env if tv == val else False
            if key in self.relevant:
                env = dict(env)
                if val:
                    env[key] = "truthy"
                elif cur == "notnone":
                    env[key] = "falsy"
                else:
                    env[key] = "falsy"
            return env
        if d.op in ("alias", "await"):
            return self.refine(d.args[0], val, env)
        if d.op == "unary" and d.data == "Not":
            return self.refine(d.args[0], not val, env)
        if d.op == "cmp":
            v = self.cmpval(d, env)
            tv = self.truth(v)
            if tv is not None:
                return env if tv == val else False
            for a, b in ((d.args[0], d.args[1]), (d.args[1], d.args[0])):
                x = self.g.tempdef.get(a)
                kk = None
                if x is not None and x.op == "load":
                    kk = x.data
                elif x is not None and x.op == "attr" and self.track_fields:
                    kk = ("field", x.data)
                y = self.aval(b, env)
                if kk is not None and kk in self.relevant and isinstance(y, tuple):
                    eq = (d.data in ("Is", "Eq") and val) or (d.data in ("IsNot", "NotEq") and not val)
                    ne = (d.data in ("Is", "Eq") and not val) or (d.data in ("IsNot", "NotEq") and val)
                    if eq:
                        env = dict(env)
                        env[kk] = y
                        return env
                    if ne and y == ("c", None) and env.get(kk, UNK) is UNK:
                        env = dict(env)
                        env[kk] = "notnone"
                        return env
        return env

    def run(self, init, start=None, env0=None):
        """BFS; returns dict of visited. parent pointers kept for path reconstruction."""
        g = self.g
        start = start or g.entry
        q = deque()
        e0 = frozenset((env0 or {}).items())
        first = (start, e0, init)
        self.visited = {self._k(first): None}
        q.append(first)
        n = 0
        while q:
            cur = q.popleft()
            n += 1
            if n > self.limit:
                raise RuntimeError("exploration limit")
            ins, fe, st = cur
            self.env = dict(fe)
            sts = self.step(ins, st)
            if sts is None:
                continue
            if not isinstance(sts, (list, tuple)) or isinstance(sts, State):
                sts = [sts]
            env = dict(fe)
            if ins.op == "store" and ins.data in self.relevant:
                v = self.aval(ins.args[0], env)
                if v is UNK:
                    env.pop(ins.data, None)
                else:
                    env[ins.data] = v
            elif ins.op == "setattr" and self.track_fields:
                k = ("field", ins.data)
                v = self.aval(ins.args[1], env)
                if v is UNK:
                    env.pop(k, None)
                else:
                    env[k] = v
            for st2 in sts:
                for s, l in ins.succ:
                    if l == "exc" and not self.follow_exc and ins.op not in ("raise", "reraise", "dispatch", "assertfail"):
                        continue
                    if l == "exc-base" and not self.follow_base:
                        continue
                    env2 = env
                    if ins.op == "branch" and l in (True, False):
                        v = self.truth(self.aval(ins.args[0], env))
                        if v is not None and v != l:
                            continue
                        env2 = self.refine(ins.args[0], l, env)
                        if env2 is False:
                            continue
                    # an instruction that raises has not taken effect
                    st3 = st if (l == "exc" and ins.op not in ("raise", "reraise", "dispatch", "assertfail")
                                 and getattr(self, "exc_pre", True)) else st2
                    if self.edge is not None:
                        st3 = self.edge(ins, s, l, st3)
                        if st3 is False:
                            continue
                    lv = self._live.get(s.id, ())
                    nx = (s, frozenset((a, b) for a, b in env2.items() if a in lv or a in self.keep or a[0] == "field"), st3)
                    k = self._k(nx)
                    if self.record:
                        self.trans.append((self._k(cur), k))
                    if k not in self.visited:
                        self.visited[k] = cur
                        q.append(nx)
        self.count = n
        return self.visited

    @staticmethod
    def _k(x):
        return (x[0].id, x[1], x[2])

    def path(self, item):
        """Instructions from start to item (ins, env, st)."""
        out = []
        cur = item
        while cur is not None:
            out.append(cur[0])
            cur = self.visited.get(self._k(cur))
        return list(reversed(out))


class State(tuple):
    pass


def _hashable(v):
    try:
        hash(v)
        return True
    except TypeError:
        return False


def trace(path, keep=("branch", "call", "return", "raise", "yield", "await", "setattr")):
    """Compact human-readable path: file lines of decisions."""
    out, last = [], None
    for i, n in enumerate(path):
        if n.op == "branch" and i + 1 < len(path):
            lab = next((l for s, l in n.succ if s is path[i + 1]), None)
            key = (n.line, lab)
            if key != last:
                out.append(f"L{n.line}:{'T' if lab is True else 'F' if lab is False else lab}")
                last = key
        elif n.op in ("handler", "raise", "return"):
            out.append(f"L{n.line}:{n.op}")
    return " ".join(out[-25:])
