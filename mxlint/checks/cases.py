"""Constant propagation along the paths of a small dispatching function, for one abstract case of its arguments at a time.

Values are constants, enum members, classes, tuples and dictionaries of those; everything else is UNKNOWN, and a branch on UNKNOWN goes both
ways. Nothing of the analysed project is executed."""
from ..core import *
from ..flow import Explorer


class _U:
    def __repr__(self):
        return "?"


U = _U()
RAISE = ("$raise",)
NONE = ("$none",)  # what handlers return for the value None


def enum_values(proj, c):
    """member -> value (auto() evaluated as the enum module does), or None where it is not a constant."""
    import ast
    out, last = {}, 0
    for n, (v, _) in c.class_attrs.items():
        if v is None or n.startswith("_"):
            continue
        if isinstance(v, ast.Call) and ast.unparse(v.func).split(".")[-1] == "auto":
            last = last + 1 if isinstance(last, int) else None
            out[n] = last
            continue
        try:
            out[n] = ast.literal_eval(v)
        except ValueError:
            out[n] = None
        if isinstance(out[n], int):
            last = out[n]
    return out


def is_int_enum(proj, c):
    return any(b and b.split(".")[-1] in ("IntEnum", "IntFlag") for b in proj.ext_bases(c))


class Cases:
    def __init__(self, ctx, fl, params, calls=None, attrs=None, follow_exc=True, effects=None, stop=(), limit=60000):
        """params: name -> value; calls(self, ins, st) / attrs(self, ins, base) -> value | RAISE | None (not handled);
        effects(self, ins, st) -> hashable recorded in the state | None."""
        self.ctx, self.fl, self.params, self.calls, self.attrs = ctx, fl, params, calls, attrs
        self.follow_exc = follow_exc
        self.effects = effects
        self.stop = set(stop)  # instructions beyond which nothing is of interest
        self.proj = ctx.proj
        self.limit = limit
        self.enums = {}

    def ev_of(self, cname):
        if cname not in self.enums:
            c = self.proj.cls(cname)
            self.enums[cname] = (enum_values(self.proj, c), is_int_enum(self.proj, c))
        return self.enums[cname]

    def norm(self, v):
        """int-like value of a member of an IntEnum, for comparisons."""
        if isinstance(v, tuple) and v and v[0] == "enum":
            vals, isint = self.ev_of(v[1])
            if isint and vals.get(v[2]) is not None:
                return vals[v[2]]
        return v

    # ---------------------------------------------------------------- values
    def get(self, st, t):
        return dict(st).get(t, U) if t is not None else U

    def compute(self, i, st):
        d = dict(st)

        def a(k):
            return d.get(i.args[k], U)

        op = i.op
        if op == "const":
            return i.data
        if op == "load":
            return d.get(i.data, U)
        if op == "param":
            return self.params.get(i.data if isinstance(i.data, str) else i.data, U)
        if op == "enum":
            return ("enum",) + tuple(i.data)
        if op == "global":
            r = i.data
            if isinstance(r, tuple) and r and r[0] == "class":
                return ("cls", r[1].name)
            if isinstance(r, tuple) and len(r) > 1 and isinstance(r[1], str):
                return (r[0], r[1])
            if isinstance(r, tuple) and r and r[0] == "func":
                return ("func", r[1].qual)
            return U
        if op in ("tuple", "list", "set"):
            vs = tuple(d.get(t, U) for t in i.args)
            return ("seq", vs)
        if op == "dict":
            ks = [d.get(t, U) if t is not None else U for t in i.args]
            pairs = tuple((ks[k], ks[k + 1]) for k in range(0, len(ks), 2))
            return U if any(p[0] is U for p in pairs) else ("map", pairs)
        if op == "newcomp":
            return ("map", ()) if i.data == "dict" else ("seq", ())
        if op in ("alias", "await"):
            return a(0)
        if op == "unary" and i.data == "Not":
            v = self.truth(a(0))
            return U if v is None else not v
        if op == "cmp":
            return self.cmp(i.data, a(0), a(1))
        if op == "iter":
            return a(0)
        if op in ("item", "unpack"):
            b = a(0)
            k = a(1) if op == "item" else i.data
            return self.item(b, k)
        if op == "attr":
            b = a(0)
            if self.attrs is not None:
                r = self.attrs(self, i, b)
                if r is not None:
                    return None if r == NONE else r
            if isinstance(b, tuple) and b and b[0] == "enum":
                if i.data == "value":
                    v = self.ev_of(b[1])[0].get(b[2])
                    return U if v is None else v
                if i.data == "name":
                    return b[2]
            if isinstance(b, tuple) and b and b[0] == "cls" and self.proj.has_cls(b[1]):
                c = self.proj.cls(b[1])
                if i.data in ("__name__", "__qualname__"):
                    return c.name
                if self.proj.is_enum(c) and i.data in self.proj.enum_members(c):
                    return ("enum", c.name, i.data)
                return self.class_attr(c, i.data)
            return U
        if op == "call":
            return self.call(i, d, st)
        return U

    def class_attr(self, c, name):
        import ast
        from ..project import dotted
        for k in self.proj.mro(c):
            if name in k.class_attrs:
                v = k.class_attrs[name][0]
                try:
                    return ast.literal_eval(v)
                except (ValueError, TypeError, SyntaxError):
                    pass
                dn = dotted(v) if v is not None else None
                r = self.proj.resolve_dotted(k.module, dn) if dn else None
                if r and r[0] == "classattr" and self.proj.is_enum(r[1]):
                    return ("enum", r[1].name, r[2])
                return U
        return U

    def item(self, b, k):
        if k is U or b is U or not isinstance(b, tuple) or not b:
            return U
        if b[0] == "map":
            for kk, v in reversed(b[1]):
                if self.norm(kk) == self.norm(k):
                    return v
            return RAISE
        k = self.norm(k)
        if b[0] == "seq" and isinstance(k, int):
            return b[1][k] if -len(b[1]) <= k < len(b[1]) else RAISE
        return U

    def cmp(self, op, l, r):
        if l is U or r is U:
            return U
        neg = op in ("NotEq", "IsNot", "NotIn")
        if op in ("Eq", "NotEq"):
            if self.opaque(l) or self.opaque(r):
                return U
            return (self.norm(l) == self.norm(r)) != neg
        if op in ("Is", "IsNot"):
            if self.opaque(l) or self.opaque(r):
                return U
            return (l == r and type(l) is type(r)) != neg
        if op in ("In", "NotIn"):
            if isinstance(r, tuple) and r and r[0] == "seq" and not any(x is U for x in r[1]):
                return any(self.norm(x) == self.norm(l) for x in r[1]) != neg
            if isinstance(r, tuple) and r and r[0] == "map":
                return any(self.norm(x) == self.norm(l) for x, _ in r[1]) != neg
            if isinstance(r, str) and isinstance(l, str):
                return (l in r) != neg
            return U
        l, r = self.norm(l), self.norm(r)
        if isinstance(l, (int, float)) and isinstance(r, (int, float)):
            return {"Lt": l < r, "LtE": l <= r, "Gt": l > r, "GtE": l >= r}.get(op, U)
        return U

    def opaque(self, v):
        return isinstance(v, tuple) and bool(v) and v[0] in ("obj", "inst") or isinstance(v, tuple) and v and v[0] in ("seq", "map") and self._deep_u(v)

    def _deep_u(self, v):
        return v is U or isinstance(v, tuple) and any(self._deep_u(x) for x in v)

    def truth(self, v):
        if v is U:
            return None
        if isinstance(v, tuple) and v:
            if v[0] in ("seq", "map"):
                return bool(v[1])
            if v[0] == "enum":
                n = self.norm(v)
                return bool(n) if not isinstance(n, tuple) else True
            if v[0] == "obj":
                return None
            return True
        return bool(v)

    def call(self, i, d, st):
        if self.calls is not None:
            r = self.calls(self, i, st)
            if r is not None:
                return None if r == NONE else r
        fn = (i.fn or "").split(".")[-1]
        args = [d.get(t, U) for t in i.args]
        recv = d.get(i.recv, U) if i.recv is not None else None
        c = self.proj.classes.get(fn)
        if c and self.proj.is_enum(self.proj.cls(fn)) and len(args) == 1:
            v = self.norm(args[0])
            if v is U:
                return U
            if isinstance(args[0], tuple) and args[0][0] == "enum" and args[0][1] == fn:
                return args[0]
            vals = self.ev_of(fn)[0]
            for n, x in vals.items():
                if x is not None and x == v:
                    return ("enum", fn, n)
            return RAISE if all(x is not None for x in vals.values()) and isinstance(v, (int, str)) else U
        if fn in ("int", "bool", "str") and recv is None and len(args) == 1:
            v = self.norm(args[0])
            if fn == "bool":
                r = self.truth(args[0])
                return U if r is None else r
            return v if fn == "int" and isinstance(v, int) or fn == "str" and isinstance(v, str) else U
        if fn == "len" and len(args) == 1 and isinstance(args[0], tuple) and args[0] and args[0][0] in ("seq", "map"):
            return len(args[0][1])
        if fn in ("list", "tuple", "set", "frozenset", "iter", "dict") and len(args) == 1 and isinstance(args[0], tuple) and args[0] and args[0][0] in ("seq", "map"):
            return args[0]
        if fn == "get" and isinstance(recv, tuple) and recv and recv[0] == "map" and args:
            r = self.item(recv, args[0])
            return (args[1] if len(args) > 1 else None) if r == RAISE else r
        if fn in ("items", "values", "keys") and isinstance(recv, tuple) and recv and recv[0] == "map":
            return ("seq", tuple({"items": ("seq", p), "values": p[1], "keys": p[0]}[fn] for p in recv[1]))
        if fn in ("startswith", "endswith") and isinstance(recv, str) and args:
            a = args[0]
            if isinstance(a, tuple) and a and a[0] == "seq" and all(isinstance(x, str) for x in a[1]):
                a = a[1]
            if isinstance(a, str) or isinstance(a, tuple) and all(isinstance(x, str) for x in a):
                return getattr(recv, fn)(a)
        if fn == "isinstance" and len(args) == 2:
            return self.isinstance(args[0], args[1])
        if c:
            return ("inst", fn, tuple(args), tuple(sorted((k, d.get(t, U)) for k, t in (i.kw or {}).items() if k)))
        return U

    def isinstance(self, v, t):
        ts = [x for x in t[1]] if isinstance(t, tuple) and t and t[0] == "seq" else [t]
        names = [x[1] if isinstance(x, tuple) and len(x) > 1 and isinstance(x[1], str) else None for x in ts]
        if v is U or None in names:
            return U
        own = {bool: ("bool", "int"), int: ("int",), str: ("str",), float: ("float",), type(None): ("NoneType",)}.get(type(v))
        if own is None and isinstance(v, tuple) and v:
            if v[0] == "seq":
                own = ("tuple", "Iterable", "Sequence")
            elif v[0] == "obj":
                own = tuple(v[1:])
            elif v[0] == "enum":
                own = (v[1], "Enum") + (("int", "IntEnum") if self.ev_of(v[1])[1] else ())
            elif v[0] == "inst":
                own = tuple(k.name for k in self.proj.mro(self.proj.cls(v[1])))
        if own is None:
            return U
        return any(n.split(".")[-1] in own or n in own for n in names)

    # ---------------------------------------------------------------- exploration
    def _liveness(self):
        from collections import deque
        g = self.fl.g
        live = {i.id: frozenset() for i in g.live}
        work, queued = deque(reversed(g.live)), {i.id for i in g.live}
        while work:
            i = work.popleft()
            queued.discard(i.id)
            out = set()
            for s, _ in i.succ:
                out |= live.get(s.id, frozenset())
            if i.op == "store":
                out.discard(i.data)
            if i.dst is not None:
                out.discard(i.dst)
            out.update(t for t in i.args if t is not None and not isinstance(t, (list, dict)))
            out.update(t for t in (i.kw or {}).values() if t is not None)
            if i.recv is not None:
                out.add(i.recv)
            if i.op == "load":
                out.add(i.data)
            if i.op == "next":
                out.add(("$it", i.id))
            out = frozenset(out)
            if out != live[i.id]:
                live[i.id] = out
                for q, _ in i.pred:
                    if q.id not in queued:
                        queued.add(q.id)
                        work.append(q)
        after = {}
        for i in g.live:
            out = {("$fx",)}
            for s, _ in i.succ:
                out |= live.get(s.id, frozenset())
            if i.dst is not None:
                out.add(i.dst)  # the edge function looks at it
            if i.op == "branch":
                out.update(i.args)
            after[i.id] = out
        return after

    def run(self):
        """-> (returns: [(ins, value, effects)], raises: bool, visited)"""
        g = self.fl.g
        fx = ("$fx",)
        after = self._liveness()

        def step(i, st):
            d = None
            if i.id in self.stop:
                return []
            if i.op == "store":
                d = dict(st)
                d[i.data] = d.get(i.args[0], U)
            elif i.op == "elem":
                d = dict(st)
                c = d.get(i.args[0], U)
                vs = [d.get(t, U) for t in i.args[1:]]
                if isinstance(c, tuple) and c and len(c[1]) < 64:
                    d[i.args[0]] = (c[0], c[1] + ((tuple(vs),) if c[0] == "map" else (vs[0],)))
                else:
                    d[i.args[0]] = U
            elif i.op == "next":
                pass
            elif i.dst is not None:
                v = self.compute(i, st)
                d = dict(st)
                d[i.dst] = v
            if self.effects is not None:
                e = self.effects(self, i, tuple((d or dict(st)).items()))
                if e is not None:
                    d = d or dict(st)
                    d[fx] = d.get(fx, ()) + (e,) if len(d.get(fx, ())) < 8 else d[fx]
            keep = after[i.id]
            return [frozenset((k, v) for k, v in (st if d is None else d.items()) if v is not U and k in keep)]

        def edge(i, s, label, st):
            d = dict(st)
            if i.op == "branch" and label in (True, False):
                v = self.truth(d.get(i.args[0], U))
                if v is not None and v != label:
                    return False
            if i.dst is not None and i.op != "next":
                v = d.get(i.dst, U)
                isx = label in ("exc", "exc-base")
                if v == RAISE and not isx:
                    return False
                if isx and v is not U and v != RAISE and i.op in ("call", "item", "attr", "unpack"):
                    return False
            if i.op == "next":
                seq = d.get(i.args[0], U)
                key = ("$it", i.id)
                if isinstance(seq, tuple) and seq and seq[0] in ("seq", "map"):
                    n = d.get(key, 0)
                    if label == "next":
                        if n >= len(seq[1]):
                            return False
                        d[key] = n + 1
                        d[i.dst] = seq[1][n] if seq[0] == "seq" else seq[1][n][0]
                        return frozenset(d.items())
                    if label == "stop":
                        if n < len(seq[1]):
                            return False
                        d.pop(key, None)
                        return frozenset(d.items())
                elif label == "next":
                    d[i.dst] = U
                    return frozenset(d.items())
            return st

        ex = Explorer(self.fl, step, edge=edge, follow_exc=self.follow_exc, limit=self.limit)
        try:
            vis = ex.run(frozenset())
        except RuntimeError as e:
            raise AnchorError(f"{self.fl.g.func.qual}: {e}")
        rets, raises = [], False
        byid = {i.id: i for i in g.live}
        for k in vis:
            i = byid[k[0]]
            if i.op == "return":  # the state at the instruction is the one before it
                if i.frame is g.frames[0]:
                    d = dict(k[2])
                    rets.append((i, d.get(i.args[0], U) if i.args else None, d.get(fx, ())))
            if i is g.raise_exit:
                raises = True
        self.visited = vis
        return rets, raises
