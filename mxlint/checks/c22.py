"""C22: identity of mixture keys and of their numeric ids.

 - hash, order and string of a key are functions of its properties alone, regardless of the order in which properties and values were given,
   and computing them changes nothing;
 - the comparison of keys is the documented match: decided per property by a truth table over (property present, common value, own values
   empty, other's values empty);
 - the key -> id map only ever gains keys, each with a fresh id, in a fixed order, and it is the map chunks and mixtures work with."""
import ast
import itertools

from .linear import *
from .c18 import loops_around
from ..project import walk_scope, dotted
from ..flow import Flow

PROC = {"hash", "id"}
NONDET = ("random.", "uuid.", "time.", "os.urandom", "secrets.", "np.random", "numpy.random", "object.__hash__", "os.getpid")
MUT = {"sort", "append", "extend", "insert", "remove", "pop", "reverse", "clear", "update", "setdefault", "popitem", "add", "discard"}
NEUTRAL = {"sorted", "len", "sum", "any", "all", "min", "max", "isdisjoint", "intersection", "issubset", "issuperset", "isinstance", "Counter", "items",
           "keys", "values", "copy"}


def run(ctx):
    ctx.rule("MixtureKey.__hash__/__lt__/__str__ (with inlined helpers): every iteration over properties or values whose order can reach the result goes "
             "through sorted(); every property and value contributes; no process-dependent source; no in-place change of anything below `properties`; "
             "each change of `properties` resets the cached hash. __lt__ returns mirror-image comparisons guarded by the same difference. __eq__: per turn "
             "over the own properties all branch combinations are evaluated against the match relation. Key-id map: written only for absent keys with a "
             "counter above every id in it, in sorted order, for all keys of the mixture (and the index at first); mixtures are informed of additions; no "
             "other writer; chunks use this map, with the same key for id and sample.")
    c = ctx.proj.cls("MixtureKey")
    ctx.part(hashing, ctx, c)
    ctx.part(text, ctx, c)
    ctx.part(caching, ctx, c)
    ctx.part(equality, ctx, c)
    ctx.part(order, ctx, c)
    q = ctx.proj.cls("QueryResult")
    ctx.part(assign, ctx, q)
    ctx.part(writers, ctx, q)
    ctx.part(calls, ctx, q)
    ctx.part(use, ctx, q)


# ------------------------------------------------------------------ order-insensitivity
def props(t):
    return t[0] == "attr" and t[2] == "properties"


def raw(fl, t, depth=0):
    """t is a collection (or view) of properties/values in an order that equal keys may differ in."""
    if depth > 12:
        return False
    if props(t):
        return True
    k = t[0]
    if k == "call":
        n = callname(t)
        if n in ("keys", "items", "values", "copy") and t[2] is not None:
            return raw(fl, t[2], depth + 1)
        if n in ("get",) and t[2] is not None and len(t[3]) >= 1:
            return props(t[2])
        if n in ("list", "tuple", "set", "frozenset", "map", "filter", "reversed", "iter", "enumerate", "dict", "chain", "deepcopy"):
            return any(raw(fl, x, depth + 1) for x in t[3])
        if n == "from_iterable":
            return any(raw(fl, x, depth + 1) for x in t[3])
        if n == "union" and t[2] is not None:
            return True
        return False
    if k in ("valof",):
        return raw(fl, t[1], depth + 1)
    if k == "item":
        b = t[1]
        if props(b):
            return True
        if b[0] == "elem" and t[2] in (("const", 1), ("const", -1)):
            return of_items(b[1])
        return False
    if k == "elem":
        return t[1][0] == "call" and callname(t[1]) == "values" and t[1][2] is not None and props(t[1][2])
    if k == "comp":
        return any(raw(fl, b, depth + 1) for b in bases_of(fl, t))
    if k in ("list0",):
        ap = fl.appended(t)
        if not ap or any(is_sort(fl, i, t) for i in fl.g.calls()):
            return False
        for i, _ in ap:
            for h in loops_around(fl, i):
                b = fl.term(h.args[0])
                if raw(fl, b[-1] if b[0] == "iterof" else b, depth + 1):
                    return True
        return False
    if k == "phi":
        return any(raw(fl, x, depth + 1) for x in t[1])
    if k == "iterof":
        return raw(fl, t[-1], depth + 1)
    if k == "bin" and t[1] in ("BitOr", "BitAnd", "Sub", "BitXor", "Add"):
        return raw(fl, t[2], depth + 1) or raw(fl, t[3], depth + 1)
    return False


def of_items(t):
    while t[0] == "call" and callname(t) in ("sorted", "list", "tuple", "reversed") and t[3]:
        t = t[3][0]
    return t[0] == "call" and callname(t) == "items" and t[2] is not None and props(t[2])


def bases_of(fl, comp):
    """Collections the generators of a comprehension iterate over."""
    memo = fl.__dict__.setdefault("_bases_of", {})
    key = strip_ids(comp)
    if key not in memo:
        memo[key] = []
        for i in fl.g.of("elem"):
            if strip_ids(fl.term(i.args[0])) != key:
                continue
            new = fl.g.tempdef.get(i.args[0])
            for h in loops_around(fl, i):
                if new is None or not any(x is new for x in body_of(h)):
                    b = fl.term(h.args[0])
                    memo[key].append(b[-1] if b[0] == "iterof" else b)
    return memo[key]


def base_of(fl, comp):
    bs = bases_of(fl, comp)
    return bs[0] if len(bs) == 1 else None


def is_sort(fl, i, t):
    return i.data == "sort" and i.recv is not None and fl.term(i.recv) == t


def foreign(fl, t):
    """t denotes an object of the key itself (not a copy)."""
    if t[0] == "phi":
        return any(foreign(fl, x) for x in t[1])
    if props(t):
        return True
    if t[0] in ("item", "elem", "valof"):
        b = t[1]
        if t[0] == "item" and b[0] == "elem":
            return of_items(b[1])
        if t[0] == "elem" and b[0] == "call" and callname(b) == "values":
            return b[2] is not None and props(b[2])
        return foreign(fl, b)
    if t[0] == "call" and callname(t) == "get" and t[2] is not None:
        return props(t[2])
    return False


def pure_part(ctx, fl, who):
    """No process dependence, no leak of an order, no change of the key (properties)."""
    g = fl.g
    bad = report(ctx)
    for i in g.calls():
        n = last(i.fn)
        fn = i.fn or ""
        if fn in PROC and i.recv is None and not (fn == "hash" and i.args and stable(fl.term(i.args[0]))):
            bad("process-dependent", f"{who} of a key depends on the process: {fn}()", i)
        if fn.startswith(NONDET):
            bad("process-dependent", f"{who} of a key depends on {fn}", i)
        if n in MUT and i.recv is not None and foreign(fl, fl.term(i.recv)):
            bad("mutates", f"computing {who} changes the key: {show(fl.term(i.recv))[:60]}.{n}()", i)
        if n in ("shuffle",) and i.args and foreign(fl, fl.term(i.args[0])):
            bad("mutates", f"computing {who} changes the key", i)
        leak = n in ("join", "str", "repr", "tuple", "dumps", "format", "list") or "xxh" in fn or n in ("update", "hexdigest", "md5", "sha256", "crc32", "adler32", "pack")
        if n in ("tuple", "list"):
            leak = False
        if leak and n == "update" and i.recv is not None and fl.term(i.recv)[0] in ("dict0", "list0", "set"):
            leak = False
        if leak:
            for a in i.args:
                if raw(fl, fl.term(a)):
                    bad("order", f"{who} of a key depends on the order in which its properties or values were given: {show(fl.term(a))[:80]}", i)
    for i in g.of("setitem", "delitem"):
        if foreign(fl, fl.term(i.args[0])):
            bad("mutates", f"computing {who} changes the key", i)
    for i in g.of("fstr"):
        for a in i.args:
            if raw(fl, fl.term(a)):
                bad("order", f"{who} of a key depends on the order in which its properties or values were given: {show(fl.term(a))[:80]}", i)
    # a fold over an unordered collection
    for h in g.of("next"):
        b = fl.term(h.args[0])
        b = b[-1] if b[0] == "iterof" else b
        ctx.count("iterations")
        if not raw(fl, b):
            continue
        for i in body_of(h):
            if i.op == "bin" and i.data not in ("Add", "BitXor", "Mult", "BitOr", "BitAnd"):
                continue
            if i.op == "store" and fl.g.tempdef.get(i.args[0]) is not None:
                d = fl.g.tempdef[i.args[0]]
                if d.op == "bin" and any(fl.g.tempdef.get(a) is not None and fl.g.tempdef[a].op == "load" and fl.g.tempdef[a].data == i.data for a in d.args):
                    if d.data == "Add" and not any(x[0] in ("fstr",) or is_call_term(x, "str", "join") for a in d.args for x in subterms(fl.term(a))):
                        continue
                    if d.data in ("BitXor", "BitOr", "BitAnd", "Mult"):
                        continue
                    bad("order", f"{who} of a key depends on the order in which its properties or values were given", h)
            if i.op == "call" and last(i.fn) in ("update",) and i.recv is not None and any("xx" in (x[1] or "") or "hashlib" in (x[1] or "")
                                                                                          for x in subterms(fl.term(i.recv)) if x[0] == "call"):
                bad("order", f"{who} of a key depends on the order in which its properties or values were given", h)


def stable(t):
    """Value whose builtin hash is the same in every process (integers)."""
    return t[0] == "const" and isinstance(t[1], int) or t[0] == "call" and ("intdigest" in (t[1] or "") or callname(t) in ("int", "len", "sum"))


def report(ctx):
    seen = set()

    def bad(k, msg, i):
        if (k, i.id) not in seen:
            seen.add((k, i.id))
            ctx.fail(k, msg, i.loc)
    return bad


def everything(ctx, c, m):
    return ctx.flow(m, lambda *a: True, selfcls=c, key="all")


def method(ctx, c, n):
    m = ctx.proj.find_method(c, n)
    if m is None:
        raise AnchorError(f"MixtureKey.{n} not found")
    return m


def complete(ctx, fl, who):
    """Every property and every value reaches the result: no turn of the loops over them is skipped or cut short, no part of the collection left out."""
    g = fl.g
    n = 0
    keys = vals = False
    for h in g.of("next"):
        b = fl.term(h.args[0])
        b = b[-1] if b[0] == "iterof" else b
        src = source(fl, b)
        if src is None:
            continue
        kind, cut = src
        n += 1
        if cut:
            ctx.fail("incomplete", f"{who} of a key leaves out some of its {kind}", h.loc)
            continue
        keys |= kind == "properties"
        vals |= kind == "values"
        outs = {i.id for i in body_of(h) if i.op == "elem" or i.op == "call" and last(i.fn) in ("append", "add", "extend", "update") or i.op == "yield"
                or i.op == "setitem" or i.op == "store" and (d := fl.g.tempdef.get(i.args[0])) is not None and d.op == "bin"}
        if not outs:
            raise AnchorError(f"{h.loc}: what {who} does with {kind} not recognised")
        for k, p in loop_paths(fl, h):
            if k in ("stop", "raise"):
                continue
            if k != "loop":
                ctx.fail("incomplete", f"{who} of a key does not use all its {kind} (the loop is left early)", h.loc)
            elif not any(i.id in outs for i, _ in p):
                ctx.fail("incomplete", f"{who} of a key skips some of its {kind}", h.loc)
    for i in g.calls():
        for a in list(i.args):
            t = fl.term(a)
            if is_call_term(t, "sorted", "map", "frozenset") or last(i.fn) in ("sorted", "map", "frozenset"):
                for x in subterms(t):
                    s = source(fl, x)
                    if s is not None and not s[1]:
                        keys |= s[0] == "properties"
                        vals |= s[0] == "values" or callname(x) == "items"
                    elif s is not None:
                        ctx.fail("incomplete", f"{who} of a key leaves out some of its {s[0]}", i.loc)
    return n, keys, vals


def source(fl, t, depth=0):
    """(properties|values, only a part of them) for collections of a key."""
    cut = False
    while depth < 12:
        depth += 1
        if t[0] == "call":
            n = callname(t)
            if n in ("sorted", "list", "tuple", "set", "frozenset", "reversed", "enumerate", "iter", "copy") and t[3]:
                t = t[3][0]
                continue
            if n == "map" and len(t[3]) == 2:
                t = t[3][1]
                continue
            if n in ("islice", "filter", "takewhile", "dropwhile", "compress"):
                s = source(fl, t[3][0] if n == "islice" else t[3][-1], depth)
                return (s[0], True) if s else None
            if n in ("items", "keys") and t[2] is not None and props(t[2]):
                return "properties", cut
            if n == "values" and t[2] is not None and props(t[2]):
                return "values", cut
            return None
        if t[0] == "item" and t[2][0] in ("slice",) or t[0] == "slice" and len(t) > 1 and isinstance(t[1], tuple):
            s = source(fl, t[1], depth)
            return (s[0], True) if s else None
        if t[0] == "comp":
            b = base_of(fl, t)
            if b is None:
                return None
            t = b
            continue
        if props(t):
            return "properties", cut
        if t[0] in ("valof", "item", "elem") and raw(fl, t):
            return "values", cut
        return None
    return None


# ------------------------------------------------------------------ parts
def hashing(ctx, c):
    m = method(ctx, c, "__hash__")
    fl = everything(ctx, c, m)
    pure_part(ctx, fl, "the hash")
    res = []
    for i in root_returns(fl):
        res += alts(fl.term(i.args[0]))
    comp = [t for t in res if not (t[0] == "attr" and t[1] == ("self",))]
    if not comp:
        raise AnchorError("hash of a key not recognised")
    for t in comp:
        if t[0] == "const":
            ctx.fail("incomplete", "the hash of a key does not depend on its properties", m.loc)
            return
        ctx.sample(f"hash: {show(t)[:120]}")
    n, keys, vals = complete(ctx, fl, "the hash")
    ctx.count("hash sources", len(comp))
    if not keys:
        ctx.fail("incomplete", "the hash of a key does not use its properties", m.loc)
    # other fields of the key must not contribute
    for t in comp:
        for x in contributions(fl, t):
            if x[0] == "attr" and x[1] == ("self",) and x[2] not in ("properties", "_hash"):
                ctx.fail("other-state", f"the hash of a key depends on {x[2]}", m.loc)
    # what is joined are strings (values may be numbers)
    for i in fl.g.calls():
        if last(i.fn) == "join" and i.args:
            t = fl.term(i.args[0])
            base = t
            while is_call_term(base, "sorted", "list", "tuple", "set", "frozenset") and base[3]:
                base = base[3][0]
            if source(fl, base) == ("values", False) and base[0] != "comp" and not is_call_term(base, "map"):
                ctx.fail("numbers", "the hash of a key fails for values that are not strings", i.loc)
            if base[0] == "comp" and base[-1][0] == "elem" and source(fl, base[-1][1] if len(base[-1]) > 1 else base) == ("values", False):
                ctx.fail("numbers", "the hash of a key fails for values that are not strings", i.loc)


def text(ctx, c):
    for n in ("__str__", "__repr__"):
        m = c.methods.get(n)
        if m is None:
            continue
        fl = everything(ctx, c, m)
        pure_part(ctx, fl, "the string")
        k, keys, vals = complete(ctx, fl, "the string")
        ctx.count("string methods")
        if not keys or not vals:
            if n == "__str__":
                ctx.fail("incomplete", "the string of a key does not contain all its properties and values", m.loc)


def caching(ctx, c):
    """Every change of properties is followed by a reset of the cached hash; the cache is only set to what was computed."""
    n = 0
    cached = set()
    hm = method(ctx, c, "__hash__")
    fl = everything(ctx, c, hm)
    for i in fl.g.of("setattr"):
        if fl.term(i.args[0]) == ("self",):
            cached.add(i.data)
    if not cached:
        return
    if "properties" in cached:
        ctx.fail("mutates", "computing the hash replaces the properties", hm.loc)
    cached.discard("properties")
    for m in c.methods.values():
        f2 = everything(ctx, c, m)
        for i in f2.g.live:
            ch = False
            if i.op in ("setitem", "delitem"):
                ch = any(props(x) for x in subterms(f2.term(i.args[0])))
            elif i.op == "setattr":
                ch = i.data == "properties" and f2.term(i.args[0]) == ("self",)
            elif i.op == "call" and last(i.fn) in MUT and i.recv is not None:
                ch = foreign(f2, f2.term(i.recv))
            if not ch or m.name in ("__hash__", "__eq__", "__lt__", "__str__", "__repr__"):
                continue
            n += 1
            ctx.count("changes of a key")
            for fld in cached:
                def reset(j, fld=fld):
                    return j.op == "setattr" and j.data == fld and f2.term(j.args[0]) == ("self",) and f2.term(j.args[1]) == ("const", None)
                bad, ex = must_pass(f2, i, lambda j: j.op == "exit", reset, follow_exc=False)
                if bad:
                    # reset right before the change is as good
                    pre = [j for j in f2.g.of("setattr") if reset(j)]
                    if not (pre and dominates_all(f2, pre, i)):
                        ctx.fail("stale-hash", f"after this change of a key its cached hash {fld} is still the old one", i.loc)
            # reading the hash between (e.g. recomputing before the change) is harmless
        for i in f2.g.of("setattr"):
            if i.data in cached and f2.term(i.args[0]) == ("self",) and m.name not in ("__hash__",) and m is not hm:
                for t in alts(f2.term(i.args[1])):
                    if t != ("const", None) and not any(is_call_term(x, "hash_dict") or x[0] == "call" and "intdigest" in (x[1] or "") for x in subterms(t)):
                        if any(x[0] == "param" for x in subterms(t)):
                            ctx.fail("stale-hash", f"the cached hash is set to {show(t)[:60]}", i.loc)
    # elsewhere
    for mod in ctx.proj.modules.values():
        if "/tests/" in mod.rel or mod.rel == c.module.rel:
            continue
        for nd in ast.walk(mod.tree):
            hit = None
            if isinstance(nd, (ast.Assign, ast.AugAssign, ast.Delete)):
                for t in (nd.targets if not isinstance(nd, ast.AugAssign) else [nd.target]):
                    x = t
                    while isinstance(x, ast.Subscript):
                        x = x.value
                    if isinstance(x, ast.Attribute) and x.attr in ("properties", "_hash") and (isinstance(t, ast.Subscript) or not (
                            isinstance(x.value, ast.Name) and x.value.id == "self")):
                        hit = x.attr
            if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in MUT:
                x = nd.func.value
                while isinstance(x, ast.Subscript):
                    x = x.value
                if isinstance(x, ast.Attribute) and x.attr == "properties":
                    hit = "properties"
            if hit:
                ctx.fail("changed-outside", f"{hit} of a mixture key is changed outside the class: the cached hash stays the old one", f"{mod.rel}:{nd.lineno}")
    ctx.count("cached fields", len(cached))


def dominates_all(fl, pre, i):
    ids = {j.id for j in pre}
    bad, _ = must_pass(fl, fl.g.entry, lambda j: j is i, lambda j: j.id in ids, follow_exc=False)
    return not bad


# ------------------------------------------------------------------ equality
def tm(v):
    """Run value -> plain term."""
    if isinstance(v, Lin):
        if v.const:
            return ("const", v.c)
        if v.c == 0 and len(v.m) == 1:
            (a, k), = v.m
            if k == 1:
                return tm(a)
        return ("lin", repr(v))
    if not isinstance(v, tuple) or not v:
        return v
    if v[0] == "t":
        return tm(strip_ids(v[1]))
    if v[0] == "not":
        return ("not", tm(v[1]))
    if v[0] == "un" or v[0] == "unary":
        return ("not", tm(v[2])) if v[1] == "Not" else (v[0], v[1], tm(v[2]))
    if v[0] == "elem":
        return ("elem", tm(v[1]))
    if v[0] == "call":
        return ("call", last(v[1]) if v[1] else v[1], tm(v[2]) if v[2] is not None else None, tuple(tm(x) for x in v[3]), tuple((k, tm(x)) for k, x in v[4]))
    if v[0] in ("keyof", "valof"):
        it = ("call", "items", tm(v[1]), (), ())
        return ("item", ("elem", it), ("const", 0 if v[0] == "keyof" else 1))
    if v[0] in ("const", "param", "self", "sent", "comp", "new", "var"):
        return tuple(v[:2]) if v[0] in ("const", "param") else v
    if v[0] == "global" or v[0] == "cls":
        return v
    return tuple(tm(x) if isinstance(x, (tuple, Lin)) else x for x in v)


SELF = ("attr", ("self",), "properties")


class Table:
    """Evaluates conditions of one turn under an assignment of: P (property present in the other), I (common value), A/B (own/other values empty)."""

    def __init__(self, other, src, env):
        self.o = ("attr", other, "properties")
        self.e = ("elem", src)
        self.env = env  # dict P,I,A,B or None for pre-loop

    def key(self, t):
        if t == self.e:
            return callname(self.e[1]) != "items" if self.e[1][0] == "call" else True
        return t[0] == "item" and t[1] == self.e and t[2] == ("const", 0)

    def coll(self, t):
        """'V' own values, 'O' other values (present), 'G'/'GN' other values by get with empty/None default, 'X' common values; with wrappers removed."""
        while t[0] == "call" and t[1] in ("set", "frozenset", "list", "tuple", "sorted", "map") and t[3]:
            t = t[3][-1]
        if t[0] == "item" and t[1] == self.e and t[2] == ("const", 1):
            return "V"
        if t[0] == "item" and t[1] == SELF and self.key(t[2]):
            return "V"
        if t[0] == "item" and t[1] == self.o and self.key(t[2]):
            return "O"
        if t[0] == "call" and t[1] == "get" and t[2] == self.o and t[3] and self.key(t[3][0]):
            if len(t[3]) == 1 or t[3][1] == ("const", None):
                return "GN"
            return "G"
        if t[0] == "call" and t[1] == "get" and t[2] == SELF and t[3] and self.key(t[3][0]):
            return "V"
        if t[0] == "call" and t[1] == "intersection" and t[2] is not None and len(t[3]) == 1:
            return self.common(t[2], t[3][0])
        if t[0] == "bin" and t[1] == "BitAnd":
            return self.common(t[2], t[3])
        if t[0] == "bin" and t[1] == "BitOr" or t[0] == "call" and t[1] == "union" and t[2] is not None and len(t[3]) == 1:
            a, b = (t[2], t[3]) if t[0] == "bin" else (t[2], t[3][0])
            s = {self.coll(a), self.coll(b)}
            return "U" if s <= {"V", "O"} and len(s) == 2 else None
        if t == SELF or t == self.o:
            return "S" if t == SELF else "T"
        if t[0] == "call" and t[1] in ("keys",) and t[2] in (SELF, self.o):
            return "S" if t[2] == SELF else "T"
        return None

    def common(self, a, b):
        s = {self.coll(a), self.coll(b)}
        return "X" if s in ({"V", "O"}, {"V", "G"}) else None

    def empty(self, k):
        e = self.env
        if k == "V":
            return e["A"]
        if k == "O":
            if not e["P"]:
                raise Raises()
            return e["B"]
        if k == "G":
            return not e["P"] or e["B"]
        if k == "GN":
            return not e["P"] or e["B"]
        if k == "X":
            return not (e["P"] and e["I"])
        if k == "U":
            if not e["P"]:
                raise Raises()
            return e["A"] and e["B"]
        raise AnchorError("collection not recognised")

    def ev(self, t):
        """True/False/None unknown."""
        e = self.env
        if t[0] == "not":
            x = self.ev(t[1])
            return x if x in (None, "both") else not x
        if t[0] == "const":
            return bool(t[1])
        if t[0] == "bool" or t[0] == "call" and t[1] == "bool" and t[3]:
            return self.ev(t[3][0])
        k = self.coll(t) if t[0] in ("item", "call", "bin") else None
        if k in ("V", "O", "G", "GN", "X", "U"):
            return not self.empty(k)
        if t[0] == "call" and t[1] == "len" and t[3]:
            k = self.coll(t[3][0])
            return None if k in (None, "S", "T") else not self.empty(k)
        if t[0] == "call" and t[1] == "isdisjoint" and t[2] is not None and len(t[3]) == 1:
            return self.empty("X") if self.common(t[2], t[3][0]) == "X" else None
        if t[0] == "call" and t[1] in ("issubset", "issuperset") and t[2] is not None and len(t[3]) == 1 and {self.coll(t[2]), self.coll(t[3][0])} == {"V", "O"}:
            return self.ev(("cmp", "LtE" if t[1] == "issubset" else "GtE", t[2], t[3][0]))
        if t[0] == "cmp":
            op, l, r = t[1], t[2], t[3]
            if op in ("In", "NotIn") and self.key(l) and (r == self.o or r[0] == "call" and r[1] in ("keys", "set", "list", "sorted") and (r[2] == self.o or self.o in r[3])):
                return e["P"] == (op == "In")
            if op in ("Is", "IsNot", "Eq", "NotEq") and r == ("const", None) and self.coll(l) == "GN":
                return (not e["P"]) == (op in ("Is", "Eq"))
            if op in ("Is", "IsNot", "Eq", "NotEq") and r == ("const", None) and self.coll(l) in ("V", "O", "G", "X"):
                return op in ("IsNot", "NotEq")
            for a, b, o in ((l, r, op), (r, l, {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(op, op))):
                if a[0] == "call" and a[1] == "len" and a[3] and b[0] == "const" and isinstance(b[1], int):
                    k = self.coll(a[3][0])
                    if k in (None, "S", "T"):
                        continue
                    em = self.empty(k)
                    n = b[1]
                    if (o, n) in (("Gt", 0), ("NotEq", 0), ("GtE", 1)):
                        return not em
                    if (o, n) in (("Eq", 0), ("LtE", 0), ("Lt", 1)):
                        return em
                    return None
                if op in ("Eq", "NotEq") and self.coll(a) in ("V", "O", "X") and (b[0] in ("list", "set", "tuple") and len(b) == 1 or b[0] == "call" and b[1] in ("set", "list") and not b[3]):
                    return self.empty(self.coll(a)) == (op == "Eq")
            if op in ("Eq", "NotEq") and {self.coll(l), self.coll(r)} == {"V", "O"}:
                # equality of the value lists themselves: implied only if both are empty, excluded if there is no common value
                if e["A"] and e["B"]:
                    return op == "Eq"
                if not e["P"]:
                    raise Raises()
                if not e["I"]:
                    return op != "Eq"
                return "both"
            if op in ("LtE", "GtE") and {self.coll(l), self.coll(r)} == {"V", "O"}:
                sub = self.coll(l if op == "LtE" else r)
                if not e["P"]:
                    raise Raises()
                return True if e["A" if sub == "V" else "B"] else "both" if e["I"] else False
        return None


class Raises(Exception):
    pass


def assignments():
    for P, I, A, B in itertools.product((True, False), repeat=4):
        if not P and (I or B):
            continue
        if I and (A or B):
            continue
        yield {"P": P, "I": I, "A": A, "B": B}


def describe(e):
    if not e["P"]:
        return "a property the other key does not have"
    if e["I"]:
        return "a property with a common value"
    if e["A"] and e["B"]:
        return "a property without values on either side"
    if e["A"] or e["B"]:
        return "a property with values on one side only"
    return "a property without a common value"


def verdict(fl, r, ins):
    t = tm(r.v(ins.args[0])) if ins.args else ("const", None)
    return t


def equality(ctx, c):
    m = method(ctx, c, "__eq__")
    fl = everything(ctx, c, m)
    g = fl.g
    pure_part(ctx, fl, "the comparison")
    other = ("param", m.params()[1] if len(m.params()) > 1 else "other")
    heads = []
    for h in g.of("next"):
        b = strip_ids(fl.term(h.args[0]))
        b = b[-1] if b[0] == "iterof" else b
        s = source(fl, b)
        if any(props(x) for x in subterms(b)) and (s is None or s[0] == "properties"):
            heads.append((h, tm(wrap(b)), s))
    own = [(h, b, s) for h, b, s in heads if any(x == SELF for x in subterms(b))]
    if len(own) != 1:
        if heads and not own:
            ctx.fail("wrong-properties", "the comparison iterates over the properties of the other key instead of its own", heads[0][0].loc)
            return
        raise AnchorError("loop over the properties in the comparison not recognised")
    h, src, s = own[0]
    if s is None or s[1] or any(x == ("attr", other, "properties") for x in subterms(src)):
        ctx.fail("wrong-properties", f"the comparison does not look at all own properties: {show(src)[:80]}", h.loc)
        return
    # one turn
    outs = {}  # consumer of a generator: all / any
    consumer = None
    elems = [i for i in body_of(h) if i.op == "elem"]
    if elems:
        for i in g.calls():
            if last(i.fn) in ("all", "any") and i.args and strip_ids(fl.term(i.args[0]))[0] == "comp":
                consumer = i
        if consumer is None:
            raise AnchorError("result of the comparison not recognised")
    segs = segments(fl, [(h, "next")], {h.id})
    turns = 0
    rows = {}
    for kind, end, path in segs:
        if kind == "raise":
            continue
        r = execute(fl, path, frozenset())
        if r is None:
            continue
        out = None
        if kind == "cut":
            el = [i for i, _ in path if i.op == "elem"]
            out = ("elem", tm(r.v(el[0].args[-1]))) if el else ("go",)
        elif kind == "return":
            out = ("ret", verdict(fl, r, end))
        else:
            raise AnchorError("turn of the comparison not recognised")
        conds = [(tm(x) if not isinstance(x, Lin) else tm(x), l, i) for x, l, i in r.conds]
        rows[len(rows)] = (conds, out, end)
    for e in assignments():
        T = Table(other, src, e)
        match = e["P"] and (e["I"] or (e["A"] and e["B"]))
        hit = False
        for conds, out, end in rows.values():
            ok = True
            try:
                for t, lab, i in conds:
                    v = T.ev(t)
                    if v is None:
                        raise AnchorError(f"{i.loc}: condition of the comparison not recognised: {show(t)[:80]}")
                    if v != lab and v != "both":
                        ok = False
                        break
                if not ok:
                    continue
                hit = True
                if out[0] == "go":
                    got = True
                elif out[0] == "ret":
                    if out[1][0] != "const":
                        x = T.ev(out[1])
                        if x is None:
                            raise AnchorError("verdict of the comparison not recognised")
                        got = x if x == "both" else "end" if x else False
                    else:
                        got = "end" if out[1][1] is True else False
                else:
                    x = T.ev(out[1])
                    if x is None:
                        raise AnchorError("element of the comparison not recognised")
                    neg = last(consumer.fn) == "any"
                    got = x if x == "both" else (not x) if neg else x
            except Raises:
                ctx.fail("match", f"the comparison fails for {describe(e)}", h.loc)
                hit = True
                continue
            turns += 1
            ctx.count("cases decided")
            if got == "end":
                ctx.fail("match", f"keys compare equal as soon as one property matches ({describe(e)}), the others are not looked at", end.loc)
            elif got == "both":
                ctx.fail("match", f"keys with {describe(e)} are taken for a match or for different depending on something else", h.loc)
            elif got != match:
                ctx.fail("match", f"keys with {describe(e)} are taken {'for a match' if got else 'for different'}", end.loc if out[0] == "ret" else h.loc)
        if not hit:
            ctx.fail("match", f"no verdict for {describe(e)}", h.loc)
    # before and after the loop
    for kind, end, path in segments(fl, [(g.entry, None)], {h.id}):
        if kind != "return":
            continue
        r = execute(fl, path, frozenset())
        if r is None:
            continue
        t = verdict(fl, r, end)
        conds = [(tm(x), l) for x, l, i in r.conds]
        if t == ("const", False) or t[0] != "const":
            if any(x[0] == "call" and x[1] == "isinstance" and x[3] and x[3][0] == other and not l for x, l in map(unneg, conds)):
                ctx.count("early verdicts")
                continue
            if any(subset_fails(x, l, other) for x, l in map(unneg, conds)):
                ctx.count("early verdicts")
                continue
            if t[0] != "const" and not (t[0] == "global" and "NotImplemented" in str(t)):
                raise AnchorError("verdict before looking at the properties not recognised")
            ctx.fail("match", f"keys are taken for different before their properties are compared ({'; '.join(show(x)[:60] for x, l in conds)})", end.loc)
        elif t == ("const", True):
            if any(x[0] == "cmp" and x[1] == "Is" and l and {x[2], x[3]} == {("self",), other} or empty_self(x, l) for x, l in map(unneg, conds)):
                continue
            ctx.fail("match", f"keys are taken for equal before their properties are compared ({'; '.join(show(x)[:60] for x, l in conds)})", end.loc)
    for kind, end, path in segments(fl, [(h, "stop")], set()):
        if kind != "return":
            continue
        r = execute(fl, path, frozenset())
        if r is None:
            continue
        t = verdict(fl, r, end)
        if consumer is not None:
            neg = last(consumer.fn) == "any"
            want = ("not",) if neg else ("call",)
            if t[0] == "const" or (t[0] == "not") != neg:
                ctx.fail("match", "the verdict after comparing all properties is wrong", end.loc)
            elif t[0] == "bin" or t[0] == "cmp":
                ctx.fail("match", "the verdict depends on more than the own properties", end.loc)
        elif t != ("const", True):
            if t[0] == "const":
                ctx.fail("match", "keys whose properties all match are not taken for equal", end.loc)
            else:
                ctx.fail("match", f"keys whose properties all match are taken for different depending on {show(t)[:60]}", end.loc)
    ctx.floor("cases decided", 6)


def unneg(xl):
    x, l = xl
    while x[0] == "not":
        x, l = x[1], not l
    return x, l


def subset_fails(x, l, other):
    """Condition under which the own properties cannot all be present in the other key."""
    o = ("attr", other, "properties")

    def ks(t):
        while t[0] == "call" and t[1] in ("set", "frozenset") and t[3]:
            t = t[3][0]
        if t[0] == "call" and t[1] == "keys" and t[2] is not None:
            t = t[2]
        return t
    if x[0] == "cmp":
        a, b = x[2], x[3]
        if a[0] == b[0] == "call" and a[1] == b[1] == "len":
            a, b = ks(a[3][0]), ks(b[3][0])
            return (a, b) == (SELF, o) and (x[1], l) in (("Gt", True), ("LtE", False)) or (a, b) == (o, SELF) and (x[1], l) in (("Lt", True), ("GtE", False))
        return (ks(a), ks(b)) == (SELF, o) and (x[1], l) == ("LtE", False) or (ks(a), ks(b)) == (o, SELF) and (x[1], l) == ("GtE", False)
    if x[0] == "call" and x[1] == "issubset" and x[2] is not None:
        return ks(x[2]) == SELF and ks(x[3][0]) == o and not l
    if x[0] == "bin" and x[1] == "Sub":
        return ks(x[2]) == SELF and ks(x[3]) == o and l
    return False


def empty_self(x, l):
    return x == SELF and not l or x[0] == "cmp" and x[1] == "Eq" and l and x[2] == ("call", "len", None, (SELF,), ()) and x[3] == ("const", 0)


# ------------------------------------------------------------------ order
def mirror(t, other):
    if t == ("self",):
        return other
    if t == other:
        return ("self",)
    if isinstance(t, tuple):
        return tuple(mirror(x, other) if isinstance(x, tuple) else x for x in t)
    return t


def canon(t):
    """zip elements by component; subscripts by a key of either side identified."""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("item",) and t[1][0] == "elem" and t[1][1][0] == "call" and t[1][1][1] == "zip" and t[2][0] == "const" and isinstance(t[2][1], int) and t[2][1] < len(t[1][1][3]):
        return ("elem", canon(t[1][1][3][t[2][1]]))
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def same_keys(t, other):
    """Identifies the (equal) sorted key lists of both sides where they are used as subscripts."""
    if not isinstance(t, tuple):
        return t
    if t[:1] == ("item",) and t[1][0] == "attr" and t[1][2] == "properties":
        k = t[2]
        if k[0] == "elem":
            k = ("elem", mirror(k[1], other) if any(x == other for x in subterms(k[1])) else k[1])
        return ("item", t[1], k)
    return tuple(same_keys(x, other) if isinstance(x, tuple) else x for x in t)


def order(ctx, c):
    m = method(ctx, c, "__lt__")
    fl = ctx.flow(m, lambda fi, call, fr: fi.name not in ("__str__", "__repr__", "__hash__"), selfcls=c, key="lt")
    g = fl.g
    pure_part(ctx, fl, "the order")
    other = ("param", m.params()[1] if len(m.params()) > 1 else "other")
    n = 0
    final = []
    for i in root_returns(fl):
        for t in alts(strip_ids(fl.term(i.args[0]))):
            t = canon(tm(wrap(t)))
            if t[0] == "const" or "NotImplemented" in str(t):
                if t[0] == "const" and not guarded_by_type(fl, i, other):
                    ctx.fail("order", f"the order of two keys is decided without comparing them ({t[1]})", i.loc)
                continue
            if t[0] != "cmp":
                raise AnchorError(f"{i.loc}: verdict of the order not recognised")
            op, a, b = t[1], t[2], t[3]
            n += 1
            ctx.count("order verdicts")
            if op in ("LtE", "GtE", "Eq", "NotEq", "In", "NotIn", "Is", "IsNot"):
                ctx.fail("order", f"the order of keys is not strict ({op})", i.loc)
                continue
            ma, mb = same_keys(a, other), same_keys(mirror(b, other), other)
            if ma != mb:
                ctx.fail("order", f"the order compares different things of the two keys: {show(a)[:60]} with {show(b)[:60]}", i.loc)
                continue
            for x in (a, b):
                if raw(fl, x) or x[0] == "call" and x[1] in ("tuple", "list", "str") and x[3] and raw(fl, x[3][0]):
                    ctx.fail("order", f"the order of keys depends on the order in which their values were given: {show(x)[:60]}", i.loc)
            gd = guard(fl, i)
            if gd is None:
                final.append((i, a))
            else:
                x, l = gd
                x = canon(tm(wrap(strip_ids(x))))
                x, l = unneg((x, l))
                if x[0] == "cmp" and {x[2], x[3]} == {a, b} and (x[1], l) in (("NotEq", True), ("Eq", False), ("Lt", True), ("Gt", True)):
                    continue
                if x[0] == "cmp" and (x[1], l) in (("NotEq", True), ("Eq", False)) and {x[2], x[3]} != {a, b}:
                    if {same_keys(x[2], other), same_keys(x[3], other)} == {same_keys(a, other), same_keys(b, other)}:
                        continue
                    ctx.fail("order", f"keys that differ in {show(x[2])[:50]} are ordered by {show(a)[:50]}, which may be the same", i.loc)
                    continue
                final.append((i, a))
    for i, a in final:
        if not whole(fl, a):
            ctx.fail("order", f"keys that differ may be left without an order: {show(a)[:60]} does not cover all properties and values", i.loc)
    if not n:
        raise AnchorError("order of keys not recognised")


def guarded_by_type(fl, i, other):
    gd = guard(fl, i)
    return gd is not None and any(is_call_term(x, "isinstance") for x in subterms(gd[0]))


def guard(fl, i):
    """Condition (term, polarity) of the last branch on the way to instruction i, if that branch alone decides it."""
    j, n = i, 0
    while n < 400:
        n += 1
        ps = [(p, l) for p, l in j.pred if l not in ("exc", "exc-base")]
        if len(ps) != 1:
            return None
        p, l = ps[0]
        if p.op == "branch":
            return fl.term(p.args[0]), l
        if p.op == "next" and l == "stop":
            return None
        j = p
    return None


def whole(fl, t):
    if t[0] == "call" and t[1] in ("str", "repr", "__str__", "__repr__", "hash", "__hash__"):
        return True
    ss = list(subterms(t))
    if any(x[0] == "call" and x[1] in ("str", "repr", "__str__") for x in ss) and any(x == ("self",) for x in ss):
        return True
    k = any(props(x) or x[0] == "call" and x[1] in ("keys", "items") for x in ss)
    v = any(x[0] == "call" and x[1] in ("items", "values") or x[0] == "item" and props(x[1]) for x in ss)
    return k and v


# ------------------------------------------------------------------ ids
FIELD = "_key_id_map"


def id_map(t):
    return t[0] == "attr" and t[1] == ("self",) and t[2] == FIELD


def on_map(t):
    return any(id_map(x) for x in subterms(t))


def assigner(ctx, q):
    ms = [m for m in q.methods.values() if any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Attribute)
                                               and n.value.attr == FIELD for n in ast.walk(m.node)) or m.name == "_update_key_id_map"]
    names = {m.name for m in ms}
    # the method called by others
    if "_update_key_id_map" in names:
        return q.methods["_update_key_id_map"]
    if len(ms) != 1:
        raise AnchorError("assignment of the ids not recognised")
    return ms[0]


def assign(ctx, q):
    m = assigner(ctx, q)
    fl = ctx.flow(m, ctx.local_policy(m, q), selfcls=q, key="ids")
    g = fl.g
    sets = [i for i in g.of("setitem") if id_map(fl.term(i.args[0]))]
    ups = [i for i in g.calls() if last(i.fn) in ("update", "setdefault") and i.recv is not None and id_map(fl.term(i.recv))]
    for i in g.live:
        if i.op == "delitem" and id_map(fl.term(i.args[0])) or i.op == "call" and last(i.fn) in ("pop", "popitem", "clear") and i.recv is not None and id_map(fl.term(i.recv)):
            ctx.fail("id-changed", "a key loses the id it was given", i.loc)
        if i.op == "setattr" and i.data == FIELD:
            t = fl.term(i.args[1])
            if not on_map(t):
                ctx.fail("id-changed", "the ids given before are dropped", i.loc)
    if ups or not sets:
        raise AnchorError("assignment of the ids not recognised")
    ctx.count("id assignments", len(sets))
    for i in sets:
        hs = loops_around(fl, i)
        if len(hs) != 1:
            raise AnchorError(f"{i.loc}: loop over the keys not recognised")
        one_assignment(ctx, fl, i, hs[0], sets)
    # informing the mixture
    inf = [i for i in g.calls() if last(i.fn) == "process_id_map"]
    for i in inf:
        if not (i.args and id_map(fl.term(i.args[0]))):
            ctx.fail("uninformed", "the mixture is informed about something else than the map of ids", i.loc)
        if i.recv is not None and fl.term(i.recv) != ("attr", ("self",), "_mixture"):
            ctx.fail("uninformed", "another mixture than the one in use is informed about the ids", i.loc)
    ids = {i.id for i in inf}
    for s in sets:
        bad, ex = must_pass(fl, s, lambda j: j.op == "exit", lambda j: j.id in ids, follow_exc=False)
        if bad:
            ctx.fail("uninformed", "the mixture in use is not informed about an id assigned here", s.loc)


def one_assignment(ctx, fl, s, h, sets):
    g = fl.g
    K = strip_ids(fl.term(s.args[1]))
    it = strip_ids(fl.term(h.args[0]))
    it = it[-1] if it[0] == "iterof" else it
    # order
    srt = [x for x in subterms(it) if is_call_term(x, "sorted")]
    coll = it
    enum = is_call_term(it, "enumerate")
    if enum:
        coll = it[3][0]
    if not srt:
        if coll[0] in ("list0", "phi") or is_call_term(coll, "list") or True:
            ls = [i for i in g.calls() if last(i.fn) == "sort" and i.recv is not None and strip_ids(fl.term(i.recv)) == coll]
            if not ls:
                ctx.fail("id-order", f"ids are given in an order that is not fixed: {show(coll)[:80]}", h.loc)
    for x in srt:
        if dict(x[4]).get("key") is not None:
            k = dict(x[4])["key"]
            if any("hash" in str(y) or y == ("const", "id") for y in subterms(k)) or "'id'" in str(k):
                ctx.fail("id-order", "ids are given in an order that depends on the process", h.loc)
    havoc = stored_in(body_of(h))
    counters = set()
    for kind, path in loop_paths(fl, h):
        if kind in ("stop", "raise"):
            if kind == "stop":
                continue
            continue
        r = execute(fl, path, havoc)
        if r is None:
            continue
        ctx.count("id turns")
        absent = None
        for x, l, i in r.conds:
            x, l = unneg((tm(x), l))
            if x[0] == "cmp" and x[1] in ("In", "NotIn") and any(y[0] == "attr" and y[2] == FIELD for y in subterms(x[3])):
                absent = (x[1] == "NotIn") == l
            elif x[0] == "cmp" and x[1] in ("Is", "IsNot") and x[3] == ("const", None) and x[2][0] == "call" and x[2][1] == "get":
                absent = (x[1] == "Is") == l
        done = [(i, a) for i, a, _ in r.events if i.op == "setitem" and i in sets]
        if len(done) > 1:
            ctx.fail("id-twice", "two ids are given in one turn", h.loc)
            continue
        filtered = absent_only(fl, coll)
        if not done:
            if kind != "loop":
                ctx.fail("id-missing", "some keys of the mixture get no id (the loop is left early)", h.loc)
            elif absent is not False:
                ctx.fail("id-missing", "a key of the mixture that has no id yet is passed over", h.loc)
            continue
        if kind != "loop":
            ctx.fail("id-missing", "some keys of the mixture get no id (the loop is left early)", h.loc)
        if absent is not True and not filtered:
            ctx.fail("id-changed", "a key that already has an id gets a new one", s.loc)
        i, a = done[0]
        v = a[2] if len(a) > 2 else r.v(i.args[-1])
        fresh(ctx, fl, r, s, h, v, counters, enum, it, havoc)
    # a counter moves on after each use
    for k in counters:
        base_ok(ctx, fl, k, h, s)
    needs(ctx, fl, h, coll, s)


def absent_only(fl, coll):
    """The collection only contains keys that are not in the map."""
    for x in subterms(coll):
        if x[0] == "bin" and x[1] == "Sub" and on_map(x[3]):
            return True
        if is_call_term(x, "difference") and any(on_map(a) for a in x[3]):
            return True
        if x[0] == "comp":
            for i in fl.g.of("elem"):
                if strip_ids(fl.term(i.args[0])) == x:
                    gd = guard(fl, i)
                    if gd is not None:
                        y, l = unneg((tm(wrap(strip_ids(gd[0]))), gd[1]))
                        if y[0] == "cmp" and (y[1], l) in (("NotIn", True), ("In", False)) and any(z[0] == "attr" and z[2] == FIELD for z in subterms(y[3])):
                            return True
    return False


def fresh(ctx, fl, r, s, h, v, counters, enum, it, havoc):
    x = lin(v) if not isinstance(v, Lin) else v
    t = tm(x)
    if t[0] == "call" and t[1] == "next":
        raise AnchorError("ids from an iterator not recognised")
    if t[0] == "index" or enum and t[0] == "item" and t[1][0] == "elem" and t[2] == ("const", 0):
        st = it[3][1] if len(it[3]) > 1 else dict(it[4]).get("start", ("const", 0))
        base(ctx, fl, st, s)
        return
    if t[0] == "call" and t[1] == "len" and t[3] and id_map(t[3][0]) or t[0] == "call" and t[1] == "len" and t[3] and on_map(t[3][0]):
        ctx.count("fresh ids")
        return
    if "max" in str(t) and on_map(t) and isinstance(x, Lin):
        if x.c >= 1 or "default" in str(t):
            ctx.count("fresh ids")
            return
        ctx.fail("id-shared", "the new id is the highest one already given", s.loc)
        return
    # counter variable (+ constant)
    m = dict(x.m)
    vs = [a for a in m if isinstance(a, tuple) and a and a[0] == "var"]
    if len(m) == 1 and vs and m[vs[0]] == 1:
        k = vs[0][1]
        counters.add(k)
        end = r.env.get(k, vs[0])
        d = lin(end) - x
        if not (d.const and d.c >= 1):
            ctx.fail("id-shared", "the same id is given to several keys: the counter does not move on after each use", s.loc)
        ctx.count("fresh ids")
        return
    if x.const:
        ctx.fail("id-shared", f"every key gets the id {x.c}", s.loc)
        return
    if any(y[0] == "call" and y[1] in ("hash", "__hash__", "hash_dict") for y in subterms(t)):
        ctx.fail("id-shared", "ids derived from the hash of a key need not be distinct", s.loc)
        return
    raise AnchorError(f"{s.loc}: new id not recognised: {show(t)[:80]}")


def base_ok(ctx, fl, k, h, s):
    body = {i.id for i in body_of(h)}
    for i in fl.g.of("store"):
        if i.data != k or i.id in body:
            continue
        base(ctx, fl, fl.term(i.args[0]), s, i)


def base(ctx, fl, t, s, at=None):
    for x in alts(t):
        ctx.count("id bases")
        y = tm(wrap(strip_ids(x)))
        if y == ("const", 0) or y[0] == "const":
            # only if the map is empty
            if y[1] != 0 and not (isinstance(y[1], int) and y[1] > 0):
                ctx.fail("id-shared", f"ids start at {y[1]}", s.loc)
            if not under_empty(fl, x, t, at):
                ctx.fail("id-shared", "ids start from 0 again although keys already have ids", (at or s).loc)
            continue
        if y[0] == "call" and y[1] == "len" and on_map(y):
            continue
        if y[0] == "bin" and y[1] == "Add" and y[3][0] == "const" and y[3][1] >= 1 and is_max(y[2]) or y[0] == "bin" and y[1] == "Add" and y[2][0] == "const" and is_max(y[3]):
            continue
        if is_max(y):
            ctx.fail("id-shared", "the first new id is the highest one already given", (at or s).loc)
            continue
        if any(z[0] == "call" and z[1] in ("max", "len") for z in subterms(y)) and on_map(y):
            if y[0] == "bin" and y[1] == "Sub":
                ctx.fail("id-shared", "the first new id is one already given", (at or s).loc)
                continue
        raise AnchorError(f"start of new ids not recognised: {show(y)[:80]}")


def is_max(y):
    return y[0] == "call" and y[1] == "max" and any(z[0] == "call" and z[1] == "values" and z[2] is not None and id_map(z[2]) for z in subterms(y))


def empties(fl):
    """Explorer hook assuming that no key has an id yet."""
    def hook(d):
        t = None
        if d.dst is not None and d.op in ("call", "attr", "cmp", "unary"):
            t = strip_ids(fl.term(d.dst))
        if t is None:
            return None
        if id_map(t):
            return "falsy"
        if is_call_term(t, "len") and t[3] and on_map(t[3][0]) and map_view(t[3][0]):
            return ("c", 0)
        if t[0] == "call" and callname(t) in ("keys", "values", "items") and t[2] is not None and id_map(t[2]):
            return "falsy"
        return None
    return hook


def nonempties(fl):
    def hook(d):
        t = strip_ids(fl.term(d.dst)) if d.dst is not None and d.op in ("call", "attr") else None
        if t is None:
            return None
        if id_map(t):
            return "truthy"
        if is_call_term(t, "len") and t[3] and on_map(t[3][0]) and map_view(t[3][0]):
            return ("c", 3)
        return None
    return hook


def map_view(t):
    return id_map(t) or t[0] == "call" and callname(t) in ("keys", "values", "items", "list", "set", "tuple") and (t[2] is not None and id_map(t[2]) or any(map_view(x) for x in t[3]))


def under_empty(fl, x, t, at):
    """The constant alternative x of t is only taken if the map is empty: with a non-empty map no path defines it."""
    g = fl.g
    cs = [i for i in g.of("const") if i.data == x[1]]
    hook = nonempties(fl)
    ex = Explorer(fl, lambda i, s: [s], follow_exc=False, hook=hook)
    vis = ex.run(0)
    live = {k[0] for k in vis}
    # stores of a constant into the variable (or the temporary of a conditional expression)
    for i in g.of("store"):
        if at is not None and (i is at or i.data == at.data or str(i.data[1]).startswith("$")) or at is None:
            d = g.tempdef.get(i.args[0])
            if d is not None and d.op == "const" and d.data == x[1] and type(d.data) is int and i.id in live and (at is None or feeds(fl, i, at)):
                return False
    return True


def feeds(fl, st, at):
    if st is at or st.data == at.data:
        return True
    d = fl.g.tempdef.get(at.args[0])
    for _ in range(6):
        if d is None:
            return False
        if d.op == "load":
            if d.data == st.data:
                return True
            r = fl.rdefs(d, d.data)
            if len(r) == 1 and r[0] is not None:
                d = fl.g.tempdef.get(r[0].args[0])
                continue
        return False
    return False


def needs(ctx, fl, h, coll, s):
    """The keys ids are given to: all keys of the mixture, and those of the index as long as there are no ids yet."""
    g = fl.g
    mix, idx = [], []
    c0 = strip_ids(coll)
    while is_call_term(c0, "sorted", "list", "set", "tuple") and c0[3]:
        c0 = c0[3][0]
    ts = [c0]
    if c0[0] == "comp":
        ts += [strip_ids(b) for b in bases_of(fl, c0)]
    roots = {a for t in ts for a in alts(t)} | set(ts)
    for i in g.calls():
        if last(i.fn) in ("update", "union", "add", "extend", "append") and i.recv is not None and strip_ids(fl.term(i.recv)) in roots and (
                strip_ids(fl.term(i.recv))[0] != "call" or last(i.fn) in ("update", "extend")):
            for a in i.args:
                ts.append(strip_ids(fl.term(a)))
                if any(x[0] == "attr" and x[2] == "_chunker_index" for x in subterms(fl.term(a))):
                    idx.append(i)
    for i in g.live:
        if i.dst is not None and i.op in ("attr",) and fl.term(i.dst) == ("attr", ("self",), "_chunker_index"):
            idx.append(i)
    al = [x for t in ts for x in contributions(fl, t)]
    for i in g.calls():
        if last(i.fn) in ("all_keys", "mixture_in_rows"):
            mix.append(i)
    if not any(is_call_term(x, "all_keys", "mixture_in_rows") for x in al):
        ctx.fail("id-missing", "the keys of the mixture get no ids", h.loc)
    elif all(not is_call_term(x, "all_keys") for x in al):
        # only the keys in force: others (e.g. of a schedule) come into force later
        ctx.count("keys in force only")
    if not any(x[0] == "attr" and x[2] == "_chunker_index" for x in al):
        ctx.fail("id-missing", "the keys of the index get no ids: chunks of an arbitrary mixture consist of them", h.loc)
        return
    ids = {i.id for i in idx}
    bad, ex = must_pass(fl, g.entry, lambda j: j is h, lambda j: j.id in ids, follow_exc=False, hook=empties(fl))
    if bad:
        ctx.fail("id-missing", "the keys of the index get no ids although there are none yet", h.loc)


def writers(ctx, q):
    """No other place changes the map (or starts over) for a result that may already have handed out ids."""
    am = assigner(ctx, q)
    n = 0
    for mod in ctx.proj.modules.values():
        if "/tests/" in mod.rel:
            continue
        for f in all_functions(mod.tree):
            for nd in walk_scope(f):
                tgt = None
                if isinstance(nd, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Delete)):
                    for t in (nd.targets if isinstance(nd, (ast.Assign, ast.Delete)) else [nd.target]):
                        x = t
                        while isinstance(x, ast.Subscript):
                            x = x.value
                        if isinstance(x, ast.Attribute) and x.attr == FIELD:
                            tgt = (x, isinstance(t, ast.Subscript), getattr(nd, "value", None))
                if isinstance(nd, ast.Call) and isinstance(nd.func, ast.Attribute) and nd.func.attr in ("pop", "clear", "update", "setdefault", "popitem"):
                    x = nd.func.value
                    if isinstance(x, ast.Attribute) and x.attr == FIELD:
                        tgt = (x, True, None)
                if tgt is None:
                    continue
                x, sub, val = tgt
                n += 1
                ctx.count("writes of the map")
                own = enclosing_class(mod.tree, f)
                selfy = isinstance(x.value, ast.Name) and x.value.id == "self"
                loc = f"{mod.rel}:{nd.lineno}"
                if selfy and own not in (q.name,):
                    if sub and own == "ResultChunk":
                        ctx.fail("id-changed", "a chunk changes the map of ids", loc)
                    continue  # field of another class (mixture, chunk)
                if selfy and f.name == am.name:
                    continue
                if selfy and f.name == "__init__" and not sub:
                    if not (isinstance(val, ast.Dict) and not val.keys or isinstance(val, ast.Call) and not val.args and dotted(val.func) in ("dict",)):
                        raise AnchorError(f"{loc}: initial map of ids not recognised")
                    continue
                if selfy and calls_only_from(q, am, f.name):
                    continue
                if sub:
                    ctx.fail("id-changed", "ids are changed outside the assignment of fresh ones", loc)
                    continue
                # a restored state
                if val is not None and any(isinstance(y, ast.Constant) and y.value == FIELD for y in ast.walk(val)):
                    ctx.count("restored maps")
                    continue
                if val is not None and any(isinstance(y, ast.Attribute) and y.attr == FIELD for y in ast.walk(val)) and any(
                        isinstance(y, ast.Name) and "state" in y.id or isinstance(y, ast.Attribute) and "state" in y.attr for y in ast.walk(val)):
                    continue
                if isinstance(val, ast.Dict) and not val.keys or isinstance(val, ast.Call) and dotted(val.func) == "dict" and not val.args:
                    if cached_result(ctx, mod, f, x, loc, am):
                        continue
                    continue
                if isinstance(val, ast.Name) or isinstance(val, ast.Attribute):
                    raise AnchorError(f"{loc}: write of the map of ids not recognised")
                ctx.fail("id-changed", "the map of ids is replaced", loc)
    ctx.floor("writes of the map", 2)


def calls_only_from(q, am, name):
    """Method that only the assigning method calls."""
    if name not in q.methods:
        return False
    for m in q.methods.values():
        if m.name in (am.name, name):
            continue
        for nd in ast.walk(m.node):
            if isinstance(nd, ast.Attribute) and nd.attr == name:
                return False
    return any(isinstance(nd, ast.Attribute) and nd.attr == name for nd in ast.walk(am.node))


def all_functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]


def enclosing_class(tree, f):
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and any(x is f for x in ast.walk(n)):
            return n.name
    return None


def cached_result(ctx, mod, f, x, loc, am):
    """Starting over is fine for a result that comes fresh from the cache, provided the mixture is set (and ids are given) afterwards."""
    fi = next((x for x in ctx.proj.funcs.values() if x.node is f), None)
    if fi is None:
        raise AnchorError(f"{loc}: function not found")
    fl = ctx.flow(fi, ctx.local_policy(fi, fi.cls), selfcls=fi.cls, key="reset")
    for i in fl.g.of("setattr"):
        if i.data != FIELD or i.line != x.lineno:
            continue
        ctx.count("restarts of the map")
        b = fl.term(i.args[0])
        vals = [b]
        for j in fl.g.of("setattr"):
            if b[0] == "attr" and j.data == b[2] and fl.term(j.args[0]) == b[1]:
                vals.append(fl.term(j.args[1]))
        fresh_ = any(is_call_term(y, "get_queryresults_if_cached", "from_cache") for v in vals for y in subterms(v))
        if not fresh_:
            ctx.fail("id-changed", "the ids given before are dropped for a result that may be in use", i.loc)
        bad, ex = must_pass(fl, i, lambda j: j.op == "exit", lambda j: j.op == "call" and last(j.fn) in ("update_mixture", am.name), follow_exc=False)
        if bad:
            ctx.fail("id-missing", "after the map was emptied the keys get no ids", i.loc)
        return True
    return False


def calls(ctx, q):
    """Ids are given whenever the mixture of the result changes, before chunks of it are handed out."""
    am = assigner(ctx, q)

    def is_up(j):
        return j.op == "call" and last(j.fn) == am.name
    n = 0
    for m in q.methods.values():
        if not any(isinstance(x, ast.Attribute) and x.attr == "_mixture" and isinstance(x.ctx, ast.Store) for x in ast.walk(m.node)):
            continue
        fl = ctx.flow(m, ctx.local_policy(m, q, stop=(am.name,)), selfcls=q, key="setmix")
        for i in fl.g.of("setattr"):
            if i.data != "_mixture" or fl.term(i.args[0]) != ("self",):
                continue
            n += 1
            ctx.count("changes of the mixture")
            bad, ex = must_pass(fl, i, lambda j: j.op == "exit", is_up, follow_exc=False)
            if bad:
                ctx.fail("id-missing", "keys of the mixture set here get no ids", i.loc)
    if not n:
        raise AnchorError("change of the mixture not recognised")
    gm = [m for m in q.methods.values() if any(isinstance(x, ast.Call) and dotted(x.func) == "ResultChunk" for x in ast.walk(m.node))]
    for m in gm:
        fl = ctx.flow(m, ctx.local_policy(m, q, stop=(am.name,)), selfcls=q, key="chunks")
        g = fl.g
        rows = [i for i in g.calls() if last(i.fn) == "mixture_in_rows"]
        rt = {strip_ids(fl.term(i.dst)) for i in rows}

        def from_rows(t):
            return any(strip_ids(x) in rt for x in subterms(t))

        def unchanged(ins, lab):
            if ins.op != "branch":
                return False
            t, l = unneg((fl.term(ins.args[0]), lab))
            while t[0] == "un" and t[1] == "Not":
                t, l = t[2], not l
            if t[0] != "cmp" or t[1] not in ("Eq", "NotEq"):
                return False
            if not (from_rows(t[2]) or from_rows(t[3])):
                return False
            return (t[1] == "Eq") == l

        def chunk(j):
            if j.op != "call" or last(j.fn) != "ResultChunk":
                return False
            mx = arg_term(j, fl, 7, "mixture")
            return mx is not None and mx != ("const", None)
        cs = [j for j in g.calls() if chunk(j)]
        ctx.count("chunks handed out", len(cs))
        for r in rows:
            def hook(d, r=r):
                return None
            bad, ex = must_pass(fl, r, chunk, is_up, via_edge=unchanged, follow_exc=False, kill=lambda j: j.op == "call" and last(j.fn) == "mixture_in_rows")
            if bad:
                p = ex.path(bad[0])
                ctx.fail("id-missing", "chunks of a changed mixture are handed out before its keys have ids", bad[0][0].loc)
        for j in g.calls():
            if last(j.fn) == "ResultChunk":
                t = arg_term(j, fl, 5, "key_id_map")
                if t is None:
                    raise AnchorError("map handed to chunks not recognised")
                if not any(id_map(x) for x in subterms(t)):
                    ctx.fail("other-map", f"a chunk gets {show(t)[:60]} instead of the map of ids", j.loc)


def use(ctx, q):
    """A sample is labelled with the id of the key it belongs to."""
    c = ctx.proj.cls("ResultChunk")
    init = c.methods["__init__"]
    fl0 = ctx.flow(init, None, selfcls=c, key="init")
    for i in fl0.g.of("setattr"):
        if i.data == FIELD and fl0.term(i.args[0]) == ("self",):
            t = fl0.term(i.args[1])
            if not any(x[0] == "param" for x in subterms(t)):
                ctx.fail("other-map", "the chunk does not use the map of ids it is given", i.loc)
    n = 0
    for m in c.methods.values():
        if not any(isinstance(x, ast.Attribute) and x.attr == FIELD for x in ast.walk(m.node)) or m.name in ("__init__", "__getstate__", "__setstate__"):
            continue
        fl = ctx.flow(m, lambda *a: False, selfcls=c, key="use")
        for i in fl.g.of("yield"):
            t = strip_ids(fl.term(i.args[0])) if i.args else ("const", None)
            ks = [x for x in subterms(t) if x[0] == "item" and x[1] == ("attr", ("self",), FIELD)]
            gets = [x for x in subterms(t) if is_call_term(x, "get") and x[2] == ("attr", ("self",), FIELD)]
            if gets:
                ctx.fail("other-map", "samples of a key without an id are handed out", i.loc)
                continue
            if not ks:
                continue
            n += 1
            ctx.count("labelled samples")
            K = ks[0][2]
            its = [x for x in subterms(t) if is_call_term(x, "next")]
            if not its:
                raise AnchorError(f"{i.loc}: sample not recognised")
            src = its[0][3][0]
            if src[0] == "item":
                if src[2] != K:
                    ctx.fail("wrong-label", f"a sample of {show(src[2])[:40]} is labelled with the id of {show(K)[:40]}", i.loc)
            elif not (K[0] == "item" and src[0] == "item" and K[1] == src[1]) and not (K[0] == "keyof" and src[0] == "valof" and K[1] == src[1]) and not (
                    K[0] == "elem" and src[0] == "elem"):
                raise AnchorError(f"{i.loc}: origin of the sample not recognised")
    ctx.floor("labelled samples", 1)
