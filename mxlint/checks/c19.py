"""C19: the quotas of a mixture are whole, non-negative and add up to the chunk size in force.

 - every function that turns weights into rows returns rows summing to the chunk size (sum accounting, see quota.py), and mixtures whose
   weights are no whole are rejected where they are constructed;
 - when the chunk size of a mixture is changed, its rows are recomputed, through any wrapping mixture;
 - nobody changes the rows a mixture hands out."""
from .quota import *
from .c18 import loops_around
from .wrap import *
import ast

WHOLE = ("StaticMixture", "HierarchicalStaticMixture")


def run(ctx):
    ctx.rule("distribution of a whole number over weights (parse_user_mixture, parse_mixture_node, distribute_by_ratio): loops summarised by inductive "
             "linear invariants over their variables, container sums and lengths; entries floor(N*w) of whole weights give 0 <= S <= N and N - S <= number "
             "of entries; on every return path the returned container sums to N, amounts added are >= 0, no assertion about sums can fail. Construction: "
             "weights' sum tested with a tolerance <= 1e-2 (else raise), entries divided by that sum, all entries tested >= 0. Every write of chunk_size of "
             "another object is followed by its chunk_size_adjusted() on all paths; rows built at construction are rebuilt there from self.chunk_size and "
             "the stored weights; wrappers forward. Results of mixture_in_rows() are changed only after a copy.")
    p = ctx.proj
    ctx.part(rows_of, ctx, "StaticMixture", "parse_user_mixture")
    ctx.part(rows_of, ctx, "HierarchicalStaticMixture", "parse_mixture_node")
    ctx.part(ratios, ctx)
    ctx.part(validated, ctx, "StaticMixture")
    ctx.part(validated, ctx, "HierarchicalStaticMixture")
    ctx.part(inferred, ctx)
    ctx.part(adjusted, ctx)
    ctx.part(nested, ctx)
    ctx.part(kept, ctx)
    ctx.part(keys_fresh, ctx)


# ------------------------------------------------------------------ sum accounting
class Whole(Interp):
    """N: the number to distribute; W: the collection of weights assumed to be non-negative and to sum to 1."""

    def __init__(self, fl, N, W, W2=None):
        self.N, self.W, self.W2 = N, W, W2
        super().__init__(fl, [self_len(W)] if W is not None else [], self.floors)
        self.floored = set()
        self.odd = {}

    def is_weights(self, q, c):
        """c holds the weights: the given ones, or non-negative numbers divided by their sum."""
        if c == self.W or self.W2 is not None and self.W2(c):
            return True
        if c in q.whole:
            return True
        if c is None or q.filters.get(c) and not self.positive(q, c, q.filters[c]):
            return False
        for v, _ in q.contrib.get(c, ())[:2]:
            if len(q.contrib[c]) == 1 and isinstance(v, tuple) and v and v[0] == "bin" and v[1] == "Div":
                b = value_of(v[2])
                if b is not None and scalar(v[3]) and equal(q.facts, lin(v[3]), q.S(b)):
                    return True
            if len(q.contrib[c]) == 1 and value_of(v) is not None and value_of(v) != c and self.is_weights(q, value_of(v)):
                return True
        return False

    def product(self, q, v, depth=0, raw=False):
        """v is N times the weight of the current element."""
        if isinstance(v, Lin):
            at = list(v.m)
            if len(at) != 1 or v.c or at[0][1] != 1:
                return False
            v = at[0][0]
        if isinstance(v, tuple) and v and v[0] == "bin" and v[1] == "Mult":
            for a, b in ((v[2], v[3]), (v[3], v[2])):
                if scalar(a) and lin(a) == self.N and value_of(b) is not None and (raw or self.is_weights(q, value_of(b))):
                    return True
        if isinstance(v, tuple) and v and v[0] == "call" and v[1] == "float" and v[3]:
            return self.product(q, v[3][0], depth + 1, raw)
        c = value_of(v)
        if c is not None and iscont(c) and depth < 4 and not q.filters.get(c):
            k = q.contrib.get(c, ())
            return len(k) == 1 and self.product(q, k[0][0], depth + 1, raw)
        return False

    def positive(self, q, c, skips):
        """Elements are left out only if their weight is 0."""
        if skips == "several":
            return False
        for conds in skips:
            ok = False
            for v, l in conds:
                if isinstance(v, tuple) and v and v[0] == "cmp":
                    if value_of(v[2]) is not None and v[3] in (Lin(0), ("const", 0.0)) and (v[1], l) in (("Gt", False), ("NotEq", False), ("Eq", True), ("LtE", True)):
                        ok = True
                if value_of(v) is not None and l is False:
                    ok = True
            if not ok:
                return False
        return True

    def floors(self, q, c, v, src, skips):
        n = q.L(c)
        if isinstance(v, tuple) and v and v[0] == "floor" and self.product(q, v[1]):
            if skips and not self.positive(q, c, skips):
                self.odd[c] = "components are left out"
                return []
            self.floored.add(c)
            s = q.S(c)
            return [s, self.N - s, n - self.N + s, n - Lin(1)] if not skips else [s, self.N - s, n - self.N + s]
        if self.product(q, v):
            self.odd[c] = "its entries are no whole numbers"
        elif isinstance(v, tuple) and v and v[0] == "floor" and self.product(q, v[1], 0, True):
            self.odd[c] = "the weights are used as given although they add up to 1 only approximately"
        elif isinstance(v, tuple) and v and v[0] == "call" and v[1] in ("round", "ceil"):
            self.odd[c] = f"its entries are {v[1]}ed, and nothing makes up for the difference to the whole"
        return []


def self_len(W):
    return Lin(-1, {("L", W): 1})


def param(n):
    return ("t", ("param", n))


def int_param(m, names):
    for a in m.node.args.args:
        if a.annotation is not None and getattr(a.annotation, "id", None) == "int":
            return a.arg
    for n in names:
        if n in m.params():
            return n
    raise AnchorError(f"{m.qual}: no parameter for the number to distribute")


def rows_of(ctx, cn, mn):
    c = ctx.proj.cls(cn)
    m = ctx.proj.find_method(c, mn)
    if m is None:
        raise AnchorError(f"{cn}.{mn} not found")
    n = int_param(m, ("chunk_size",))
    ps = [p for p in m.params() if p not in ("self", "cls", n)]
    if not ps:
        raise AnchorError(f"{m.qual}: no weights")
    distribution(ctx, m, c, Lin(0, {param(n): 1}), param(ps[0]), mn)


def ratios(ctx):
    m = ctx.proj.func("distribute_by_ratio")
    n = int_param(m, ("n",))
    ps = [p for p in m.params() if p != n]
    distribution(ctx, m, None, Lin(0, {param(n): 1}), param(ps[0]), "distribute_by_ratio")


def distribution(ctx, m, c, N, W, name):
    fl = ctx.flow(m, None, c)
    it = Whole(fl, N, W)
    it.assume.append(N)
    outs = it.run()
    ctx.count("functions_distributing")
    ctx.count("loops_summarised", it.loops)
    rets = 0
    conts = set(it.floored) | set(it.odd)
    lost = []
    for kind, i, r in outs:
        if kind == "return":
            rets += 1
            ctx.count("return_paths")
            x = r.v(i.args[0]) if i.args and i.args[0] is not None else ("const", None)
            if call_of(x, "parse_user_mixture") and x[3] and scalar(x[3][0]) and equal(r.facts, lin(x[3][0]), N):
                continue
            if not iscont(x):
                lost.append(f"{i.loc}: value returned not recognised: {brief(x)[:60]}")
                continue
            if equal(r.facts, r.S(x), N):
                ctx.sample(f"{i.loc}: rows returned by {name} sum to the number distributed")
                continue
            root = x
            if it.odd.get(root) or not r.contrib.get(x) or grounded(it, r, x):
                ctx.fail(f"{name}:sum", f"{name} can return counts that do not add up to the number to distribute"
                         + (f": {it.odd[root]}" if it.odd.get(root) else "") + condtext(r), i.loc)
            else:
                lost.append(f"{i.loc}: how the entries of the result are computed is not recognised")
        elif kind == "raise":
            if r.conds and about_sums(r.conds[-1][0], conts):
                ctx.fail(f"{name}:rejects", f"{name} rejects weights that describe a whole" + condtext(r), i.loc)
        elif kind == "end":
            lost.append(f"{i.loc}: path not followed")
        for cc, d, ins, facts, _ in r.amounts:
            if cc in conts and not implies(facts, lin(d)):
                ctx.fail(f"{name}:negative", f"{name} lowers a count that may be 0 already", ins.loc)
            elif cc in conts:
                ctx.count("adjustments")
    if not rets:
        raise AnchorError(f"{name}: no return found")
    if lost:
        raise AnchorError(lost[0])


def grounded(it, r, x):
    """The sum of x is expressed in known quantities (so the accounting is the code's, not the analysis' ignorance)."""
    return x in it.floored or not any(isinstance(a, tuple) and a and a[0] == "S" and "?" in a for a, _ in r.S(x).m) and it.floored


def condtext(r):
    cs = [f"{brief(c)[:70]} is {l}" for c, l, _ in r.conds[-2:]]
    return f" (when {', '.join(cs)})" if cs else ""


def about_sums(v, conts):
    """The value speaks about sums of computed rows (not of given weights)."""
    if isinstance(v, Lin):
        return any(about_sums(a, conts) for a, _ in v.m)
    if isinstance(v, tuple):
        if v and v[0] == "S" and len(v) > 1 and v[1] in conts:
            return True
        return any(about_sums(x, conts) for x in v if isinstance(x, (tuple, Lin)))
    return False


# ------------------------------------------------------------------ construction
def rows_attr(ctx, c):
    """Attribute of self whose value mixture_in_rows() returns."""
    m = ctx.proj.find_method(c, "mixture_in_rows")
    if m is None:
        raise AnchorError(f"{c.name}: no mixture_in_rows")
    fl = ctx.flow(m, lambda *a: False, c)
    out = set()
    for i in root_returns(fl):
        t = fl.term(i.args[0])
        d = deep_copy_of(t) or (t[3][0] if is_call_term(t, "dict", "copy") and t[3] else t[2] if is_call_term(t, "copy") and t[2] is not None else t)
        if d[0] == "attr" and d[1] == ("self",):
            out.add(d[2])
    if len(out) != 1:
        raise AnchorError(f"{m.qual}: what is returned is not recognised")
    return out.pop()


SELF = ("t", ("self",))


def field(r, name):
    return r.fields.get((SELF, name))


def validated(ctx, cn):
    c = ctx.proj.cls(cn)
    attr = rows_attr(ctx, c)
    init = ctx.proj.find_method(c, "__init__")
    n = int_param(init, ("chunk_size",))
    N = Lin(0, {param(n): 1})
    fl = ctx.flow(init, None, c)
    it = Whole(fl, N, None)
    it.assume.append(N)
    whole = None
    done = 0
    for kind, i, r in it.run():
        if kind in ("return", "end") and (kind == "return" or i.op == "exit" or not i.succ):
            done += 1
            ctx.count("construction_paths")
            x = field(r, attr)
            if not iscont(x):
                raise AnchorError(f"{cn}: rows stored at construction not recognised: {brief(x)[:60]}")
            if not equal(r.facts, r.S(x), N):
                if it.odd.get(x):
                    ctx.fail(f"{cn}:rows", f"the rows of a {cn} need not add up to its chunk size: {it.odd[x]}", init.loc)
                elif x in it.floored:
                    ctx.fail(f"{cn}:rows", f"the rows of a {cn} need not add up to its chunk size", init.loc)
                else:
                    raise AnchorError(f"{cn}: computation of the rows at construction not recognised")
            srcs = sources(r)
            if not closeness(r, srcs):
                ctx.fail(f"{cn}:sum-checked", f"a {cn} whose weights do not add up to 1 is accepted" + condtext(r), init.loc)
            if not nonneg(r):
                ctx.fail(f"{cn}:negative", f"a {cn} with negative weights is accepted", init.loc)
            w = {k[1] for k, v in r.fields.items() if k[0] == SELF and iscont(v) and it.is_weights(r, v)}
            whole = w if whole is None else whole & w
            if not equal(r.facts, lin(field(r, "chunk_size")) if scalar(field(r, "chunk_size") or ("const", 0)) else Lin(-7), N):
                ctx.fail(f"{cn}:chunk-size", f"a {cn} does not have the chunk size it is constructed with", init.loc)
        elif kind == "raise":
            ctx.count("rejections")
            if r.conds and about_sums(r.conds[-1][0], set(it.floored) | set(it.odd)):
                ctx.fail(f"{cn}:rejects", f"a {cn} whose weights describe a whole can be rejected" + condtext(r) + "".join(f": {x}" for x in list(it.odd.values())[:1]), i.loc)
    if not done:
        raise AnchorError(f"{cn}.__init__: no way to construct found")
    # after the chunk size has been changed
    m = ctx.proj.find_method(c, "chunk_size_adjusted")
    if m is None or m.cls is None or is_noop(m):
        ctx.fail(f"{cn}:adjusted", f"the rows of a {cn} are not recomputed when its chunk size is changed (e.g. because it is part of another mixture)", m.loc if m else None)
        return
    recompute(ctx, c, m, attr, whole or set(), "adjusted", "changing its chunk size")


def is_noop(m):
    return all(isinstance(s, (ast.Pass, ast.Expr)) and (isinstance(s, ast.Pass) or isinstance(s.value, ast.Constant)) for s in m.node.body)


def recompute(ctx, c, m, attr, whole, key, when, W2=None, empty=None):
    """After method m the rows add up to the chunk size in force."""
    fl = ctx.flow(m, None, c)
    N = Lin(0, {("attr", SELF, "chunk_size"): 1})
    it = Whole(fl, N, None, lambda w: isinstance(w, tuple) and w[0] == "attr" and w[1] == SELF and w[2] in whole or W2 is not None and W2(w))
    it.assume.append(N)
    for w in whole:
        it.assume.append(self_len(("attr", SELF, w)))
    n = 0
    for kind, i, r in it.run():
        if kind == "raise" and r.conds and about_sums(r.conds[-1][0], set(it.floored) | set(it.odd)):
            ctx.fail(f"{c.name}:{key}", f"after {when}, the rows of a {c.name} cannot be computed" + condtext(r) + "".join(f": {x}" for x in list(it.odd.values())[:1]), i.loc)
        if kind not in ("return", "end"):
            continue
        x = field(r, attr)
        n += 1
        ctx.count("recomputations")
        if x is None:
            ctx.fail(f"{c.name}:{key}", f"{m.qual} can leave the rows of the mixture as they were", m.loc)
        elif isinstance(x, tuple) and empty is not None and iscont(x) and not r.contrib.get(x) and empty(r):
            ctx.count("empty_mixtures")
        elif iscont(x) and equal(r.facts, r.S(x), N):
            ctx.sample(f"{m.loc}: rows add up to the chunk size after {when}")
        elif call_of(x, "parse_user_mixture") and len(x[3]) > 1 and scalar(x[3][0]) and it.is_weights(r, x[3][1]):
            if lin(x[3][0]) != N:
                ctx.fail(f"{c.name}:{key}", f"after {when}, the rows of a {c.name} do not add up to the chunk size in force: they are computed for "
                         f"{brief(x[3][0])}", m.loc)
        elif call_of(x, "parse_user_mixture") and len(x[3]) > 1 and W2 is None and stale(x[3][1], attr):
            ctx.fail(f"{c.name}:{key}", f"after {when}, the rows of a {c.name} are computed from its previous rows", m.loc)
        elif iscont(x) and (x in it.floored or it.odd.get(x)):
            ctx.fail(f"{c.name}:{key}", f"after {when}, the rows of a {c.name} need not add up to the chunk size in force"
                     + (f": {it.odd[x]}" if it.odd.get(x) else ""), m.loc)
        else:
            raise AnchorError(f"{m.qual}: computation of the rows not recognised: {brief(x)[:80]}")
    if not n:
        raise AnchorError(f"{m.qual}: no path through it")


def stale(w, attr):
    return isinstance(w, tuple) and w == ("attr", SELF, attr)


def sources(r):
    """Collections whose entries are divided by their sum, and those themselves."""
    out = set()
    for c, k in r.contrib.items():
        for v, _ in k:
            if isinstance(v, tuple) and v and v[0] == "bin" and v[1] == "Div" and value_of(v[2]) is not None:
                out.add(value_of(v[2]))
    return out


def total_of(v, r, srcs):
    return isinstance(v, Lin) and any(v == r.S(c) or c in r.whole for c in srcs)


def number(v):
    if isinstance(v, Lin) and v.const:
        return v.c
    if isinstance(v, tuple) and v and v[0] == "const" and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
        return v[1]
    return None


def closeness(r, srcs):
    lo = hi = False
    for c, l, _ in r.conds:
        if l not in (True, False):
            continue
        while isinstance(c, tuple) and c and c[0] == "not":
            c, l = c[1], not l
        if not isinstance(c, tuple) or not c:
            continue
        if c[0] == "call" and c[1] == "isclose" and l and len(c[3]) >= 2:
            a, b = c[3][:2]
            tols = [number(x) for x in c[3][2:]] + [number(x) for _, x in c[4]]
            if (total_of(a, r, srcs) and number(b) == 1 or total_of(b, r, srcs) and number(a) == 1) and all(t is not None and t <= 0.01 for t in tols):
                return True
        if c[0] == "cmp":
            op, a, b = c[1], c[2], c[3]
            for x, y, o in ((a, b, op), (b, a, {"Lt": "Gt", "LtE": "GtE", "Gt": "Lt", "GtE": "LtE"}.get(op, op))):
                small = o in ("Lt", "LtE") and l or o in ("Gt", "GtE") and not l
                big = o in ("Gt", "GtE") and l or o in ("Lt", "LtE") and not l
                if isinstance(x, tuple) and x and x[0] == "call" and x[1] == "abs" and x[3]:
                    d = x[3][0]
                    if isinstance(d, tuple) and d and d[0] == "bin" and d[1] == "Sub" and {number(d[2]), number(d[3])} - {None} == {1} and (
                            total_of(d[2], r, srcs) or total_of(d[3], r, srcs)) or isinstance(d, Lin) and any(total_of(e, r, srcs) for e in (d + Lin(1), Lin(1) - d)):
                        if small and number(y) is not None and number(y) <= 0.01:
                            return True
                if total_of(x, r, srcs) and number(y) is not None:
                    if small and number(y) <= 1.01:
                        hi = True
                    if big and number(y) >= 0.99:
                        lo = True
                    if o == "Eq" and l and number(y) == 1 or o == "NotEq" and not l and number(y) == 1:
                        return True
    return lo and hi


def nonneg(r):
    cands = [(c, l) for c, l in r.forall]
    for c, l, _ in r.conds:
        while isinstance(c, tuple) and c and c[0] == "not":
            c, l = c[1], not l
        if isinstance(c, tuple) and c and c[0] == "call" and c[1] in ("all", "any") and c[3] and iscont(c[3][0]) and l is (c[1] == "all"):
            k = r.contrib.get(c[3][0], ())
            if len(k) == 1 and not r.filters.get(c[3][0]):
                cands.append((k[0][0], l))
        if isinstance(c, tuple) and c and c[0] == "cmp" and call_of(c[2], "min") and c[2][3] and call_of(c[2][3][0], "values") and number(c[3]) == 0:
            if (c[1], l) in (("GtE", True), ("Lt", False), ("Gt", True), ("LtE", False)):
                return True
    for c, l in cands:
        while isinstance(c, tuple) and c and c[0] == "not":
            c, l = c[1], not l
        if isinstance(c, tuple) and c and c[0] == "cmp":
            if value_of(c[2]) is not None and number(c[3]) == 0 and (c[1], l) in (("GtE", True), ("Lt", False), ("Gt", True), ("LtE", False)):
                return True
            if value_of(c[3]) is not None and number(c[2]) == 0 and (c[1], l) in (("LtE", True), ("Gt", False), ("Lt", True), ("GtE", False)):
                return True
    return False


# ------------------------------------------------------------------ inferred mixtures
def inferred(ctx):
    m = ctx.proj.func("infer_mixture_from_chunkerindex")
    fl = ctx.flow(m, lambda *a: False)
    it = Whole(fl, Lin(0, {("none",): 1}), None)
    n = 0
    for kind, i, r in it.run():
        if kind != "return":
            continue
        n += 1
        x = r.v(i.args[0])
        if not (isinstance(x, tuple) and x and x[0] == "tup" and len(x) == 3 and iscont(x[2])):
            raise AnchorError(f"{m.qual}: value returned not recognised")
        if it.is_weights(r, x[2]) or not r.contrib.get(x[2]) and not r.filters.get(x[2]) and r.L(x[2]) == Lin(0):
            ctx.count("inferred_wholes")
        elif r.scaled.get(x[2]) or any(isinstance(v, tuple) and v and v[0] == "bin" and v[1] == "Div" for v, _ in r.contrib.get(x[2], ())):
            ctx.fail("infer:whole", "the weights inferred from the data do not add up to 1: the masses are not divided by the sum of the same masses", i.loc)
        else:
            raise AnchorError(f"{m.qual}: how weights are computed is not recognised")
    if not n:
        raise AnchorError(f"{m.qual}: no return found")
    c = ctx.proj.cls("InferringMixture")
    pm = ctx.proj.find_method(c, "process_index")
    recompute(ctx, c, pm, rows_attr(ctx, c), set(), "inferred", "inferring its weights",
              lambda w: isinstance(w, tuple) and w and w[0] == "item" and call_of(w[1], "infer_mixture_from_chunkerindex") and w[2] == Lin(1),
              lambda r: any(call_of_total(cc, l) for cc, l, _ in r.conds))


def call_of_total(c, l):
    """The condition says that the total inferred is 0 / that there are no keys."""
    while isinstance(c, tuple) and c and c[0] == "not":
        c, l = c[1], not l
    if isinstance(c, tuple) and c and c[0] == "cmp" and number(c[3]) == 0:
        return (c[1], l) in (("Eq", True), ("NotEq", False), ("Gt", False), ("LtE", True))
    return l is False


# ------------------------------------------------------------------ chunk size adjustments
def sets_chunk_size(f):
    for x in ast.walk(f.node):
        ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            for y in ast.walk(t):
                if isinstance(y, ast.Attribute) and y.attr == "chunk_size" and isinstance(y.ctx, ast.Store) and not (
                        isinstance(y.value, ast.Name) and y.value.id == "self"):
                    return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "setattr" and len(x.args) > 1 and isinstance(
                x.args[1], ast.Constant) and x.args[1].value == "chunk_size":
            return True
    return False


def adjusted(ctx):
    """Changing the chunk size of a mixture is always followed by telling it."""
    for f in list(ctx.proj.funcs.values()):
        if not sets_chunk_size(f):
            continue
        fl = ctx.flow(f, None, f.cls)
        for i in fl.g.of("setattr"):
            if i.data != "chunk_size":
                continue
            b = fl.term(i.args[0])
            if b == ("self",):
                continue
            ctx.count("chunk_size_changes")
            hs = {h.id for h in loops_around(fl, i)}

            def via(x):
                return x.op == "call" and last(x.fn) == "chunk_size_adjusted" and x.recv is not None and same(fl.term(x.recv), b)

            bad = []
            for s, l in i.succ:
                if l in ("exc", "exc-base"):
                    continue
                r, ex = must_pass(fl, s, lambda x: x.op == "exit" or x.id in hs, via, follow_exc=False)
                bad += r
            if bad:
                ctx.fail("adjusted:" + f.name, f"the chunk size of {show(b)[:50]} is changed without {show(b)[:50]}.chunk_size_adjusted() afterwards: its rows "
                         "still add up to the old chunk size", i.loc)
            else:
                ctx.sample(f"{i.loc}: change of the chunk size of {show(b)[:40]} is announced on all paths")


def own_chunk(fl, t):
    return t in (("attr", ("self",), "chunk_size"),)


def nested(ctx):
    """Wrapping mixtures keep the chunk size of what they wrap in step with their own."""
    base, cs = mixture_classes(ctx)
    ws = wrappers(ctx)
    ctx.count("wrapping_mixtures", len(ws))
    ctx.floor("wrapping_mixtures", 2)
    for w in ws:
        c = w.cls
        m = ctx.proj.find_method(c, "chunk_size_adjusted")
        if m is None or m.cls is base or is_noop(m):
            ctx.fail(f"{c.name}:forward", f"a {c.name} does not pass a change of its chunk size on to the mixtures it wraps", c.loc if hasattr(c, "loc") else None)
        else:
            fl = ctx.flow(m, None, c)

            def sets(i):
                return i.op == "setattr" and i.data == "chunk_size" and is_inner(w, fl.term(i.args[0])) and own_chunk(fl, fl.term(i.args[1]))

            how = missed(fl, w, sets)
            if how:
                ctx.fail(f"{c.name}:forward", f"a {c.name} does not pass a change of its chunk size on to the mixtures it wraps ({how})", m.loc)
            ctx.count("forwarded")
        init = ctx.proj.find_method(c, "__init__")
        fl = ctx.flow(init, None, c)
        st = [i for i in fl.g.of("setattr") if i.data == w.attr and fl.term(i.args[0]) == ("self",)]
        if not st:
            raise AnchorError(f"{c.name}.__init__: where the wrapped mixtures are stored is not recognised")
        colls = {unorder(x) for i in st for x in alts(fl.term(i.args[1]))}
        if len(colls) != 1:
            raise AnchorError(f"{c.name}.__init__: several sources of the wrapped mixtures")
        coll = colls.pop()

        def mine(t):
            return all(x in (("param", int_param(init, ("chunk_size",))), ("attr", ("self",), "chunk_size")) for x in alts(t))

        def sets(i):
            return i.op == "setattr" and i.data == "chunk_size" and is_inner(w, fl.term(i.args[0]), coll) and mine(fl.term(i.args[1]))

        def equal_edge(i, l):
            t = fl.term(i.args[0])
            while t[0] == "un" and t[1] == "Not":
                t, l = t[2], not l
            if t[0] != "cmp" or t[1] not in ("Eq", "NotEq"):
                return False
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if a[0] == "attr" and a[2] == "chunk_size" and is_inner(w, a[1], coll) and mine(b):
                    return l is (t[1] == "Eq")
            return False

        how = missed(fl, w, sets, via_edge=equal_edge, coll=coll)
        if how:
            ctx.fail(f"{c.name}:constructed", f"a {c.name} accepts mixtures with another chunk size than its own ({how})", init.loc)
        ctx.count("constructors")
        # mixtures put in force later
        for mm in methods_of(ctx, c):
            if mm.name == "__init__":
                continue
            fl = ctx.flow(mm, None, c)
            for i in fl.g.of("setattr"):
                if i.data != w.attr or fl.term(i.args[0]) != ("self",):
                    continue
                for t in alts(fl.term(i.args[1])):
                    if t[0] != "call":
                        continue
                    cl = ctx.proj.classes.get(last(t[1]))
                    if not cl or not any(b is base for b in ctx.proj.mro(cl[0])):
                        continue
                    ctx.count("mixtures_adopted")
                    a = t[3][0] if t[3] else dict(t[4]).get("chunk_size")
                    if a is None or not own_chunk(fl, a):
                        ctx.fail(f"{c.name}:adopted", f"the mixture a {c.name} switches to does not have the chunk size in force", i.loc)


def methods_of(ctx, c):
    return [f for f in ctx.proj.funcs.values() if f.cls is c]


# ------------------------------------------------------------------ nobody else changes the rows
CHANGES = {"pop", "popitem", "update", "clear", "setdefault", "append", "extend", "remove", "insert", "subtract", "sort", "reverse", "add", "discard"}


def changed_args(ctx, f, cls, name, depth=0, seen=None):
    """Instruction in f changing the object given as parameter `name`, or None."""
    seen = seen if seen is not None else set()
    if depth > 3 or (f.qual, name) in seen:
        return None
    seen.add((f.qual, name))
    fl = ctx.flow(f, lambda *a: False, cls)
    return changes(ctx, fl, lambda t: t == ("param", name), depth, seen)


def changes(ctx, fl, isit, depth=0, seen=None):
    def hit(t):
        return any(isit(x) for x in alts(t))

    for i in fl.g.of("setitem", "delitem"):
        if hit(fl.term(i.args[0])):
            return i
    for i in fl.g.calls():
        if last(i.fn) in CHANGES and i.recv is not None and hit(fl.term(i.recv)):
            return i
        if i.target is not None and i.recv is None or i.target is not None and i.recv is not None:
            f = i.target
            if not hasattr(f, "params"):
                continue
            ps = [p for p in f.params() if p not in ("self", "cls")]
            for n, a in enumerate(i.args):
                if n < len(ps) and hit(fl.term(a)):
                    x = changed_args(ctx, f, f.cls, ps[n], depth + 1, seen)
                    if x is not None:
                        return x
            for k, a in (i.kw or {}).items():
                if k in ps and hit(fl.term(a)):
                    x = changed_args(ctx, f, f.cls, k, depth + 1, seen)
                    if x is not None:
                        return x
    return None


def raw_rows(t):
    """t is the very dictionary a mixture handed out (of a mixture that lives on)."""
    if t[0] == "call" and callname(t) == "mixture_in_rows" and t[2] is not None:
        r = t[2]
        return not (r[0] == "call" and callname(r)[0:1].isupper())
    return False


def kept(ctx):
    n = 0
    for f in list(ctx.proj.funcs.values()):
        if not any(isinstance(x, ast.Attribute) and x.attr == "mixture_in_rows" for x in ast.walk(f.node)):
            continue
        fl = ctx.flow(f, None, f.cls)
        n += 1
        ctx.count("users_of_rows")
        i = changes(ctx, fl, raw_rows)
        if i is not None:
            ctx.fail("changed:" + f.name, f"{f.qual} changes the rows of the mixture itself (not of a copy): what the mixture hands out next no longer adds up", i.loc)
    ctx.floor("users_of_rows", 3)
    # rows are only written by what has been verified
    base, cs = mixture_classes(ctx)
    ws = {w.cls for w in wrappers(ctx)}
    for c in cs:
        if c in ws:
            continue
        try:
            attr = rows_attr(ctx, c)
        except AnchorError:
            continue
        for m in methods_of(ctx, c):
            if m.name in ("__init__", "chunk_size_adjusted", "process_index"):
                continue
            fl = ctx.flow(m, lambda *a: False, c)
            i = changes(ctx, fl, lambda t: t == ("attr", ("self",), attr))
            w = [x for x in fl.g.of("setattr") if x.data == attr and fl.term(x.args[0]) == ("self",)]
            if i is not None:
                ctx.fail(f"{c.name}:changed", f"{m.qual} changes rows in place", i.loc)
            elif w and not m.name.startswith("_"):
                recompute(ctx, c, m, attr, set(), "rewritten", f"{m.name}()")
            ctx.count("methods_checked_for_writes")


def fresh_set(t, fl):
    if t[0] == "phi":
        return all(fresh_set(x, fl) for x in t[1])
    if t[0] == "call":
        n = callname(t)
        if n in ("set", "union", "all_keys", "copy", "difference", "deepcopy", "intersection") or t[1] in ("set",):
            return True
        return None
    if t[0] in ("comp", "set", "set0", "bin", "list0"):
        return True
    if t[0] in ("attr", "item", "elem"):
        return False
    return None


def keys_fresh(ctx):
    base, cs = mixture_classes(ctx)
    for c in [base] + cs:
        m = next((x for x in methods_of(ctx, c) if x.name == "all_keys"), None)
        if m is None:
            continue
        fl = ctx.flow(m, lambda *a: False, c)
        for i in root_returns(fl):
            ctx.count("key_sets")
            r = fresh_set(fl.term(i.args[0]), fl)
            if r is False:
                ctx.fail(f"{c.name}:all_keys", f"{m.qual} hands out an object of the mixture itself; callers extend the set", i.loc)
            elif r is None and is_call_term(fl.term(i.args[0]), "keys"):
                ctx.fail(f"{c.name}:all_keys", f"{m.qual} hands out a view of the rows, not a set", i.loc)
