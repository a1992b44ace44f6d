"""C25: user-supplied query values only ever act as data; every condition takes effect as given."""
import re

from ..core import *
from ..flow import Explorer, strip_ids
from ..sql import statements, is_exec, parts, norm, DYN, text
from .util import *
from .locks import entries
from .paths import along

OPS = {"==": "=", "!=": "!=", ">": ">", "<": "<", ">=": ">=", "<=": "<="}


def run(ctx):
    ctx.rule("Abstract evaluation of Select's condition loop for every operator x kind of value x kind of column: exactly one clause per condition, naming the field and the operator the "
             "user gave with the right polarity, as many placeholders as bound values, the bound values being the condition's; no clause for fields outside the catalog schema. "
             "Clauses are joined by AND, operators by OR, parameters in the order of the clauses. Statement and parameters executed come from the same generation call. "
             "Taint analysis: no user-supplied string reaches the text of an executed statement unescaped; placeholder and value counts agree; inserted columns get the matching values.")
    ctx.part(conditions, ctx)
    ctx.part(assembly, ctx)
    ctx.part(statement, ctx)
    ctx.part(execution, ctx)
    ctx.part(plan, ctx)
    ctx.part(catalog, ctx)
    ctx.part(dataset_row, ctx)
    ctx.part(file_rows, ctx)
    ctx.part(lookups, ctx)


# ------------------------------------------------------------------ conditions of one select
class Cond:
    def __init__(self, ctx):
        c = ctx.proj.cls("Select")
        m = ctx.proj.find_method(c, "_generate_conditions") or ctx.proj.find_method(c, "generate_sql")
        if m is None:
            raise AnchorError("Select does not generate conditions")
        stop = ("_generate_conditions",)
        self.fl = fl = ctx.flow(m, ctx.local_policy(m, c, stop=stop), c, key="cond")
        self.schema = None
        for i in fl.g.of("cmp"):
            if i.data in ("In", "NotIn"):
                f, s = fl.term(i.args[0]), fl.term(i.args[1])
                if f[0] == "item" and f[2] == ("const", 0) and f[1][0] == "elem" and (s[0] == "param" or is_call_term(s, "keys")):
                    self.elem, self.field = f[1], f
                    self.schema = s if s[0] == "param" else s[2]
        if self.schema is None:
            for i in fl.g.calls():
                if last(i.fn) == "get" and i.recv is not None and fl.term(i.recv)[0] == "param" and i.args:
                    f = fl.term(i.args[0])
                    if f[0] == "item" and f[2] == ("const", 0) and f[1][0] == "elem":
                        self.elem, self.field, self.schema = f[1], f, fl.term(i.recv)
        if self.schema is None:
            raise AnchorError("membership test of a condition's field in the schema not found")
        self.op = ("item", self.elem, ("const", 1))
        self.value = ("item", self.elem, ("const", 2))
        # the iteration over the conditions
        self.loops = [i for i in fl.g.of("next") if fl.term(i.args[0])[-1] == self.elem[1]]
        if not self.loops:
            raise AnchorError("iteration over the conditions not found")

    def is_value(self, t):
        return all(self._val(a) for a in alts(t))

    def _val(self, a):
        a = strip_ids(a)
        if a == strip_ids(self.value):
            return True
        if a[0] == "item" and a[1][0] != "elem" and a[2][0] == "const" and not (a[2][1] in (0, 1) and a[1] == strip_ids(self.elem)):
            return self.is_value(a[1])
        if a[0] == "call" and callname(a) in ("list", "tuple") and len(a[3]) == 1:
            return self.is_value(a[3][0])
        if a[0] == "list" and len(a) == 2:
            return self.is_value(a[1])
        if a[0] == "elem":
            return self.is_value(a[1])
        return False

    def from_value(self, t):
        return contains(strip_ids(t), lambda x: x == strip_ids(self.value))


def mapped(t, cond, op):
    """Value of a lookup of the operator in a literal table, or None."""
    k = None
    if t[0] == "call" and callname(t) == "get" and t[2] is not None and t[3]:
        d, k = t[2], t[3][0]
    elif t[0] == "item":
        d, k = t[1], t[2]
    if k is None or strip_ids(k) != strip_ids(cond.op) or d[0] not in ("dict",):
        return None
    for e in d[1:]:
        if e[0] == ("const", op) and e[1][0] == "const":
            return e[1]
    return ("const", None)


def textof(t, cond, op, depth=0):
    """Alternatives of the SQL text of term t: strings with F = field, {n} = one placeholder per value."""
    s = strip_ids(t)
    if s == strip_ids(cond.field):
        return ["\x01"]
    if s == strip_ids(cond.op):
        return [op]
    mp = mapped(t, cond, op)
    if mp is not None:
        return [str(mp[1])]
    if depth > 12:
        raise AnchorError("clause text not resolved")
    if t[0] == "const":
        return [str(t[1])]
    if t[0] == "phi":
        return [y for a in alts(t) for y in textof(a, cond, op, depth + 1)]
    if t[0] == "fstr" or t[0] == "bin" and t[1] == "Add":
        out = [""]
        for x in (t[1:] if t[0] == "fstr" else t[2:4]):
            out = [a + b for a in out for b in textof(x, cond, op, depth + 1)]
        return out
    if t[0] == "call" and callname(t) == "join" and t[2] is not None and t[2][0] == "const" and t[3]:
        sep, a = t[2][1], t[3][0]
        r = repeated(a, cond)
        if r is not None:
            return ["\x02" + sep.join([x, "…"]) + "\x03" for x in (textof(r, cond, op, depth + 1))]
        if a[0] in ("list", "tuple"):
            out = [[]]
            for x in a[1:]:
                out = [p + [y] for p in out for y in textof(x, cond, op, depth + 1)]
            return [sep.join(p) for p in out]
    if t[0] == "call" and callname(t) in ("str", "strip", "upper") and (t[3] or t[2] is not None):
        return textof(t[3][0] if t[3] else t[2], cond, op, depth + 1)
    if t[0] == "call" and callname(t) == "format" and t[2] is not None and t[2][0] == "const":
        s = str(t[2][1])
        kw = dict(t[4])
        for n, x in enumerate(t[3]):
            s = s.replace("{}", "{%d}" % n, 1)
            s = s.replace("{%d}" % n, textof(x, cond, op, depth + 1)[0])
        for k, x in kw.items():
            s = s.replace("{%s}" % k, textof(x, cond, op, depth + 1)[0])
        return [s]
    if cond.from_value(t):
        return ["\x04"]
    raise AnchorError(f"clause text {show(t)[:80]} not resolved")


def repeated(a, cond):
    """Element of a sequence with one entry per value, or None."""
    if a[0] == "bin" and a[1] == "Mult":
        for l, n in ((a[2], a[3]), (a[3], a[2])):
            if l[0] == "list" and len(l) == 2 and n[0] == "call" and callname(n) == "len" and n[3] and cond.is_value(n[3][0]):
                return l[1]
            if l[0] == "const" and n[0] == "call" and callname(n) == "len":
                return None
    if a[0] == "comp" and len(a) >= 3:
        its = a[3] if len(a) > 3 else None
        return a[2]
    return None


KINDS = ("scalar", "list", "none")


def conditions(ctx):
    cond = Cond(ctx)
    fl = cond.fl
    n = 0
    for known in (True, False):
        for op in list(OPS) + ["~~"]:
            for kind in KINDS:
                for arr in (False, True):
                    if not known and (op != "==" or arr):
                        continue
                    n += scenario(ctx, cond, known, op, kind, arr)
    ctx.count("condition_paths", n)
    ctx.floor("condition_paths", 30)


def hook_for(cond, known, op, kind, arr):
    fl = cond.fl
    E, F, O, V = strip_ids(cond.elem), strip_ids(cond.field), strip_ids(cond.op), strip_ids(cond.value)
    cache = {}

    def valued(t):
        return cond.is_value(t)

    def compute(d):
        t = fl.term(d.dst) if d.dst is not None else None
        if t is None:
            return None
        s = strip_ids(t)
        if s == O:
            return ("c", op)
        if s == V and d.op in ("unpack", "item"):
            return ("c", None) if kind == "none" else ("truthy" if kind == "list" else "notnone")
        if d.op == "item" and s[0] == "item" and s[2] == ("const", "multiple"):
            return ("c", arr)
        if d.op == "call" and last(d.fn) == "get" and d.args and fl.term(d.args[0]) == ("const", "multiple"):
            return ("c", arr)
        mp = mapped(t, cond, op)
        if mp is not None:
            return mp if False else ("c", mp[1])
        if d.op == "cmp":
            l, r = fl.term(d.args[0]), fl.term(d.args[1])
            if d.data in ("In", "NotIn") and strip_ids(l) == F:
                return ("c", known == (d.data == "In"))
            if d.data in ("In", "NotIn") and strip_ids(l) == O and r[0] in ("dict", "set", "tuple", "list"):
                ks = [e[0] if r[0] == "dict" else e for e in r[1:]]
                if all(k[0] == "const" for k in ks):
                    return ("c", (("const", op) in ks) == (d.data == "In"))
            mo = mapped(l, cond, op)
            if d.data in ("In", "NotIn") and mo is not None and r[0] in ("set", "tuple", "list") and all(k[0] == "const" for k in r[1:]):
                return ("c", (mo in r[1:]) == (d.data == "In"))
        if d.op == "call" and last(d.fn) == "isinstance" and len(d.args) == 2 and valued(fl.term(d.args[0])):
            x = fl.term(d.args[0])
            names = {y[1] for y in subterms(fl.term(d.args[1])) if len(y) > 1} | {str(y) for y in subterms(fl.term(d.args[1]))}
            lst = any("list" in str(y) for y in names)
            if lst:
                return ("c", kind == "list")
        if d.op == "call" and last(d.fn) == "len" and d.args and valued(fl.term(d.args[0])):
            return ("c", 2) if kind == "list" else None
        if d.op == "call" and last(d.fn) == "get" and d.recv is not None and fl.term(d.recv) == cond.schema and d.args and strip_ids(fl.term(d.args[0])) == F:
            return "truthy" if known else ("c", None)
        return None

    def hook(d):
        if d.id not in cache:
            cache[d.id] = compute(d)
        return cache[d.id]

    return hook


def scenario(ctx, cond, known, op, kind, arr):
    fl = cond.fl
    loops = {i.id for i in cond.loops}

    def interesting(i):
        return i.op == "call" and last(i.fn) in ("append", "extend", "insert") and i.recv is not None or \
            (i.op == "bin" and i.data == "Add") or i.op in ("iadd",)

    def step(i, st):
        if i.op == "call" and last(i.fn) in ("append", "extend") and i.recv is not None and st is not None:
            return [st + (i.id,)] if len(st) < 8 else None
        return [st]

    def edge(i, s, lab, st):
        if i.id in loops:
            if lab == "next":
                return () if st is None else False  # one condition is enough
            if lab == "stop":
                return False
        return st

    ex = Explorer(fl, step, edge=edge, follow_exc=False, hook=hook_for(cond, known, op, kind, arr))
    vis = ex.run(None)
    name = f"{'array' if arr else 'scalar'} column {op} {kind}"
    ends = [k for k in vis if k[0] in loops and k[2] is not None]
    n = 0
    for k in ends:
        n += 1
        path = ex.path((fl.g.ins[k[0]], k[1], k[2]))
        clauses, params = [], []
        for x in k[2]:
            i = fl.g.ins[x]
            t = along(fl, path, i, i.args[0])
            if (cond.is_value(t) or (t[0] in ("list", "tuple") and all(cond.is_value(y) for y in t[1:]))) and not is_text(t):
                many = last(i.fn) == "extend"
                if t[0] in ("list", "tuple") and many:
                    params += [(False, y, i) for y in t[1:]]
                elif many and kind != "list" and t[0] == "comp":
                    params.append((True, t, i))
                else:
                    params.append((many, t, i))
            elif last(i.fn) == "extend" and t[0] == "list0":
                continue
            else:
                clauses.append((textof(t, cond, op), i))
        judge(ctx, cond, name, known, op, kind, arr, clauses, params)
    if not ends and not any(fl.g.ins[k[0]].op in ("raise_exit",) for k in vis):
        raise AnchorError(f"condition with {name} not explored")
    return n


def is_text(t):
    return contains(t, lambda x: x[0] == "const" and isinstance(x[1], str) and "?" in x[1])


def full(cond, t):
    """All values of the condition."""
    t = unlist(strip_ids(t))
    return t == strip_ids(cond.value) or t[0] == "comp"


def judge(ctx, cond, name, known, op, kind, arr, clauses, params):
    if not known or op not in OPS:
        if clauses or params:
            w = "of a field that is not a catalog column" if not known else "with an unknown operator"
            ctx.fail("unknown-field" if not known else "unknown-operator", f"a condition {w} becomes part of the statement", (clauses + [(0, params[0][2])] if params else clauses)[0][1].loc)
        return
    if kind == "none" and op not in ("==", "!="):
        if len(clauses) == 0 and not params:
            return
    if not clauses:
        ctx.fail(f"dropped:{name}", f"a condition ({name}) has no effect on the statement")
        return
    if len(clauses) > 1:
        ctx.fail(f"twice:{name}", f"a condition ({name}) adds {len(clauses)} clauses", clauses[1][1].loc)
        return
    texts, ins = clauses[0]
    ctx.sample(f"{name}: {texts[0].replace(chr(1), 'F')}")
    for tx in texts:
        s = norm(tx)
        if "\x04" in s:
            ctx.fail(f"value-in-text:{name}", f"the value of a condition ({name}) becomes part of the statement text", ins.loc)
            return
        if "\x01" not in s:
            ctx.fail(f"field:{name}", f"the clause of a condition ({name}) does not mention its field: {s!r}", ins.loc)
            return
        why = polarity(s, op, kind)
        if why:
            ctx.fail(f"operator:{name}", f"a condition ({name}) becomes {s.replace(chr(1), '<field>').replace(chr(2), '').replace(chr(3), '')!r}: {why}", ins.loc)
            return
        lists = len(re.findall(r"\x02[^\x03]*\?[^\x03]*\x03", s))
        single = re.sub(r"\x02[^\x03]*\x03", "", s).count("?")
        pl = sum(1 for m, t, i in params if m)
        ps = sum(1 for m, t, i in params if not m)
        if (lists, single) != (pl, ps):
            ctx.fail(f"placeholders:{name}", f"a condition ({name}) has {single} placeholders plus {lists} per value, but binds {ps} values plus {pl} lists", ins.loc)
        if kind == "list" and not (arr and op not in ("==", "!=")) and not any(full(cond, t) for m, t, i in params):
            ctx.fail(f"values:{name}", f"of a condition with several values ({name}) not all are bound", ins.loc)
        if " OR " in s and not balanced_or(s):
            ctx.fail(f"precedence:{name}", f"alternatives of a condition ({name}) are not parenthesised: {s!r}", ins.loc)
    if kind != "none" and not params:
        ctx.fail(f"unbound:{name}", f"the value of a condition ({name}) is not bound", ins.loc)


def balanced_or(s):
    depth = 0
    for w in re.findall(r"\(|\)| OR ", s):
        if w == "(":
            depth += 1
        elif w == ")":
            depth -= 1
        elif depth <= 0:
            return False
    return True


def polarity(s, op, kind):
    u = " " + s.upper() + " "
    neg = len(re.findall(r"\bNOT\b", u)) + len(re.findall(r"!=|<>", u)) + len(re.findall(r"DISTINCT FROM", u))
    cmp_ = re.findall(r">=|<=|(?<![<>!])=|(?<!<)>(?!=)|<(?![=>])", u)
    if kind == "none":
        if "NULL" not in u:
            return "a missing value is not compared as NULL"
        return None if (neg % 2 == 1) == (op == "!=") else "wrong polarity"
    if op in ("==", "!="):
        if any(c in (">=", "<=", ">", "<") for c in cmp_):
            return "an ordering instead of (in)equality"
        return None if (neg % 2 == 1) == (op == "!=") else "wrong polarity"
    if neg:
        return "negated"
    want = OPS[op]
    mirror = {">": "<", "<": ">", ">=": "<=", "<=": ">="}[want]
    f, q = u.find("\x01"), u.find("?")
    w = want if f < q else mirror
    if not cmp_ or any(c != w for c in cmp_):
        return f"does not compare with {want}"
    return None


# ------------------------------------------------------------------ assembly
def assembly(ctx):
    cond = Cond(ctx)
    fl = cond.fl
    g = fl.g
    loops = {i.id for i in cond.loops}
    # list the condition clauses are collected in
    body = reach([s for i in cond.loops for s, l in i.succ if l == "next"], stop=lambda x: x.id in loops, exc=False)
    clause_lists, param_lists = set(), set()
    for i in body:
        if i.op == "call" and last(i.fn) in ("append", "extend") and i.recv is not None:
            t = fl.term(i.args[0])
            (param_lists if cond.is_value(t) else clause_lists).add(fl.term(i.recv))
    own = [i for i in g.calls() if last(i.fn) == "join" and i.args and any(a in clause_lists for a in alts(fl.term(i.args[0])))]
    if not own:
        raise AnchorError("joining of the clauses of a select not found")
    for i in own:
        ctx.count("joins")
        sep = fl.term(i.recv)
        if sep[0] != "const" or str(sep[1]).strip().upper() != "AND":
            ctx.fail("joined", f"the conditions of one select are joined by {show(sep)} instead of AND", i.loc)
    rets = root_returns(fl)
    ok = False
    for r in rets:
        t = fl.term(r.args[0])
        if t[0] != "tuple" or len(t) != 3:
            raise AnchorError("generated clause and parameters not returned as a pair")
        plist = [a for a in alts(t[2])]
        for a in alts(t[1]):
            if a == ("const", ""):
                continue
            j = [x for x in subterms(a) if x[0] == "call" and callname(x) == "join"]
            if not j:
                raise AnchorError("where clause not recognised")
            outer = j[0]
            sep = outer[2]
            items = outer[3][0]
            inner_own = items in clause_lists
            if not inner_own:
                ctx.count("joins")
                if sep[0] != "const" or str(sep[1]).strip().upper() != "OR":
                    ctx.fail("joined", f"chained selects are joined by {show(sep)} instead of OR")
                pairs(ctx, cond, items, plist, clause_lists, param_lists)
            ok = True
        for a in plist:
            if a[0] not in ("list0", "list"):
                raise AnchorError("parameter list not recognised")
    if not ok:
        raise AnchorError("where clause not recognised")


def pairs(ctx, cond, items, plist, clause_lists, param_lists):
    """Clauses and parameters of each part are added in the same order, children in parentheses."""
    fl = cond.fl

    def source(t):
        for x in subterms(t):
            if x in clause_lists or x in param_lists:
                return "own"
            if x[0] == "call" and callname(x) == "_generate_conditions":
                return "child"
        return None

    seen = set()

    def ev(i):
        if i.op == "call" and last(i.fn) in ("append", "extend", "insert") and i.recv is not None and i.args:
            r = fl.term(i.recv)
            t = fl.term(i.args[-1])
            if r == items:
                return ("clause", source(t), i)
            if r in plist and r not in param_lists:
                return ("params", source(t), i)
        return None

    def step(i, st):
        e = ev(i)
        if e is None:
            return [st]
        kind, src, _ = e
        if src is None:
            raise AnchorError("part of the where clause not recognised")
        if src == "child":
            t = fl.term(i.args[-1])
            if kind == "clause" and t[0] == "fstr" and not ("(" in str(t[1][1]) if t[1][0] == "const" else False):
                pass
            it = contains(t, lambda x: x[0] == "item" and x[1][0] == "call" and callname(x[1]) == "_generate_conditions" and x[2] == ("const", 0 if kind == "clause" else 1))
            if not it:
                ctx.fail("swapped", f"a chained select's {'clause' if kind == 'clause' else 'parameters'} are taken from the wrong result", i.loc)
        seen.add((kind, src))
        if last(i.fn) == "insert" or st == ("bad",):
            ctx.fail("order", "clauses or parameters are not added in order", i.loc)
        if st is None:
            return [(kind, src)]
        if st[1] == src and st[0] != kind:
            return [None]
        ctx.fail("order", f"the parameters of a select are not added together with its clause (after {st[0]} of {st[1]}: {kind} of {src})", i.loc)
        return [None]

    ex = Explorer(fl, step, follow_exc=False)
    vis = ex.run(None)
    for k in vis:
        if k[0] == fl.g.exit.id and k[2] is not None:
            ctx.fail("order", f"the {k[2][0]} of a select are added without their {'parameters' if k[2][0] == 'clause' else 'clause'}")
    for src in ("own", "child"):
        ctx.count("assembled_parts")
        if ("clause", src) not in seen:
            ctx.fail(f"lost:{src}", f"the conditions of {'the select itself' if src == 'own' else 'chained selects'} do not reach the statement")


def statement(ctx):
    c = ctx.proj.cls("Select")
    m = ctx.proj.find_method(c, "generate_sql")
    if m is None:
        raise AnchorError("generate_sql not found")
    fl = ctx.flow(m, lambda *a: False, c)
    n = 0
    for r in root_returns(fl):
        t = fl.term(r.args[0])
        if t[0] != "tuple":
            raise AnchorError("generate_sql does not return a pair")
        ids = {x[5] for x in subterms(t[2]) if x[0] == "call" and callname(x) == "_generate_conditions"}
        src = {x[5] for x in subterms(t[1]) if x[0] == "call" and callname(x) == "_generate_conditions"}
        n += 1
        ctx.count("generated_statements")
        if src - ids or not ids:
            ctx.fail("mixed", "the statement and its parameters are not generated together", r.loc)
        for p in [x for x in subterms(t[2]) if x[0] == "item" and is_call_term(x[1], "_generate_conditions")]:
            if p[2] != ("const", 1):
                ctx.fail("swapped", "generate_sql returns the clause as the parameters", r.loc)
        for alt in parts(t[1]):
            s = norm(text(alt))
            dyn = [x for x in alt if not isinstance(x, str)]
            if not re.match(r"SELECT \* FROM samples\b", s, re.I):
                ctx.fail("statement", f"a select generates {s!r} instead of selecting whole samples", r.loc)
            if dyn and not re.search(r"WHERE \(?\x00\)?;?$", s, re.I):
                ctx.fail("statement", f"a select generates {s!r}: the conditions are not its where clause", r.loc)
            if dyn and not all(x[0] == "item" and x[2] == ("const", 0) for x in dyn):
                ctx.fail("swapped", "the where clause is not the generated clause", r.loc)
    # the statement without a where clause is used only if no clause was generated
    def nonempty(d):
        t = fl.term(d.dst) if d.dst is not None else None
        if t is not None and t[0] == "item" and is_call_term(t[1], "_generate_conditions") and t[2] == ("const", 0):
            return "truthy"
        return None
    ex = Explorer(fl, lambda i, st: [st], hook=nonempty, follow_exc=False)
    for k in ex.run(0):
        i = fl.g.ins[k[0]]
        if i.op == "const" and isinstance(i.data, str) and "FROM samples" in i.data and "WHERE" not in i.data.upper():
            ctx.fail("statement", "conditions are generated but not used", i.loc)
    if not n:
        raise AnchorError("generate_sql returns nothing")


def execution(ctx):
    c = ctx.proj.cls("Query")
    m = ctx.proj.find_method(c, "execute")
    fl = ctx.flow(m, None, c)
    n = 0
    final = []
    for i in fl.g.calls():
        if not is_exec(i):
            continue
        a = i.args[0] if i.args else (i.kw or {}).get("query")
        t = fl.term(a)
        gens = [x for alt in parts(t) for x in alt if not isinstance(x, str) and x[0] == "item" and is_call_term(x[1], "generate_sql")]
        if not gens:
            continue
        n += 1
        ctx.count("query_executions")
        if any(x[2] != ("const", 0) for x in gens):
            ctx.fail("swapped", "the executed text is not the generated statement", i.loc)
        p = i.args[1] if len(i.args) > 1 else (i.kw or {}).get("parameters")
        pt = fl.term(p) if p is not None else None
        if pt is None or not any(a[0] == "item" and is_call_term(a[1], "generate_sql") and a[2] == ("const", 1) and a[1] == gens[0][1] for a in [unlist(x) for x in alts(pt)]):
            ctx.fail("params", "a generated statement is not executed with the parameters generated together with it", i.loc)
        for alt in parts(t):
            s = norm(text(alt))
            if sum(1 for x in alt if not isinstance(x, str) and x[0] == "item" and is_call_term(x[1], "generate_sql")) > 1:
                ctx.fail("params", "the generated statement occurs more than once in the executed text, but its parameters are bound once", i.loc)
            if re.sub(r"'[^']*'", "", s).count("?"):
                ctx.fail("params", "the text around the generated statement has placeholders of its own", i.loc)
    if n < 1:
        raise AnchorError("execution of the generated statement not found")


def unlist(t):
    while t[0] == "call" and callname(t) in ("list", "tuple") and len(t[3]) == 1:
        t = t[3][0]
    return t


def plan(ctx):
    """Every operator added to a query stays reachable from its root."""
    base = ctx.proj.cls("Operator")
    for c in [base] + list(ctx.proj.subclasses(base)):
        m = c.methods.get("insert")
        if m is None:
            continue
        fl = ctx.flow(m, None, c)
        P = ("param", m.params()[1])
        root = ("attr", P, "root")
        added = {"self": [], "root": []}
        for i in fl.g.calls():
            if last(i.fn) in ("append", "insert", "extend") and i.recv is not None and i.args:
                r = fl.term(i.recv)
                if r[0] == "attr" and r[2] == "children":
                    x = strip_list(fl.term(i.args[-1]))
                    if r[1] == ("self",) and x == root:
                        added["self"].append(i)
                    elif r[1] == root and x == ("self",):
                        added["root"].append(i)
        # per return: the other operator was linked on the way, unless the plan is empty

        def hook(d):
            if d.op == "call" and last(d.fn) == "is_empty":
                return ("c", False)
            if d.op == "attr" and fl.term(d.dst) == root:
                return "truthy"
            return None

        ids = {i.id: k for k in added for i in added[k]}

        def step(i, st):
            return [st | {ids[i.id]}] if i.id in ids else [st]

        ex = Explorer(fl, step, hook=hook, follow_exc=False)
        vis = ex.run(frozenset())
        for k in vis:
            i = fl.g.ins[k[0]]
            if i.op == "return" and i.frame is fl.g.frames[0]:
                ctx.count("plan_insertions")
                t = fl.term(i.args[0])
                for a in alts(t):
                    want = "self" if a == ("self",) else "root" if a == root else None
                    if want is None:
                        raise AnchorError(f"result of {c.name}.insert not recognised")
                    if want not in k[2] and len(alts(t)) == 1:
                        ctx.fail(f"unlinked:{c.name}", f"{c.name}.insert returns {show(a)} without linking the other operator to it, so its conditions are lost", i.loc)
    q = ctx.proj.cls("QueryPlan")
    m = ctx.proj.find_method(q, "add")
    fl = ctx.flow(m, None, q)
    P = ("param", m.params()[1])
    sets = [i for i in fl.g.of("setattr") if i.data == "root" and fl.term(i.args[0]) == ("self",)]
    for empty in (True, False):
        def hook2(d, empty=empty):
            if d.op == "call" and last(d.fn) == "is_empty":
                return ("c", empty)
            if d.op == "attr" and d.data == "root":
                return ("c", None) if empty else "truthy"
            return None

        ex = Explorer(fl, lambda i, st: [i.id] if i in sets else [st], hook=hook2, follow_exc=False)
        vis = ex.run(0)
        for k in vis:
            if k[0] == fl.g.exit.id:
                ctx.count("plan_additions")
                if not k[2]:
                    ctx.fail("unlinked:QueryPlan", f"adding an operator to {'an empty' if empty else 'a non-empty'} plan has no effect")
                    continue
                v = fl.term(fl.g.ins[k[2]].args[1])
                good = P in alts(v) if empty else any(is_call_term(a, "insert") and a[2] == P for a in alts(v))
                if empty and any(is_call_term(a, "insert") and a[2] == P for a in alts(v)):
                    good = True
                if not good:
                    ctx.fail("unlinked:QueryPlan", f"adding an operator to {'an empty' if empty else 'a non-empty'} plan makes {show(v)[:60]} the root", fl.g.ins[k[2]].loc)
    if not sets:
        raise AnchorError("QueryPlan.add does not set the root")


def strip_list(t):
    return t[1] if t[0] in ("list", "tuple") and len(t) == 2 else t


# ------------------------------------------------------------------ catalog statements
SAN = {"len", "round", "int", "float", "max", "min", "cpu_count", "bool", "hash", "id", "count", "sum"}
STRFN = {"str", "join", "format", "sorted", "list", "set", "tuple", "strip", "Path", "resolve", "absolute", "as_posix", "expanduser", "replace", "upper", "lower", "reversed", "dict", "get", "items", "values", "keys", "pop", "with_suffix", "joinpath"}


def tainted(t, fl, src, depth=0):
    """Name of a user-supplied string that can become (part of) the value of t unescaped."""
    if depth > 20 or not isinstance(t, tuple) or not t:
        return None
    k = t[0]
    n = src(t)
    if n:
        return n
    if k == "call":
        cn = callname(t)
        if cn in SAN:
            return None
        if cn == "replace" and len(t[3]) == 2 and t[3] == (("const", "'"), ("const", "''")):
            return None
        if cn == "generate_sql":
            return None
        subs = list(t[3]) + [v for _, v in t[4]] + ([t[2]] if t[2] is not None else [])
        if cn not in STRFN and t[1] and not t[1].startswith("."):
            return None
        for s in subs:
            r = tainted(s, fl, src, depth + 1)
            if r:
                return r
        return None
    if k == "attr" and t[2] == "name":
        return None  # identifiers declared by metadata parsers
    if k in ("cmp", "const", "global", "fn", "class", "module"):
        return None
    if k in ("list0",):
        for _, e in fl.appended(t):
            r = tainted(e, fl, src, depth + 1) if e is not None else None
            if r:
                return r
        return None
    if k == "phi":
        for a in alts(t):
            r = tainted(a, fl, src, depth + 1)
            if r:
                return r
        return None
    if k == "bin" and t[1] not in ("Add", "Mod", "Div", "Mult"):
        return None
    for s in t[1:]:
        if isinstance(s, tuple):
            r = tainted(s, fl, src, depth + 1)
            if r:
                return r
    return None


def catalog(ctx):
    n = 0
    seen = set()
    for c in list(ctx.proj.classes.values()):
        for ci in c:
            if "tests" in ci.module.rel or not any("execute" in ctx_src(m) for m in ci.methods.values()):
                continue
            for m in entries(ctx, ci):
                if m.name == "__setstate__":
                    continue
                fl = ctx.flow(m, None, ci)
                strs = {p for p in m.params() if stringy(m, p)}

                def src(t):
                    if t[0] == "param" and t[1] in strs:
                        return f"parameter {t[1]}"
                    if t == ("attr", ("self",), "_directory"):
                        return "the data directory"
                    if t[0] == "attr" and t[2] == "enum_options":
                        return "enum options of a metadata parser"
                    if t[0] == "attr" and t[2] in ("conditions", "job_id", "location"):
                        return t[2]
                    if t[0] == "call" and callname(t) in ("fetchone", "fetchall", "iterate_files"):
                        return None
                    return None

                for i in fl.g.calls():
                    for s in statements(fl, i):
                        n += 1
                        if (i.loc, s.text) in seen:
                            continue
                        seen.add((i.loc, s.text))
                        ctx.count("statements")
                        for x in s.dyn:
                            w = tainted(x, fl, src)
                            if w:
                                ctx.fail("text", f"{w} becomes part of the text of a statement: {s.text.replace(DYN, '…')[:90]}", i.loc)
                        place = re.sub(r"'[^']*'", "", s.text).count("?")
                        if s.params is None:
                            if place and not s.dyn:
                                ctx.fail("count", f"{place} placeholders but no values: {s.text[:80]}", i.loc)
                        elif not any(x[0] == "item" for x in s.dyn):
                            for a in alts(s.params):
                                if a[0] in ("tuple", "list") and not any(x[0] == "star" for x in a[1:]):
                                    ctx.count("bound_statements")
                                    if len(a) - 1 != place:
                                        ctx.fail("count", f"{place} placeholders but {len(a) - 1} values: {s.text[:80]}", i.loc)
    ctx.floor("statements", 15)
    ctx.floor("bound_statements", 6)


def ctx_src(m):
    import ast
    return " ".join(x.attr for x in ast.walk(m.node) if isinstance(x, ast.Attribute))


def stringy(m, p):
    import ast
    a = m.annotation(p)
    if a is None:
        return p not in ("self", "cls")
    s = ast.unparse(a) if isinstance(a, ast.AST) else str(a)
    return any(x in s for x in ("str", "Path", "Any", "list", "List")) and "Callable" not in s and "Property" not in s


def dataset_row(ctx):
    """Columns of a new datasets row hold the values of the caller."""
    c = ctx.proj.cls("MixteraDataCollection")
    m = ctx.proj.find_method(c, "register_dataset")
    fl = ctx.flow(m, None, c)
    P = [("param", p) for p in m.params()[1:]]
    want = {"name": P[0], "location": P[1], "type": P[2], "parsing_func": P[3]}
    n = 0
    for i in fl.g.calls():
        for s in statements(fl, i):
            mm = re.search(r"insert into datasets ?\(([^)]*)\) values ?\(([^)]*)\)", s.text, re.I)
            if not mm or s.params is None:
                continue
            cols = [x.strip() for x in mm.group(1).split(",")]
            for a in alts(s.params):
                if a[0] not in ("tuple", "list") or len(a) - 1 != len(cols):
                    continue
                for col, v in zip(cols, a[1:]):
                    n += 1
                    ctx.count("dataset_columns")
                    src = {x for x in subterms(v) if x in P}
                    if col in want and want[col] not in src:
                        ctx.fail(f"column:{col}", f"column {col} of a new dataset is set to {show(v)[:60]}", i.loc)
                    for o in src:
                        if o != want.get(col) and want.get(col) not in src:
                            ctx.fail(f"column:{col}", f"column {col} of a new dataset is computed from {show(o)}", i.loc)
    if n < 4:
        raise AnchorError("insertion of a dataset row not recognised")


def file_rows(ctx):
    """File rows: columns follow the data frame, and the returned ids are matched to the paths they were inserted with."""
    c = ctx.proj.cls("MixteraDataCollection")
    m = ctx.proj.find_method(c, "register_dataset")
    fl = ctx.flow(m, None, c)
    ok = False
    frames = {}
    for i in fl.g.calls():
        if last(i.fn) == "DataFrame" and i.args:
            sch = arg_term(i, fl, 1, "schema")
            frames[fl.term(i.dst)] = (i, [x[1] for x in sch[1:]] if sch is not None and sch[0] == "list" else None, fl.term(i.args[0]))
    for i in fl.g.calls():
        for s in statements(fl, i):
            mm = re.search(r"insert into files ?\(([^)]*)\) select (.*?) from (\w+)(?: returning (.*?))?;?$", s.text, re.I)
            if not mm:
                continue
            ok = True
            ctx.count("file_statements")
            a, b = ([x.strip() for x in mm.group(k).split(",")] for k in (1, 2))
            if a != b:
                ctx.fail("files-columns", f"the columns {b} are inserted as {a}", i.loc)
            regs = [r for r in fl.g.calls() if last(r.fn) == "register" and r.args and fl.term(r.args[0]) == ("const", mm.group(3))]
            for r in regs:
                fr = frames.get(fl.term(r.args[1]))
                if fr is None or fr[1] is None:
                    continue
                fi, cols, rows = fr
                el = rows[2] if rows[0] == "comp" else None
                if el is None or el[0] != "tuple" or len(el) - 1 != len(cols):
                    continue
                for col, v in zip(cols, el[1:]):
                    ctx.count("file_columns")
                    isid = contains(v, lambda x: x[0] == "call" and x[1] and "insert_dataset" in x[1]) or not contains(v, lambda x: x[0] == "elem" or is_call_term(x, "str"))
                    if col == "location" and isid or col == "dataset_id" and not isid:
                        ctx.fail("files-columns", f"column {col} of a new file is set to {show(v)[:60]}", fi.loc)
            if mm.group(4):
                ret = [x.strip() for x in mm.group(4).split(",")]
                if "id" in ret and "location" in ret:
                    ii, il = ret.index("id"), ret.index("location")
                    for d in fl.g.live:
                        if d.op != "elem":
                            continue
                        t = [fl.term(x) for x in d.args]
                        rowish = [x for y in t for x in subterms(y) if x[0] == "item" and x[1][0] == "elem" and contains(x[1], lambda z: z[0] == "call" and callname(z) == "fetchall")
                                  and x[2][0] == "const"]
                        if len(t) >= 2 and rowish and d.data == "dict":
                            ks = [x for x in t if x[0] == "item"]
                            if len(ks) >= 2:
                                ctx.count("file_columns")
                                k, v = ks[0], ks[1]
                                if (k[2], v[2]) != (("const", il), ("const", ii)):
                                    ctx.fail("files-ids", "the ids returned for new files are not matched to their locations", d.loc)
    if not ok:
        raise AnchorError("insertion of file rows not found")


LOOKUP = {"_get_dataset_func_by_id": ("datasets", "parsing_func"), "_get_dataset_type_by_id": ("datasets", "type"), "_get_file_path_by_id": ("files", "location")}


def lookups(ctx):
    """Accessors select the column they are named after for exactly the row asked for."""
    c = ctx.proj.cls("MixteraDataCollection")
    n = 0
    for name, (table, col) in LOOKUP.items():
        m = ctx.proj.find_method(c, name)
        if m is None:
            continue
        fl = ctx.flow(m, None, c)
        P = ("param", m.params()[1])
        for i in fl.g.calls():
            for s in statements(fl, i):
                n += 1
                ctx.count("lookups")
                mm = re.match(r"select (\w+) from (\w+) where id = \?;?$", s.text, re.I)
                if not mm:
                    raise AnchorError(f"statement of {name} not recognised")
                if (mm.group(2).lower(), mm.group(1).lower()) != (table, col):
                    ctx.fail(f"lookup:{name}", f"{name} reads {mm.group(1)} of {mm.group(2)}", i.loc)
                if s.params is None or not all(a[0] in ("tuple", "list") and a[1:] == (P,) for a in alts(s.params)):
                    ctx.fail(f"lookup:{name}", f"{name} looks up {show(s.params)} instead of the id asked for", i.loc)
    if not n:
        raise AnchorError("catalog accessors not found")
