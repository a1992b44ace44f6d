"""C26: every sample of a file is recorded exactly once, complete and under its own row number."""
import ast

from ..core import *
from ..flow import Explorer, strip_ids, mkelem, mkitem
from ..sql import statements, norm
from .util import *
from .paths import along, defining, var_delta, var_key


def run(ctx):
    ctx.rule("Abstract evaluation of the record validation for every kind of property (nullable, multiple, enum) x kind of value: rejected or stored under the property's own name; exactly one record "
             "per accepted sample, appended after all properties were validated. Per parser: one record per parsed sample on every path, under the given row number, only declared properties, a missing "
             "mandatory value never turned into text. Per dataset format: every element of the file is parsed exactly once, numbered by its position in the whole file, failures not swallowed. "
             "Column assembly: one value per column and sample on every path, column and value of the same property, every file's result inserted once with the file it came from.")
    ctx.part(record, ctx)
    ctx.part(parsers, ctx)
    ctx.part(numbering, ctx)
    ctx.part(worker, ctx)
    ctx.part(tasks, ctx)
    ctx.part(columns, ctx)


# ------------------------------------------------------------------ record validation
class Rec:
    def __init__(self, ctx):
        c = ctx.proj.cls("MetadataParser")
        m = ctx.proj.find_method(c, "add_metadata")
        if m is None:
            raise AnchorError("add_metadata not found")
        self.fl = fl = ctx.flow(m, None, c, key="rec")
        self.sid = ("param", m.params()[1])
        self.kwargs = [("param", a) for a in m.all_params() if a not in m.params()] or [("param", m.node.args.kwarg.arg)]
        self.appends = [i for i in fl.g.calls() if last(i.fn) in ("append", "extend", "insert") and i.recv is not None
                        and fl.term(i.recv) == ("attr", ("self",), "metadata")]
        if not self.appends:
            raise AnchorError("record list of the parser not found")
        self.loops = []
        for i in fl.g.of("next"):
            s = fl.term(i.args[0])[-1]
            while s[0] == "call" and (callname(s) in ("items", "values", "keys") and s[2] is not None or callname(s) in ("list", "tuple", "sorted", "iter") and s[3]):
                s = s[2] if s[2] is not None else s[3][0]
            if s == ("attr", ("self",), "property_map") or is_call_term(s, "get_properties"):
                self.loops.append(i)
        if not self.loops:
            raise AnchorError("iteration over the declared properties not found")

    def pm(self, t):
        return t == ("attr", ("self",), "property_map")

    def is_key(self, t):
        if t[0] == "keyof" and self.pm(t[1]) or t[0] == "elem" and self.pm(t[1]):
            return True
        return t[0] == "attr" and t[2] == "name" and self.is_prop(t[1])

    def is_prop(self, t):
        if t[0] == "valof" and self.pm(t[1]):
            return True
        if t[0] == "elem" and contains(t[1], lambda x: is_call_term(x, "get_properties")):
            return True
        if t[0] == "item" and self.pm(t[1]) and self.is_key(t[2]):
            return True
        return False

    def is_raw(self, t):
        """The value given for the property of the loop."""
        if t[0] == "call" and callname(t) in ("get", "pop") and t[2] in self.kwargs and t[3] and self.is_key(t[3][0]):
            return len(t[3]) == 1 or t[3][1] == ("const", None)
        return t[0] == "item" and t[1] in self.kwargs and self.is_key(t[2])

    def from_raw(self, t):
        return contains(t, self.is_raw)


def record(ctx):
    r = Rec(ctx)
    n = 0
    for nullable in (True, False):
        for multiple in (True, False):
            for enum in (True, False):
                for kind in ("none", "scalar", "list"):
                    for valid in ((True, False) if enum and kind != "none" else (True,)):
                        n += one_property(ctx, r, nullable, multiple, enum, kind, valid)
    ctx.count("property_value_cases", n)
    one_record(ctx, r)


def one_property(ctx, r, nullable, multiple, enum, kind, valid):
    fl = r.fl
    loops = {i.id for i in r.loops}

    def hook(d):
        t = fl.term(d.dst) if d.dst is not None else None
        if t is None:
            return None
        if d.op == "attr" and r.is_prop(fl.term(d.args[0])):
            if d.data == "nullable":
                return ("c", nullable)
            if d.data == "multiple":
                return ("c", multiple)
            if d.data == "dtype":
                return ("c", "ENUM" if enum else "STRING")
            if d.data == "enum_options":
                return "truthy" if enum else ("c", None)
        if r.is_raw(t) and d.op in ("call", "item"):
            return ("c", None) if kind == "none" else "notnone"
        if d.op == "cmp" and d.data in ("In", "NotIn"):
            a, b = fl.term(d.args[0]), fl.term(d.args[1])
            if b in r.kwargs and r.is_key(a):
                return ("c", (kind != "none") == (d.data == "In"))
            if contains(b, lambda x: x[0] == "attr" and x[2] == "enum_options") and r.from_raw(a):
                return ("c", valid == (d.data == "In"))
        if d.op == "cmp" and d.data in ("Lt", "LtE", "Gt", "GtE"):
            a, b = fl.term(d.args[0]), fl.term(d.args[1])
            if enumset(b) and r.from_raw(a) and d.data == "LtE" or enumset(a) and r.from_raw(b) and d.data == "GtE":
                return ("c", valid)
        if d.op == "call":
            nm = last(d.fn)
            if nm == "isinstance" and len(d.args) == 2 and r.from_raw(fl.term(d.args[0])) and contains(fl.term(d.args[1]), lambda x: "list" in str(x)):
                x = fl.term(d.args[0])
                if all(r.is_raw(a) for a in alts(x) if a != ("const", None)):
                    return ("c", kind == "list")
                return None
            if nm in ("all", "any") and d.args:
                s = fl.term(d.args[0])
                ops = [x for x in subterms(s) if x[0] in ("cmp", "In", "NotIn") or (len(x) > 1 and x[1] in ("In", "NotIn"))]
                if ops and enumset(s) and r.from_raw(s):
                    neg = any("NotIn" in x[:3] for x in ops)
                    ok = nm == "all" and not neg or nm == "any" and neg
                    if not ok:
                        return None
                    return ("c", valid if nm == "all" else not valid)
            if nm in ("issubset",) and d.recv is not None and r.from_raw(fl.term(d.recv)) and d.args and enumset(fl.term(d.args[0])):
                return ("c", valid)
            if nm in ("difference",) and d.recv is not None and r.from_raw(fl.term(d.recv)) and d.args and enumset(fl.term(d.args[0])):
                return "truthy" if not valid else ("c", False)
        if d.op == "bin" and d.data == "Sub" and enumset(fl.term(d.args[1])) and r.from_raw(fl.term(d.args[0])):
            return "truthy" if not valid else ("c", False)
        if d.op == "newcomp" or t[0] == "comp":
            # list of the offending values
            if t[0] == "comp" and t[1] in ("list", "set") and enumset_comp(fl, d, t):
                return "truthy" if not valid else ("c", False)
        return None

    def step(i, st):
        if st is not None and i.op == "setitem" and r.is_key(fl.term(i.args[1])):
            return [st + (i.id,)] if len(st) < 4 else None
        if st is not None and i.op == "call" and i in r.appends:
            return [st + (-i.id,)]
        return [st]

    inner = comp_loops(fl)

    def edge(i, s, lab, st):
        if i.id in loops:
            if lab == "next":
                return () if st is None else False
            if lab == "stop":
                return False
        return st

    ex = Explorer(fl, step, edge=edge, follow_exc=False, hook=hook)
    vis = ex.run(None)
    ends = [k for k in vis if (k[0] in loops or k[0] == fl.g.exit.id) and k[2] is not None]
    rejected = [k for k in vis if k[0] == fl.g.raise_exit.id and k[2] is not None]
    name = f"{'nullable' if nullable else 'mandatory'}{' multiple' if multiple else ''}{' enum' if enum else ''} property, {kind} value{'' if valid else ' not among the options'}"
    must_raise = kind == "none" and not nullable or kind == "list" and not multiple or not valid
    if must_raise:
        if ends:
            w = {"none": "a missing mandatory value", "list": "a list for a single-valued property"}.get(kind, "") if valid else "a value outside the declared options"
            if valid or kind == "none":
                pass
            ctx.fail(f"accepted:{'missing' if kind == 'none' else 'invalid' if not valid else 'list'}", f"{w} is accepted ({name})", fl.g.ins[ends[0][0]].loc)
        return 1
    if not ends:
        if rejected:
            if kind == "none" and not valid:
                return 1
            ctx.fail(f"rejected:{kind}", f"a valid value is rejected ({name})", fl.g.ins[rejected[0][0]].loc)
            return 1
        raise AnchorError(f"record validation not explored for {name}")
    for k in ends:
        stores = [fl.g.ins[x] for x in k[2] if x > 0]
        path = ex.path((fl.g.ins[k[0]], k[1], k[2]))
        if kind == "none":
            for i in stores:
                v = along(fl, path, i, i.args[2])
                if not all(a == ("const", None) or r.is_raw(a) for a in alts(v)):
                    ctx.fail("invented", f"a missing value is stored as {show(v)[:60]} ({name})", i.loc)
            continue
        if not stores:
            ctx.fail("dropped", f"a value is not stored ({name})", fl.g.ins[k[0]].loc)
            continue
        i = stores[-1]
        v = along(fl, path, i, i.args[2])
        for a in alts(v):
            wrapped = a[0] in ("list", "tuple") and len(a) == 2 and r.is_raw(a[1])
            if not (r.is_raw(a) or wrapped or r.from_raw(a)):
                ctx.fail("other-value", f"instead of the given value {show(a)[:60]} is stored ({name})", i.loc)
            elif multiple and kind == "scalar" and not wrapped and r.is_raw(a):
                ctx.fail("shape", f"a single value of a multi-valued property is not stored as a list ({name})", i.loc)
            elif wrapped and not multiple:
                ctx.fail("shape", f"the value of a single-valued property is stored as a list ({name})", i.loc)
            elif wrapped and kind == "list":
                ctx.fail("shape", f"a list of values is stored as a nested list ({name})", i.loc)
    return 1


def enumset(t):
    return contains(t, lambda x: x[0] == "attr" and len(x) == 3 and x[2] == "enum_options")


def enumset_comp(fl, d, t):
    """Comprehension collecting the values that are not among the options."""
    for i in fl.g.of("elem"):
        if fl.term(i.args[0])[:3] == t[:3]:
            for s in fl.g.live:
                if s.op == "cmp" and s.data == "NotIn" and enumset(fl.term(s.args[1])) and fl.term(s.args[0]) == fl.term(i.args[1]):
                    return True
    return False


def comp_loops(fl):
    return set()


def one_record(ctx, r):
    fl = r.fl
    loops = {i.id for i in r.loops}
    apps = {i.id for i in r.appends}
    recs = set()
    for i in r.appends:
        ctx.count("record_appends")
        t = fl.term(i.args[-1])
        recs.add(t)
        sid = record_sid(fl, t)
        if sid != r.sid:
            ctx.fail("row-number", f"the record is stored under {show(sid)[:60] if sid else 'no row number'} instead of the row number given", i.loc)
    # keys of a record come from the declared properties only
    for i in fl.g.of("setitem"):
        b = fl.term(i.args[0])
        if any(b == t or contains(t, lambda x: x == b) for t in recs):
            k = fl.term(i.args[1])
            ctx.count("record_keys")
            if not r.is_key(k) and k not in (("const", "sample_id"), ("const", "dataset_id"), ("const", "file_id")):
                ctx.fail("foreign-key", f"a record gets the key {show(k)[:60]} that is not a declared property", i.loc)
    for t in recs:
        for x in subterms(t):
            if x in r.kwargs:
                ctx.fail("foreign-key", "whatever the parser passes is stored, declared or not", r.appends[0].loc)
    for i in fl.g.calls():
        if last(i.fn) in ("update", "setdefault") and i.recv is not None and fl.term(i.recv) in recs and any(contains(fl.term(a), lambda x: x in r.kwargs) for a in i.args):
            if last(i.fn) == "update":
                ctx.fail("foreign-key", "whatever the parser passes is stored, declared or not", i.loc)

    # one record per normal return, after the last property
    def step(i, st):
        stopped, n = st
        if i.id in apps:
            if not stopped:
                ctx.fail("early", "a record is added before all properties were validated", i.loc)
            return [(stopped, min(n + 1, 2))]
        return [st]

    def edge(i, s, lab, st):
        if i.id in loops and lab == "stop":
            return (True, st[1])
        return st

    ex = Explorer(fl, step, edge=edge)
    vis = ex.run((False, 0))
    for k in vis:
        if k[0] == fl.g.exit.id and k[2][1] != 1:
            ctx.fail("record-count", f"add_metadata returns having added {'no' if not k[2][1] else 'more than one'} record")
        if k[0] == fl.g.exit.id and not k[2][0]:
            ctx.fail("early", "add_metadata returns before all properties were validated")


def record_sid(fl, t):
    if t[0] == "dict":
        for e in t[1:]:
            if isinstance(e, tuple) and len(e) == 2 and e[0] == ("const", "sample_id"):
                return e[1]
    if t[0] == "call" and callname(t) == "dict":
        for k, v in t[4]:
            if k == "sample_id":
                return v
        for a in t[3]:
            s = record_sid(fl, a)
            if s:
                return s
    for i, k, v in fl.items_set(t):
        if k == ("const", "sample_id"):
            return v
    for x in (t[1:] if t[0] == "dict" else ()):
        if isinstance(x, tuple):
            for y in subterms(x):
                if y[0] == "dict" and y is not t:
                    s = record_sid(fl, y)
                    if s:
                        return s
    return None


# ------------------------------------------------------------------ parsers
def declared(ctx, c):
    """name -> (nullable, dtype, multiple) of a parser's declared properties; constants only."""
    m = ctx.proj.find_method(c, "get_properties")
    if m is None or m.is_abstract:
        raise AnchorError(f"{c.name} declares no properties")
    fl = ctx.flow(m, None, c)
    out = {}
    for i in fl.g.calls():
        if last(i.fn) != "MetadataProperty":
            continue
        g = lambda n, k, d=None: arg_term(i, fl, n, k) or ("const", d)
        nm = g(0, "name")
        if nm[0] != "const":
            raise AnchorError(f"property name of {c.name} is not a constant")
        out[nm[1]] = (g(3, "nullable"), g(1, "dtype"), g(2, "multiple"), i)
    if not out:
        raise AnchorError(f"{c.name} declares no properties")
    return out


def parser_classes(ctx):
    base = ctx.proj.cls("MetadataParser")
    return [c for c in ctx.proj.subclasses(base) if "tests" not in c.module.rel]


def parsers(ctx):
    n = 0
    for c in parser_classes(ctx):
        m = ctx.proj.find_method(c, "parse")
        if m is None or m.is_abstract:
            continue
        n += 1
        ctx.count("parsers")
        ctx.part(parser, ctx, c, m, declared(ctx, c))
    ctx.floor("parsers", 4)


def parser(ctx, c, m, props):
    fl = ctx.flow(m, ctx.local_policy(m, c, stop=("add_metadata", "get_properties")), c)
    row, payload = ("param", m.params()[1]), ("param", m.params()[2])
    adds = [i for i in fl.g.calls() if last(i.fn) == "add_metadata" and i.recv is not None]
    if not adds:
        raise AnchorError(f"{c.name}.parse does not record the sample")
    ids = {i.id for i in adds}

    # exactly one record per normal return
    def step(i, st):
        return [min(st + 1, 2)] if i.id in ids else [st]

    ex = Explorer(fl, step)
    vis = ex.run(0)
    for k in vis:
        if k[0] == fl.g.exit.id and k[2] != 1:
            ctx.fail(f"record-count:{c.name}", f"{c.name}.parse returns having recorded the sample {'not at all' if not k[2] else 'more than once'}", m.loc)
    for i in adds:
        ctx.count("recorded_samples")
        s = arg_term(i, fl, 0, "sample_id")
        if s != row:
            ctx.fail(f"row-number:{c.name}", f"{c.name} records the sample under {show(s)[:50] if s else 'no row number'} instead of the row number it was given", i.loc)
        given = given_props(fl, i)
        for k, v in given.items():
            ctx.count("recorded_properties")
            if k not in props:
                ctx.fail(f"undeclared:{c.name}:{k}", f"{c.name} records {k}, which it does not declare: the value is lost", i.loc)
        for k, (nullable, dtype, multiple, d) in props.items():
            if k not in given and given.get("**") is None:
                ctx.fail(f"never:{c.name}:{k}", f"{c.name} declares {k} but never records it", i.loc)
    missing(ctx, c, fl, m, payload, props, adds)


def given_props(fl, i):
    """property name -> value terms passed to add_metadata (also through ** of a local dict)."""
    out = {}
    for k, v in (i.kw or {}).items():
        if k in ("sample_id",):
            continue
        if k is not None and not k.startswith("**"):
            out.setdefault(k, []).append(fl.term(v))
    for a in starred(fl, i):
        t = fl.term(a)
        for x in alts(t):
            if x[0] == "dict":
                for e in dict_items(x):
                    out.setdefault(e[0][1], []).append(e[1])
            for _, k, v in fl.items_set(x):
                if k is not None and k[0] == "const":
                    out.setdefault(k[1], []).append(v)
                else:
                    raise AnchorError("property name computed at run time")
            if x[0] not in ("dict", "dict0"):
                raise AnchorError("recorded properties not resolved")
    return out


def dict_items(t):
    return [e for e in t[1:] if isinstance(e, tuple) and len(e) == 2 and isinstance(e[0], tuple) and e[0] and e[0][0] == "const"]


def starred(fl, i):
    return [(i.kw or {})["**"]] if "**" in (i.kw or {}) else []


TEXTS = {"str", "repr", "format", "join", "int", "float", "strip", "lower", "upper"}


def missing(ctx, c, fl, m, payload, props, adds):
    """A value that is missing in the payload is never recorded as something else."""
    gets = []
    for i in fl.g.calls():
        if last(i.fn) == "get" and i.recv is not None and contains(fl.term(i.recv), lambda x: x == payload) and (len(i.args) < 2 or fl.term(i.args[1]) == ("const", None)):
            gets.append(i)
    for q in gets:
        ctx.count("optional_reads")
        qt = fl.term(q.dst)

        def hook(d, q=q):
            return ("c", None) if d is q else None

        ex = Explorer(fl, lambda i, st: [st], hook=hook, follow_exc=False)
        vis = ex.run(0)
        for i in adds:
            for k in [k for k in vis if k[0] == i.id]:
                path = ex.path((i, k[1], k[2]))
                vals = {n: v for n, v in (i.kw or {}).items() if n != "sample_id"}
                terms = [(n, along(fl, path, i, v)) for n, v in vals.items()]
                for n in path:
                    if n.op == "setitem" and any(fl.term(a) == fl.term(n.args[0]) for a in starred(fl, i)):
                        terms.append((fl.term(n.args[1])[1], along(fl, path, n, n.args[2])))
                    if n.op == "dict" and n.dst is not None and any(fl.term(n.dst) in alts(fl.term(a)) for a in starred(fl, i)):
                        for e in dict_items(fl.term(n.dst)):
                            terms.append((e[0][1], e[1]))
                for n, t in terms:
                    for x in subterms(t):
                        conv = x[0] == "call" and callname(x) in TEXTS and (any(contains(y, lambda z: z == qt) for y in x[3]))
                        conv = conv or x[0] == "fstr" and contains(x, lambda z: z == qt)
                        if conv and not any(a == ("const", None) for a in [t]):
                            ctx.fail(f"missing-as-text:{c.name}:{n}", f"{c.name} records {n} as text made from a value that may be missing: such a sample is stored with an invented value instead of being rejected", i.loc)


# ------------------------------------------------------------------ row numbers
def dataset_classes(ctx):
    base = ctx.proj.cls("Dataset")
    return [c for c in ctx.proj.subclasses(base) if "tests" not in c.module.rel]


def not_implemented(fl):
    return not [i for i in fl.g.live if i is fl.g.exit]


def numbering(ctx):
    for c in dataset_classes(ctx):
        m = ctx.proj.find_method(c, "inform_metadata_parser")
        if m is None:
            continue
        fl = ctx.flow(m, None, c)
        if not reaches_exit(fl):
            continue
        ctx.count("indexed_formats")
        ctx.part(numbered, ctx, c, m, fl)
    ctx.floor("indexed_formats", 2)


def reaches_exit(fl):
    return any(i is fl.g.exit for i in reach([fl.g.entry]))


def inner_loop(fl, ins):
    """Innermost loop head (next instruction) whose body contains ins."""
    best = None
    for h in fl.g.of("next"):
        body = reach([s for s, l in h.succ if l == "next"], stop=lambda x: x is h, exc=False)
        if ins in body and h in body:
            if best is None or len(body) < best[1]:
                best = (h, len(body), body)
    return best


def numbered(ctx, c, m, fl):
    parser = ("param", m.params()[1])
    ps = [i for i in fl.g.calls() if last(i.fn) == "parse" and i.recv is not None and fl.term(i.recv) == parser]
    if not ps:
        raise AnchorError(f"{c.name} does not pass its samples to the parser")
    p = ps[0]
    L = inner_loop(fl, p)
    if L is None:
        raise AnchorError(f"{c.name}: samples not parsed in a loop")
    head, _, body = L
    ids = {i.id for i in ps}
    # exactly one parse per element
    def step(i, st):
        return [min(st + 1, 2)] if i.id in ids and st is not None else [st]

    def edge(i, s, lab, st):
        if i is head:
            return 0 if lab == "next" else st if lab != "stop" else None
        if lab in ("exc", "exc-base") and no_raise(i):
            return False
        return st

    ex = Explorer(fl, step, edge=edge)
    vis = ex.run(None)
    for k in vis:
        i = fl.g.ins[k[0]]
        if i is head and k[2] is not None and k[2] != 1:
            ctx.fail(f"sample-count:{c.name}", f"{c.name}: a sample of the file is passed to the parser {'not at all' if not k[2] else 'more than once'}, and indexing goes on", p.loc)
        if i is fl.g.exit and k[2] is not None:
            ctx.fail(f"sample-count:{c.name}", f"{c.name}: indexing of a file ends early without failing", p.loc)
    for p in ps:
        row, payload = arg_term(p, fl, 0, "line_number"), arg_term(p, fl, 1, "payload")
        if row is None or payload is None:
            raise AnchorError(f"{c.name}: arguments of parse not recognised")
        src = fl.term(head.args[0])[-1]
        outer = [h for h in fl.g.of("next") if h is not head and head in reach([s for s, l in h.succ if l == "next"], stop=lambda x, h=h: x is h, exc=False)]
        ctx.count("numbered_samples")
        whole = whole_index(fl, row)
        if whole is not None:
            it, start = whole
            if outer:
                ctx.fail(f"restart:{c.name}", f"{c.name}: the row number starts again for every {show(fl.term(outer[0].args[0])[-1])[:60]}", p.loc)
            if start != ("const", 0):
                ctx.fail(f"offset:{c.name}", f"{c.name}: rows are numbered from {show(start)[:40]} instead of 0", p.loc)
            if not contains(payload, lambda x: x in (mkelem(it), ("item", it, row))):
                ctx.fail(f"payload:{c.name}", f"{c.name}: {show(payload)[:60]} is recorded under the row number of another element", p.loc)
        else:
            counter(ctx, c, fl, p, head, outer, row)
        if not contains(payload, lambda x: x[0] in ("elem", "item", "valof") and contains(x, lambda y: y[0] == "elem")):
            raise AnchorError(f"{c.name}: parsed element not recognised")


def whole_index(fl, row):
    if row[0] == "index":
        it = row[1]
        start = ("const", 0)
        for i in fl.g.calls():
            if i.fn == "enumerate" and i.args and fl.term(i.args[0]) == it:
                start = arg_term(i, fl, 1, "start") or start
        return it, start
    if row[0] == "elem" and row[1][0] == "call" and row[1][1] == "range" and row[1][3]:
        a = row[1][3]
        n = a[0] if len(a) == 1 else a[1]
        if n[0] == "call" and n[1] == "len" and n[3] and (len(a) < 3 or a[2] == ("const", 1)):
            return n[3][0], ("const", 0) if len(a) == 1 else a[0]
    return None


def counter(ctx, c, fl, p, head, outer, row):
    """Row number kept in a variable: starts at 0 outside all loops, advanced by one per element (or by the batch length per batch)."""
    t = p.args[0] if p.args else p.kw["line_number"]
    key = var_key(fl, t)
    d = defining(fl, t)
    if d is not None and d.op == "bin" and d.data == "Add":
        ix = [a for a in d.args if whole_index(fl, fl.term(a)) is not None]
        of = [a for a in d.args if a not in ix]
        if len(ix) == 1 and len(of) == 1:
            it, start = whole_index(fl, fl.term(ix[0]))
            return batched(ctx, c, fl, p, head, outer, var_key(fl, of[0]), it, start)
    if key is None:
        raise AnchorError(f"{c.name}: row number not recognised")
    stores = [s for s in fl.g.of("store") if s.data == key]
    inits = [s for s in stores if var_delta(fl, s, key) is None]
    incs = {s.id: var_delta(fl, s, key) for s in stores if var_delta(fl, s, key) is not None}
    loops = [head] + outer
    for s in inits:
        if fl.term(s.args[0]) != ("const", 0):
            ctx.fail(f"offset:{c.name}", f"{c.name}: rows are numbered from {show(fl.term(s.args[0]))[:40]} instead of 0", s.loc)
        for h in loops:
            if s in reach([x for x, l in h.succ if l == "next"], stop=lambda x, h=h: x is h, exc=False):
                ctx.fail(f"restart:{c.name}", f"{c.name}: the row number starts again inside the loop over the file", s.loc)

    def step(i, st):
        return [st + incs[i.id]] if i.id in incs and st is not None and abs(st) < 4 else [st]

    def edge(i, s, lab, st):
        if lab in ("exc", "exc-base") and no_raise(i):
            return False
        if i is head:
            return 0 if lab == "next" else None
        return st

    ex = Explorer(fl, step, edge=edge)
    vis = ex.run(None)
    for k in vis:
        if k[0] == head.id and k[2] is not None and k[2] != 1:
            ctx.fail(f"advance:{c.name}", f"{c.name}: the row number advances by {k[2]} for one sample", p.loc)
    body = reach([x for x, l in head.succ if l == "next"], stop=lambda x: x is head, exc=False)
    for s in stores:
        if s.id in incs and s not in body:
            ctx.fail(f"advance:{c.name}", f"{c.name}: the row number also advances outside the loop over the samples", s.loc)


def batched(ctx, c, fl, p, head, outer, key, it, start):
    if key is None or not outer:
        raise AnchorError(f"{c.name}: row number not recognised")
    if start != ("const", 0):
        ctx.fail(f"offset:{c.name}", f"{c.name}: rows of a batch are numbered from {show(start)[:40]} instead of 0", p.loc)
    stores = [s for s in fl.g.of("store") if s.data == key]
    adv, init = [], []
    for s in stores:
        d = fl.g.tempdef.get(s.args[0])
        if d is not None and d.op == "bin" and d.data == "Add" and any(fl.g.tempdef.get(a) is not None and fl.g.tempdef[a].op == "load" and fl.g.tempdef[a].data == key for a in d.args):
            adv.append((s, d))
        else:
            init.append(s)
    for s in init:
        if fl.term(s.args[0]) != ("const", 0):
            ctx.fail(f"offset:{c.name}", f"{c.name}: rows are numbered from {show(fl.term(s.args[0]))[:40]} instead of 0", s.loc)
        for h in outer:
            if s in reach([x for x, l in h.succ if l == "next"], stop=lambda x, h=h: x is h, exc=False):
                ctx.fail(f"restart:{c.name}", f"{c.name}: the row number starts again inside the loop over the file", s.loc)
    inb = reach([x for x, l in head.succ if l == "next"], stop=lambda x: x is head, exc=False)
    oh = min(outer, key=lambda h: len(reach([x for x, l in h.succ if l == "next"], stop=lambda x: x is h, exc=False)))
    for s, d in adv:
        o = [a for a in d.args if not (fl.g.tempdef.get(a) is not None and fl.g.tempdef[a].op == "load" and fl.g.tempdef[a].data == key)]
        t = fl.term(o[0]) if o else None
        root = strip_ids(it)
        good = t is not None and (t[0] == "call" and callname(t) == "len" and strip_ids(t[3][0]) in (root, base_batch(root)) or t[0] == "attr" and t[2] == "num_rows" and strip_ids(t[1]) == base_batch(root))
        if not good:
            ctx.fail(f"advance:{c.name}", f"{c.name}: the row number advances by {show(t)[:40] if t else '?'} per batch instead of the length of the batch", s.loc)
        if s in inb:
            ctx.fail(f"advance:{c.name}", f"{c.name}: the row number of the batch advances per sample", s.loc)
    ids = {s.id for s, _ in adv}

    def step(i, st):
        return [min(st + 1, 2)] if i.id in ids and st is not None else [st]

    def edge(i, s, lab, st):
        if lab in ("exc", "exc-base") and no_raise(i):
            return False
        if i is oh:
            return 0 if lab == "next" else None
        return st

    ex = Explorer(fl, step, edge=edge)
    for k in ex.run(None):
        if k[0] == oh.id and k[2] is not None and k[2] != 1:
            ctx.fail(f"advance:{c.name}", f"{c.name}: the row number is advanced {k[2]} times per batch", p.loc)


def base_batch(t):
    return strip_ids(t[2]) if t[0] == "call" and callname(t) in ("to_pylist",) and t[2] is not None else t


# ------------------------------------------------------------------ one file in a worker
class Worker:
    def __init__(self, ctx):
        f = None
        c = ctx.proj.cls("MixteraDataCollection")
        m = ctx.proj.find_method(c, "_register_dataset_contents") or ctx.proj.find_method(c, "register_dataset")
        if m is None:
            raise AnchorError("registration of dataset contents not found")
        self.m = m
        self.rf = rf = ctx.flow(m, ctx.local_policy(m, c, stop=("_insert_samples_with_metadata", "_insert_files_into_table", "_add_columns_to_samples_table", "remove_dataset", "_db_incr_version", "_vacuum", "_insert_dataset_into_table")), c, key="reg")
        self.maps = [i for i in rf.g.calls() if last(i.fn) in ("map", "imap", "imap_unordered", "map_async") and len(i.args) >= 2]
        if not self.maps:
            raise AnchorError("distribution of files to index workers not found")
        fns = {ctx_func(ctx, rf.term(i.args[0])) for i in self.maps}
        fns.discard(None)
        if len(fns) != 1:
            raise AnchorError("function run by index workers not resolved")
        self.f = fns.pop()
        self.wf = ctx.flow(self.f, lambda *a: False, None, key="worker")
        self.task = None
        # elements of the task tuple
        t = rf.term(self.maps[0].args[1])
        base = t[1] if t[0] == "item" else t
        self.base, self.arg = base, t
        e = mkelem(base) if base[0] == "comp" else None
        if e is None and base[0] in ("list0", "list"):
            es = [x for _, x in rf.appended(base) if x is not None]
            e = es[0] if len(es) == 1 else None
        if e is not None and e[0] == "call" and callname(e) == "list":
            e = None
        if e is None or e[0] != "tuple":
            raise AnchorError("task of an index worker not recognised")
        self.elems = e[1:]
        self.P = ("param", self.f.params()[0])

    def role(self, t):
        """Substitutes the elements of the task for the worker's parameter."""
        if t[0] == "item" and t[1] == self.P and t[2][0] == "const":
            return self.elems[t[2][1]]
        return t


def ctx_func(ctx, t):
    return ctx.proj.funcs.get(t[1]) if t[0] == "fn" else None


def worker(ctx):
    w = Worker(ctx)
    fl = w.wf
    mk = [i for i in fl.g.calls() if last(i.fn) == "create_metadata_parser"]
    inf = [i for i in fl.g.calls() if last(i.fn) == "inform_metadata_parser"]
    if not mk or not inf:
        raise AnchorError("index worker does not create a parser and read the file")
    sub = lambda t: w.role(t)
    pt = fl.term(mk[0].dst)
    for i in inf:
        ctx.count("indexed_files")
        if arg_term(i, fl, 1, "metadata_parser") != pt:
            ctx.fail("worker:parser", "the file is indexed with another parser than the one whose records are returned", i.loc)
        path = arg_term(i, fl, 0, "loc")
        while path[0] == "call" and callname(path) in ("Path", "str") and path[3]:
            path = path[3][0]
        path = sub(path)
        while path[0] == "call" and callname(path) in ("Path", "str") and path[3]:
            path = path[3][0]
        w.path = path
        if not is_file(path):
            ctx.fail("worker:file", f"the worker reads {show(path)[:60]} instead of the file of its task", i.loc)
    if not same(mk[0].args[0] and fl.term(mk[0].args[0]) or arg_term(mk[0], fl, 0, "parser_name"), fl.term(mk[0].args[0])):
        raise AnchorError("parser creation not recognised")
    ids = {i.id for i in inf}
    rets = root_returns(fl)
    for r in rets:
        t = fl.term(r.args[0])
        if t[0] != "tuple" or len(t) != 3:
            raise AnchorError("result of an index worker not recognised")
        ctx.count("worker_results")
        fid = sub(t[1])
        if not is_file_id(fid):
            ctx.fail("worker:file-id", f"the records of a file are returned under {show(fid)[:60]} instead of the file's id", r.loc)
        if t[2] != ("attr", pt, "metadata") and not (t[2][0] == "call" and callname(t[2]) in ("list",) and t[2][3] == (("attr", pt, "metadata"),)):
            ctx.fail("worker:records", f"the worker returns {show(t[2])[:60]} instead of the parser's records", r.loc)

    def step(i, st):
        return [min(st + 1, 2)] if i.id in ids else [st]

    ex = Explorer(fl, step)
    for k in ex.run(0):
        i = fl.g.ins[k[0]]
        if i is fl.g.exit and k[2] != 1:
            ctx.fail("worker:swallowed", f"a file's records are returned although its indexing {'failed or did not happen' if not k[2] else 'ran twice'}", inf[0].loc)
    for k in w.elems:
        ctx.sample("task: " + show(k)[:70])


def is_file(t):
    return t[0] == "elem" and contains(t, lambda x: is_call_term(x, "iterate_files") or x == ("param", "files"))


def is_file_id(t):
    return t[0] == "elem" and is_call_term(t[1], "_insert_files_into_table")


# ------------------------------------------------------------------ distribution of files
def tasks(ctx):
    w = Worker(ctx)
    fl = w.rf
    g = fl.g
    # file ids and files of a task belong together
    fid = [e for e in w.elems if is_file_id(e)]
    if len(fid) != 1:
        raise AnchorError("file id of a task not recognised")
    given = list(fid[0][1][3]) + [v for k, v in fid[0][1][4] or ()]
    files = next((x for x in given if any(mkelem(x) == e for e in w.elems for e in subterms(e))), given[-1] if given else None)
    if files is None:
        raise AnchorError("files given ids not recognised")
    ctx.count("tasks")
    fe = [x for e in w.elems for x in subterms(e) if is_file(x) and not is_call_term(x[1], "_insert_files_into_table")]
    fe = [x for x in fe if x[0] == "elem"]
    if not fe:
        raise AnchorError("file of a task not recognised")
    if mkelem(files) != fe[0]:
        ctx.fail("pairing", "file ids and files of the tasks come from different lists", w.maps[0].loc)
    zips = [i for i in g.calls() if i.fn == "zip"]
    for z in zips:
        for a in z.args:
            t = fl.term(a)
            if t[0] == "call" and callname(t) in ("reversed", "sorted") or t[0] == "item":
                ctx.fail("pairing", "file ids and files of the tasks are paired in different order", z.loc)
    # filters in the comprehension of the tasks drop files
    comp_filter(ctx, fl, w)
    # every task is handed out once
    for mp in w.maps:
        ctx.count("distributions")
        t = fl.term(mp.args[1])
        if t[0] == "item" and t[2][0] == "slice":
            lo, hi, stp = t[2][1], t[2][2], t[2][3] if len(t[2]) > 3 else ("const", None)
            rng = lo[1] if lo[0] == "elem" else None
            if rng is None or rng[0] != "call" or rng[1] != "range":
                raise AnchorError("portions of tasks not recognised")
            a = rng[3]
            start, stop, size = (("const", 0), a[0], ("const", 1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else ("const", 1))
            if start != ("const", 0):
                ctx.fail("portions", f"the first files are not indexed: portions start at {show(start)[:30]}", mp.loc)
            if stop != ("call", "len", None, (w.base,), (), stop[5] if len(stop) > 5 else None):
                ctx.fail("portions", f"portions end at {show(stop)[:50]} instead of the number of tasks", mp.loc)
            if not (hi[0] == "bin" and hi[1] == "Add" and ((hi[2] == lo and strip_ids(hi[3]) == strip_ids(size)) or (hi[3] == lo and strip_ids(hi[2]) == strip_ids(size)))) and hi != ("const", None):
                ctx.fail("portions", f"portions of {show(hi)[:60]} tasks do not fit the step {show(size)[:30]}: files are indexed twice or not at all", mp.loc)
            if stp != ("const", None):
                ctx.fail("portions", "portions skip tasks", mp.loc)
        elif t != w.base:
            raise AnchorError("tasks handed to the workers not recognised")
        if last(mp.fn) == "map_async":
            raise AnchorError("asynchronous distribution not modelled")
    # results are inserted once, for the dataset being registered
    ins = [i for i in g.calls() if last(i.fn) == "_insert_samples_with_metadata"]
    if not ins:
        raise AnchorError("insertion of indexed samples not found")
    for i in ins:
        d, r, p = arg_term(i, fl, 0, "dataset_id"), arg_term(i, fl, 1, "results"), arg_term(i, fl, 2, "properties")
        ctx.count("insertions")
        if r is None or not contains(r, lambda x: any(x == fl.term(m.dst) for m in w.maps)):
            raise AnchorError("inserted results not recognised")
        if r[0] == "item" and r[2][0] == "slice" or r[0] == "comp" or is_call_term(r, "filter"):
            ctx.fail("results", "not all results of the index workers are inserted", i.loc)
        if not (d == w.elems[0] or d == ("param", "dataset_id") or is_call_term(d, "_insert_dataset_into_table")):
            ctx.fail("results", f"samples are inserted for dataset {show(d)[:40]}", i.loc)
        if not contains(p, lambda x: is_call_term(x, "get_properties")):
            raise AnchorError("properties of inserted samples not recognised")
    mids, iids = {i.id for i in w.maps}, {i.id for i in ins}

    def step(i, st):
        if i.id in mids:
            if st == 1:
                ctx.fail("results", "results of the index workers are dropped: the next files are indexed before they were inserted", i.loc)
            return [1]
        if i.id in iids:
            return [0 if st == 1 else 2]
        return [st]

    ex = Explorer(fl, step, follow_exc=True)
    for k in ex.run(0):
        i = fl.g.ins[k[0]]
        if i is g.exit and k[2] == 1:
            ctx.fail("results", "registration returns normally without having inserted the results of the index workers", ins[0].loc)
        if k[2] == 2 and i.id in iids:
            ctx.fail("results", "results of the index workers are inserted twice", i.loc)


def comp_filter(ctx, fl, w):
    if w.base[0] != "comp":
        return
    for i in fl.g.of("elem"):
        if fl.term(i.args[0]) == w.base or fl.term(i.args[1]) == w.base[2]:
            L = inner_loop(fl, i)
            if L is None:
                continue
            head = L[0]

            def step(x, st):
                return [1] if x is i and st is not None else [st]

            def edge(x, s, lab, st):
                if x is head:
                    return 0 if lab == "next" else None
                return st

            ex = Explorer(fl, step, edge=edge, follow_exc=False)
            for k in ex.run(None):
                if k[0] == head.id and k[2] == 0:
                    ctx.fail("filtered", "not every file of the dataset becomes a task", i.loc)


# ------------------------------------------------------------------ columns
def columns(ctx):
    c = ctx.proj.cls("MixteraDataCollection")
    m = ctx.proj.find_method(c, "_insert_samples_with_metadata")
    if m is None:
        raise AnchorError("_insert_samples_with_metadata not found")
    fl = ctx.flow(m, None, c)
    g = fl.g
    did, res, props = [("param", p) for p in m.params()[1:4]]
    rec = None
    for h in g.of("next"):
        s = fl.term(h.args[0])[-1]
        if s == ("item", ("elem", res), ("const", 1)):
            rec, head = ("elem", s), h
    if rec is None:
        raise AnchorError("iteration over the records of a file not found")
    body = reach([s for s, l in head.succ if l == "next"], stop=lambda x: x is head, exc=False)
    apps = []
    for i in body:
        if i.op == "call" and last(i.fn) in ("append", "extend", "insert") and i.recv is not None:
            r = fl.term(i.recv)
            if r[0] == "item":
                apps.append((i, r[1], r[2], fl.term(i.args[-1])))
    if not apps:
        raise AnchorError("collection of column values not recognised")
    D = apps[0][1]
    want = {"dataset_id": lambda v: v == did, "file_id": lambda v: v == ("item", ("elem", res), ("const", 0)), "sample_id": lambda v: v in (("item", rec, ("const", "sample_id")),) or (is_call_term(v, "get") and v[2] == rec and v[3][0] == ("const", "sample_id"))}
    fixed = {}
    keyed = []
    for i, d, k, v in apps:
        ctx.count("column_values")
        if last(i.fn) != "append":
            raise AnchorError("column values not appended")
        if k[0] == "const":
            fixed.setdefault(k[1], []).append(i)
            if k[1] in want and not want[k[1]](v):
                ctx.fail(f"column:{k[1]}", f"column {k[1]} gets {show(v)[:60]}", i.loc)
        else:
            keyed.append((i, k, v))
            src = v[3][0] if is_call_term(v, "get") and v[2] == rec and v[3] else v[2] if v[0] == "item" and v[1] == rec else None
            if src is None:
                ctx.fail("column:value", f"a property column gets {show(v)[:60]} instead of the sample's value", i.loc)
            elif src != k:
                ctx.fail("column:key", f"the column of {show(k)[:40]} gets the value of {show(src)[:40]}", i.loc)
            elif is_call_term(v, "get") and len(v[3]) > 1 and v[3][1] != ("const", None):
                ctx.fail("column:default", f"a missing value is stored as {show(v[3][1])[:40]}", i.loc)
    for n in want:
        if n not in fixed:
            raise AnchorError(f"values of column {n} not collected")
    # one value per column and sample
    for n, iss in fixed.items():
        ids = {i.id for i in iss}
        once(ctx, fl, head, ids, f"column:{n}", f"column {n} gets {{}} value for a sample, so the columns no longer line up", iss[0])
    for i, k, v in keyed:
        L = inner_loop(fl, i)
        if L is None or L[0] is head:
            raise AnchorError("property columns not collected in a loop")
        once(ctx, fl, L[0], {i.id}, "column:property", "a property column gets {} value for a sample, so the columns no longer line up", i)
        src = fl.term(L[0].args[0])[-1]
        if not contains(src, lambda x: x == props or x == ("elem", props)):
            raise AnchorError("property columns not taken from the declared properties")
        once(ctx, fl, head, {L[0].id}, "column:property", "the property columns are filled {} time for a sample", i, cap=False)
    if not keyed:
        ctx.fail("column:property", "property values are not collected", head.loc)
    # every file of the results and every record of a file is visited
    outer = [h for h in g.of("next") if fl.term(h.args[0])[-1] == res]
    if not outer:
        raise AnchorError("iteration over the results not found")
    once(ctx, fl, outer[0], {head.id}, "file-skipped", "the records of a file are collected {} time", head, cap=False)
    # order of arrays = order of names
    table(ctx, fl, D)
    inserted(ctx, fl, res)


def once(ctx, fl, head, ids, key, msg, ins, cap=True):
    seen_next = {}

    def step(i, st):
        if i.id in ids and st is not None:
            return [min(st + 1, 2)] if cap else [1]
        return [st]

    def edge(i, s, lab, st):
        if i is head:
            return 0 if lab == "next" else None
        if lab in ("exc", "exc-base") and no_raise(i):
            return False
        return st

    ex = Explorer(fl, step, edge=edge)
    for k in ex.run(None):
        i = fl.g.ins[k[0]]
        if i is head and k[2] is not None and k[2] != 1:
            ctx.fail(key, msg.format("no" if not k[2] else "more than one"), ins.loc)
        if i is fl.g.exit and k[2] is not None:
            ctx.fail(key, "the collection of samples ends early without failing", ins.loc)


def table(ctx, fl, D):
    g = fl.g
    for i in g.calls():
        if last(i.fn) != "from_arrays":
            continue
        ctx.count("tables")
        arrays, names = arg_term(i, fl, 0, "arrays"), arg_term(i, fl, 1, "names")
        if arrays is None or names is None:
            raise AnchorError("table construction not recognised")
        srcs = []
        if arrays[0] == "comp":
            srcs = [(None, arrays[2])]
        for a, e in fl.appended(arrays):
            srcs.append((a, e))
        if not srcs:
            raise AnchorError("arrays of the table not recognised")
        cols = mkelem(names)
        aids = {a.id for a, _ in srcs if a is not None}
        for a, e in srcs:
            used = [x for x in subterms(e) if x[0] == "item" and x[1] == D]
            if not used:
                raise AnchorError("values of a table column not recognised")
            for x in used:
                if x[2] != cols:
                    ctx.fail("column:order", f"the values of column {show(x[2])[:50]} are stored under the names {show(names)[:50]}", i.loc)
        if aids:
            heads = [h for h in g.of("next") if mkelem(fl.term(h.args[0])[-1]) == cols and any(inner_loop(fl, a)[0] is h for a, _ in srcs if a is not None)]
            if not heads:
                raise AnchorError("loop over the table columns not found")
            once(ctx, fl, heads[0], aids, "column:arrays", "a column is added to the table {} time", srcs[0][0])


def inserted(ctx, fl, res):
    g = fl.g
    ids = set()
    for i in g.calls():
        for s in statements(fl, i):
            if norm(s.text).upper().startswith("INSERT INTO SAMPLES"):
                ids.add(i.id)
                ctx.count("insert_statements")
                mm = re_cols(s.text)
                if mm and mm[0] != mm[1]:
                    ctx.fail("column:order", f"columns ({mm[0]}) are filled from ({mm[1]})", i.loc)
    if not ids:
        raise AnchorError("insertion into samples not found")

    def hook(d):
        if d.dst is not None and fl.term(d.dst) == res and d.op in ("load", "param"):
            return "truthy"
        return None

    def step(i, st):
        return [1] if i.id in ids else [st]

    ex = Explorer(fl, step, hook=hook)
    for k in ex.run(0):
        i = fl.g.ins[k[0]]
        if i is g.exit and not k[2]:
            # the early return for empty results is fine
            path = ex.path((i, k[1], k[2]))
            emp = [b for b in path if b.op == "branch" and contains(fl.term(b.args[0]), lambda x: x == res)]
            if not emp:
                ctx.fail("not-inserted", "samples were collected but the function returns without inserting them", g.ins[list(ids)[0]].loc)


def re_cols(s):
    import re
    s = norm(s)
    m = re.search(r"\(([^)]*)\)\s*SELECT\s+(.*?)\s+FROM", s, re.I)
    return (m.group(1).strip(), m.group(2).strip()) if m else None
