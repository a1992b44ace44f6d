"""C24: all variants implement the same, complete interface.

 - every concrete class below an abstract base of the project overrides everything the base leaves open, in the same kind and with a signature every
   call to the base's operation fits; for the two clients names and defaults are equal too;
 - a client operation hands each of its arguments on under its own name;
 - enumerations have distinct values, every dataset class has its own type, from_type_id gives back the class of a type or refuses;
 - parser registry and the other factories resolve every name to one complete class, with the arguments in their places."""
import ast

from .linear import *
from .cases import Cases, U, RAISE, NONE, enum_values
from ..project import walk_scope, dotted
from ..wire import bound_args

CLIENT = "MixteraClient"


def run(ctx):
    ctx.rule("Class hierarchy: for every project class with an abstract base, each operation the base leaves open (abstract, always raising, or "
             "dispatching to itself) is overridden, with the same kind (static/class/property/async), the same positional order, defaults for any extra "
             "parameter and, if called by keyword anywhere or a client operation, the same names (clients: and equal defaults). Client operations: every "
             "parameter reaches the parameter of the same name of what they call (or is used), and results are passed on. Constant propagation over "
             "from_type_id, from_mode, from_path, the client constructor and the parser factory, one enum member/name/argument shape at a time, gives exactly "
             "the class of that case or a refusal. Enum values, dataset types and registry keys are distinct.")
    fam = families(ctx)
    ctx.part(complete, ctx, fam)
    ctx.part(signatures, ctx, fam)
    ctx.part(bind, ctx, fam)
    ctx.part(forwarding, ctx, fam)
    ctx.part(enums, ctx)
    ctx.part(dataset_types, ctx)
    ctx.part(type_roundtrip, ctx)
    ctx.part(registration, ctx)
    ctx.part(registry, ctx)
    ctx.part(factory, ctx)
    ctx.part(modes, ctx)
    ctx.part(filesystems, ctx)
    ctx.part(clients, ctx)
    ctx.part(reading_modes, ctx)


# ------------------------------------------------------------------ class hierarchy
def families(ctx):
    """abstract base -> concrete classes below it."""
    p = ctx.proj
    out = []
    for cs in p.classes.values():
        for c in cs:
            if ".tests" in c.module.name:
                continue
            direct = any((dotted(b) or "").split(".")[-1] in ("ABC", "ABCMeta") for b in c.base_exprs) or any(
                (dotted(k.value) or "").split(".")[-1] == "ABCMeta" for k in c.node.keywords)
            if not direct and not any(m.is_abstract for m in c.methods.values()):
                continue
            subs = [s for s in p.subclasses(c) if ".tests" not in s.module.name]
            if subs:
                out.append((c, subs))
    if not out:
        raise AnchorError("no abstract base class with subclasses found")
    return out


def selectable(ctx, c):
    """c can be handed out: everything except dataset classes nothing refers to."""
    p = ctx.proj
    if not any(k.name == "Dataset" for k in p.mro(c)):
        return True
    memo = ctx.__dict__.setdefault("_c24_sel", {})
    if not memo:
        for m in p.modules.values():
            if ".tests" in m.name:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    memo.setdefault(n.id, set()).add(m.name)
                elif isinstance(n, ast.ImportFrom):
                    for al in n.names:
                        memo.setdefault(al.name, set()).add(m.name)
        memo[""] = set()
    return bool(memo.get(c.name, set()) - {c.module.name})


def open_op(ctx, f):
    """The base's method cannot be used as it is: abstract, always raises, or dispatches to the operation of the same name."""
    if f.is_abstract:
        return True
    memo = ctx.__dict__.setdefault("_c24_open", {})
    if f.qual not in memo:
        memo[f.qual] = False
        if not f.name.startswith("__"):
            fl = ctx.flow(f, lambda *a: False, key="own")
            exits = set(reach([fl.g.entry], exc=False))
            memo[f.qual] = not (fl.g.exit in exits or fl.g.exit.id in exits) or any(
                i.op == "call" and last(i.fn) == f.name and i.recv is not None and is_dispatch(fl.term(i.recv), f) for i in fl.g.calls())
    return memo[f.qual]


def is_dispatch(t, f):
    return t[0] == "call" and (callname(t) or "").startswith("from_")


def obligations(ctx, base):
    ops = {}
    for k in reversed(ctx.proj.mro(base)):
        for n, f in k.methods.items():
            if open_op(ctx, f):
                ops[n] = f
            else:
                ops.pop(n, None)
    return ops


def is_leaf(ctx, c):
    return not [s for s in ctx.proj.subclasses(c) if ".tests" not in s.module.name]


def concrete(ctx, base, subs):
    out = []
    for c in subs:
        own_abstract = any(f.is_abstract for f in c.methods.values()) or any((dotted(b) or "").split(".")[-1] == "ABC" for b in c.base_exprs)
        if is_leaf(ctx, c) or instantiated(ctx, c):
            if own_abstract and not is_leaf(ctx, c):
                continue
            out.append(c)
    return out


def instantiated(ctx, c):
    memo = ctx.__dict__.setdefault("_c24_inst", {})
    if not memo:
        memo[""] = 0
        for m in ctx.proj.modules.values():
            if ".tests" in m.name:
                continue
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call):
                    d = dotted(n.func)
                    if d:
                        memo[d.split(".")[-1]] = memo.get(d.split(".")[-1], 0) + 1
    return memo.get(c.name, 0) > 0


def complete(ctx, fam):
    p = ctx.proj
    n = 0
    for base, subs in fam:
        ops = obligations(ctx, base)
        for c in concrete(ctx, base, subs):
            ctx.count("variants")
            for name, f in sorted(ops.items()):
                n += 1
                impl = p.find_method(c, name)
                if impl is None:
                    if name in c.class_attrs:
                        continue
                    ctx.fail(f"missing:{c.name}.{name}", f"{c.name} has no {name}", c.node and f"{c.module.rel}:{c.node.lineno} ({c.name})")
                    continue
                if impl.cls is f.cls or impl.is_abstract or impl.cls is not c and open_op(ctx, impl) and not selfmade(ctx, c, impl):
                    ctx.fail(f"missing:{c.name}.{name}", f"{c.name} does not implement {base.name}.{name}: {'instantiating it fails' if impl.is_abstract else 'calling it does not work'}",
                             f"{c.module.rel}:{c.node.lineno} ({c.name})")
                    continue
                if selectable(ctx, c):
                    fl = ctx.flow(impl, lambda *a: False, key="own")
                    ex = set(reach([fl.g.entry], exc=False))
                    if not (fl.g.exit in ex or fl.g.exit.id in ex) and not refuses(fl):
                        continue
                    if not (fl.g.exit in ex or fl.g.exit.id in ex):
                        ctx.fail(f"unimplemented:{c.name}.{name}", f"{c.name}.{name} always raises: {c.name} can be selected but does not provide the operation", impl.loc)
    ctx.count("operations x variants", n)
    ctx.floor("operations x variants", 60)


def selfmade(ctx, c, impl):
    return False


def refuses(fl):
    """The function ends in a raise of NotImplementedError."""
    return any(i.op == "raise" and (i.data or "").split(".")[-1] in ("NotImplementedError",) for i in fl.g.live)


# ------------------------------------------------------------------ signatures
def kind(f):
    return ("static" if f.is_static else "class" if f.is_classmethod else "property" if f.is_property else "method") + (" async" if f.is_async else "")


def sig(f):
    """(positional names, keyword-only names, *args, **kwargs, defaults) without self/cls."""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if not f.is_static:
        pos = pos[1:]
    return pos, [x.arg for x in a.kwonlyargs], a.vararg is not None, a.kwarg is not None, f.defaults()


def value(f, e):
    try:
        return ("lit", ast.literal_eval(e))
    except (ValueError, TypeError, SyntaxError):
        return ("src", ast.unparse(e))


def keyword_use(ctx):
    """operation name -> parameter names used as keywords in calls anywhere in the project."""
    memo = ctx.__dict__.setdefault("_c24_kw", None)
    if memo is None:
        memo = {}
        for m in ctx.proj.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                    for k in n.keywords:
                        if k.arg:
                            memo.setdefault(n.func.attr, set()).add(k.arg)
        ctx.__dict__["_c24_kw"] = memo
    return memo


def signatures(ctx, fam):
    p = ctx.proj
    kws = keyword_use(ctx)
    n = 0
    for base, subs in fam:
        client = any(k.name == CLIENT for k in p.mro(base))
        for c in subs:
            for name, f in c.methods.items():
                b = None
                for k in p.mro(c)[1:]:
                    if name in k.methods:
                        b = k.methods[name]
                if b is None or name.startswith("__"):
                    continue
                if b.cls not in p.mro(base) and b.cls is not base:
                    continue
                n += 1
                ctx.count("overrides")
                who = f"{c.name}.{name}"
                if kind(f) != kind(b) and not ({kind(f), kind(b)} <= {"static", "class"}):
                    ctx.fail(f"kind:{who}", f"{who} is a {kind(f)} operation, {b.cls.name}.{name} a {kind(b)} one: callers of the interface use it wrongly", f.loc)
                    continue
                pb, kb, vb, xb, db = sig(b)
                pf, kf, vf, xf, df = sig(f)
                if len(pf) < len(pb) and not vf:
                    ctx.fail(f"params:{who}", f"{who} takes {len(pf)} parameters ({', '.join(pf)}), {b.cls.name}.{name} {len(pb)} ({', '.join(pb)})", f.loc)
                    continue
                named = set(pb) if client else kws.get(name, set()) & set(pb)
                for k, q in enumerate(pb):
                    if k < len(pf) and pf[k] != q:
                        if q in pf or q in kf:
                            ctx.fail(f"order:{who}:{q}", f"{who} takes `{q}` at another position than {b.cls.name}.{name} does ({', '.join(pf)} / {', '.join(pb)})", f.loc)
                            break
                        if q in named and not xf:
                            ctx.fail(f"name:{who}:{q}", f"{who} calls `{q}` of {b.cls.name}.{name} `{pf[k]}`: it does not accept it by that name", f.loc)
                            break
                for q in pf[len(pb):]:
                    if q not in df:
                        ctx.fail(f"extra:{who}:{q}", f"{who} requires `{q}`, which {b.cls.name}.{name} does not have", f.loc)
                    elif client and not q.startswith("_"):
                        ctx.fail(f"extra:{who}:{q}", f"{who} has a parameter `{q}` that the client interface and its other variants do not have", f.loc)
                for q in kf:
                    if q not in kb and q not in pb and q not in df:
                        ctx.fail(f"extra:{who}:{q}", f"{who} requires `{q}`, which {b.cls.name}.{name} does not have", f.loc)
                for q in kb:
                    if q not in kf and q not in pf and not xf:
                        ctx.fail(f"params:{who}:{q}", f"{who} does not accept `{q}` of {b.cls.name}.{name}", f.loc)
                for q, e in db.items():
                    if q not in pf and q not in kf:
                        continue
                    if q not in df:
                        ctx.fail(f"default:{who}:{q}", f"`{q}` has a default in {b.cls.name}.{name} but is required by {who}", f.loc)
                    elif client and value(b, e) != value(f, df[q]):
                        ctx.fail(f"default:{who}:{q}", f"default of `{q}` is {ast.unparse(df[q])} in {who} and {ast.unparse(e)} in {b.cls.name}.{name}", f.loc)
                if client:
                    for q in df:
                        if q in pb and q not in db:
                            ctx.fail(f"default:{who}:{q}", f"`{q}` has a default in {who} but is required by {b.cls.name}.{name}", f.loc)
    ctx.floor("overrides", 60)


def bind(ctx, fam):
    """Every resolved call of an operation of an interface fits its signature."""
    p = ctx.proj
    owners = {c.qual for base, subs in fam for c in [base] + subs}
    for f in list(p.funcs.values()):
        if ".tests" in f.module.name:
            continue
        cls = f.cls
        for n in walk_scope(f.node):
            if not isinstance(n, ast.Call):
                continue
            try:
                r = p.resolve_callee(n, f, f.module, cls)
            except AnchorError:
                continue
            if not r or r[0] != "func" or r[1].cls is None or r[1].cls.qual not in owners or r[1].parent is not None:
                continue
            if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                continue
            tgt = r[1]
            if tgt.is_property or tgt.name == "__new__":
                continue
            pos, kwo, va, xa, df = sig(tgt)
            if r[3] == "static" and not tgt.is_static and not tgt.is_classmethod:
                pos = [x.arg for x in tgt.node.args.posonlyargs + tgt.node.args.args]
            ctx.count("calls of operations")
            loc = f"{f.module.rel}:{n.lineno} ({f.qual.split(f.module.name + '.')[-1]})"
            key = f"{f.qual.split('.')[-1]}->{tgt.cls.name}.{tgt.name}"
            if len(n.args) > len(pos) and not va:
                ctx.fail(f"call:{key}", f"call of {tgt.cls.name}.{tgt.name} with {len(n.args)} arguments: it takes {len(pos)}", loc)
            given = set(pos[:len(n.args)])
            for k in n.keywords:
                if k.arg in given:
                    ctx.fail(f"call:{key}:{k.arg}", f"call of {tgt.cls.name}.{tgt.name} gives `{k.arg}` twice", loc)
                elif k.arg not in pos and k.arg not in kwo and not xa:
                    ctx.fail(f"call:{key}:{k.arg}", f"{tgt.cls.name}.{tgt.name} has no parameter `{k.arg}`", loc)
                given.add(k.arg)
            missing = [q for q in pos + kwo if q not in given and q not in df]
            if missing:
                ctx.fail(f"call:{key}:{','.join(missing)}", f"call of {tgt.cls.name}.{tgt.name} does not give {', '.join(missing)}", loc)
    ctx.floor("calls of operations", 30)


# ------------------------------------------------------------------ forwarding
def forwarding(ctx, fam):
    p = ctx.proj
    base = p.cls(CLIENT)
    n = 0
    for c in [s for b, subs in fam if b is base for s in subs]:
        for name, bf in obligations(ctx, base).items():
            f = c.methods.get(name)
            if f is None:
                continue
            fl = ctx.flow(f, ctx.local_policy(f, c), selfcls=c)
            pos = sig(f)[0] + sig(f)[1]
            used = {}
            for i in fl.g.live:
                if i.op in ("call", "setitem", "setattr", "branch", "cmp", "yield", "return", "item", "attr"):
                    for t in list(i.args) + list((i.kw or {}).values()) + ([i.recv] if i.recv is not None else []):
                        if t is None:
                            continue
                        for x in subterms(fl.term(t)):
                            if x[0] == "param" and x[1] in pos and not is_log(i):
                                used.setdefault(x[1], []).append(i)
            sinks = [i for i in fl.g.calls() if backend(fl, i)]
            for q in pos:
                n += 1
                ctx.count("forwarded parameters")
                if q not in used and not fixed_by_server(ctx, name, q, c):
                    ctx.fail(f"unused:{c.name}.{name}:{q}", f"{c.name}.{name} ignores its parameter `{q}`", f.loc)
            for i in sinks:
                if not (i.target is not None and hasattr(i.target, "params")):
                    continue
                ba = bound_args(i)
                tp = sig(i.target)[0] + sig(i.target)[1]
                for q in tp:
                    if q not in pos:
                        continue
                    if q not in ba:
                        if i.star or "**" in (i.kw or {}):
                            continue
                        if fixed_by_server(ctx, name, q, c):
                            continue
                        ctx.fail(f"dropped:{c.name}.{name}:{q}", f"{c.name}.{name} does not hand its parameter `{q}` to {i.target.cls.name + '.' if i.target.cls else ''}{i.target.name}", i.loc)
                        continue
                    t = fl.term(ba[q])
                    ps = {x[1] for x in subterms(t) if x[0] == "param" and x[1] in pos}
                    if q not in ps:
                        ctx.fail(f"mixed:{c.name}.{name}:{q}", f"{c.name}.{name} gives {i.target.name} {show(t)[:60]} as its `{q}`", i.loc)
            # every result the interface promises is handed on
            ann = bf.node.returns
            if ann is not None and not f.is_gen and not (isinstance(ann, ast.Constant) and ann.value is None):
                for r in fl.g.of("return"):
                    if r.frame is not fl.g.frames[0]:
                        continue
                    t = fl.term(r.args[0]) if r.args else ("const", None)
                    opt = "None" in ast.unparse(ann)
                    if t == ("const", None) and not opt:
                        ctx.fail(f"result:{c.name}.{name}", f"{c.name}.{name} returns nothing where {CLIENT}.{name} returns {ast.unparse(ann)}", r.loc)
    ctx.floor("forwarded parameters", 50)


def is_log(i):
    return i.op == "call" and (i.fn or "").split(".")[0] in ("logger", "loguru", "logging", "print")


def backend(fl, i):
    """A call on the component behind the client (a field of it, or something obtained from one)."""
    if is_log(i) or i.recv is None:
        return False
    t = fl.term(i.recv)
    return any(x[0] == "attr" and x[1] == ("self",) for x in subterms(t)) and i.target is not None and hasattr(i.target, "params")


def fixed_by_server(ctx, name, q, c):
    """The remote client leaves q to the server, which always gives a constant for it."""
    if c.name != "ServerStub":
        return False
    vals = []
    for f in ctx.proj.funcs.values():
        if ".server" not in f.module.name or ".tests" in f.module.name or ".client" in f.module.name:
            continue
        for n in walk_scope(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == name:
                v = [k.value for k in n.keywords if k.arg == q]
                base = sig(ctx.proj.method(CLIENT, name))[0]
                if not v and q in base and base.index(q) < len(n.args):
                    v = [n.args[base.index(q)]]
                vals.append(bool(v) and isinstance(v[0], ast.Constant))
    return bool(vals) and all(vals)


# ------------------------------------------------------------------ identifiers
def enums(ctx):
    p = ctx.proj
    for cs in p.classes.values():
        for c in cs:
            if ".tests" in c.module.name or not p.is_enum(c):
                continue
            ctx.count("enumerations")
            seen = {}
            for n, v in enum_values(p, c).items():
                ctx.count("enum members")
                if v is None:
                    continue
                if v in seen:
                    ctx.fail(f"enum:{c.name}.{n}", f"{c.name}.{n} and {c.name}.{seen[v]} have the same value {v!r}: one cannot be told from the other", f"{c.module.rel}:{c.node.lineno} ({c.name})")
                seen[v] = n
    ctx.floor("enumerations", 3)


def dtype_of(ctx, c):
    """DatasetType member the class attribute `type` (own or inherited) names."""
    for k in ctx.proj.mro(c):
        if "type" in k.class_attrs:
            v = k.class_attrs["type"][0]
            d = dotted(v) if v is not None else None
            r = ctx.proj.resolve_dotted(k.module, d) if d else None
            if r and r[0] == "classattr":
                return r[2]
            if isinstance(v, ast.Call) and len(v.args) == 1:
                try:
                    x = ast.literal_eval(v.args[0])
                except ValueError:
                    return None
                vals = enum_values(ctx.proj, ctx.proj.cls("DatasetType"))
                return next((n for n, y in vals.items() if y == x), None)
            if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Constant):
                return v.slice.value
            return None
    return None


def dataset_classes(ctx):
    return [c for c in ctx.proj.subclasses(ctx.proj.cls("Dataset"), strict=False) if ".tests" not in c.module.name]


def dataset_types(ctx):
    seen = {}
    for c in dataset_classes(ctx):
        t = dtype_of(ctx, c)
        ctx.count("dataset classes")
        if t is None:
            continue
        if t in seen:
            ctx.fail(f"type:{c.name}", f"{c.name} and {seen[t].name} have the same dataset type {t}: registered data of one is read with the other", f"{c.module.rel}:{c.node.lineno} ({c.name})")
        seen[t] = c
    ctx.floor("dataset classes", 4)
    return seen


def type_roundtrip(ctx):
    p = ctx.proj
    f = p.method("Dataset", "from_type_id")
    fl = ctx.flow(f, ctx.local_policy(f, p.cls("Dataset")))
    e = p.cls("DatasetType")
    vals = enum_values(p, e)
    by = {}
    for c in dataset_classes(ctx):
        by.setdefault(dtype_of(ctx, c), []).append(c)
    q = sig(f)[0][0]
    loc = f.loc
    for n, v in vals.items():
        if v is None:
            raise AnchorError(f"value of DatasetType.{n} unknown")
        for given in (v, ("enum", "DatasetType", n)):
            ctx.count("type ids x forms")
            k = Cases(ctx, fl, {q: given})
            rets, raises = k.run()
            want = {c.name for c in by.get(n, [])}
            got = {r[1] for r in rets}
            if U in got:
                raise AnchorError(f"cannot decide what from_type_id returns for {n}")
            for g in got:
                if not (isinstance(g, tuple) and g[0] == "cls" and g[1] in want):
                    ctx.fail(f"roundtrip:{n}", f"from_type_id({n}) returns {g[1] if isinstance(g, tuple) and len(g) > 1 else g}, whose type is not {n}", next(r[0].loc for r in rets if r[1] == g))
            if not got and any(selectable(ctx, c) for c in by.get(n, [])):
                ctx.fail(f"roundtrip:{n}", f"from_type_id({n}) refuses although {', '.join(sorted(want))} has this type: what is registered with it cannot be read", loc)
    bad = max(v for v in vals.values() if isinstance(v, int)) + 7
    rets, _ = Cases(ctx, fl, {q: bad}).run()
    if rets:
        ctx.fail("roundtrip:invalid", f"from_type_id of an id no type has returns {rets[0][1]!r} instead of refusing", rets[0][0].loc)
    ctx.floor("type ids x forms", 8)


def registration(ctx):
    """Data of the abstract type cannot be registered; what is stored is the id of the registered class's type."""
    p = ctx.proj
    c = p.cls("MixteraDataCollection")
    f = p.method(c, "register_dataset")
    fl = ctx.flow(f, ctx.local_policy(f, c), selfcls=c)
    q = "dtype"
    if q not in sig(f)[0]:
        raise AnchorError("register_dataset has no dtype parameter")
    n = 0
    for i in fl.g.calls():
        for t in list(i.args) + list((i.kw or {}).values()):
            if t is None or is_log(i):
                continue
            for x in subterms(fl.term(t)):
                if x[0] == "attr" and x[2] in ("value", "name") and x[1] == ("attr", ("param", q), "type"):
                    n += 1
                    ctx.count("stored type ids")
    gen = enum_values(p, p.cls("DatasetType"))
    vals = gen
    writes = [i for i in fl.g.calls() if last(i.fn) in ("execute", "executemany", "_insert_dataset_into_table", "sql", "append") and any(
        x == ("param", q) for t in list(i.args) + list((i.kw or {}).values()) if t is not None for x in subterms(fl.term(t)))]
    for n_, v in vals.items():
        if v != 0:
            continue
        k = Cases(ctx, fl, {q: ("obj", "type")}, attrs=lambda s, i, b, n_=n_: ("enum", "DatasetType", n_) if i.data == "type" and b == ("obj", "type") else None, stop=[w.id for w in writes])
        k.run()
        reached = {key[0] for key in k.visited}
        for w in writes:
            ctx.count("guarded registrations")
            if w.id in reached:
                ctx.fail("generic", f"a dataset of type {n_} can be registered although no class can read it", w.loc)
    if not writes:
        raise AnchorError("register_dataset writes no type id")


# ------------------------------------------------------------------ parsers
def norm(s):
    return "".join(ch for ch in s.lower() if ch.isalnum())


def registry(ctx):
    p = ctx.proj
    c = p.cls("MetadataParserFactory")
    base = p.cls("MetadataParser")
    init = p.method(c, "__init__")
    lits = []
    for n in ast.walk(c.node):
        if isinstance(n, ast.Dict) and len(n.keys) >= 2:
            lits.append(n)
    for n in c.module.tree.body:
        v = n.value if isinstance(n, (ast.Assign, ast.AnnAssign)) else None
        if isinstance(v, ast.Dict) and len(v.keys) >= 2:
            lits.append(v)
    got = []
    for d in lits:
        for k, v in zip(d.keys, d.values):
            r = p.resolve_dotted(c.module, dotted(v)) if dotted(v) else None
            if isinstance(k, ast.Constant) and r and r[0] == "class" and base in p.mro(r[1]):
                got.append((k.value, r[1], k.lineno))
    if not got:
        raise AnchorError("registry of built-in parsers not found")
    names, classes = {}, {}
    for n, k, line in got:
        ctx.count("registered parsers")
        loc = f"{c.module.rel}:{line} ({c.name})"
        if n in names:
            ctx.fail(f"dup:{n}", f"parser name {n} is listed twice: {names[n].name} can never be selected", loc)
        names[n] = k
        if k in classes.values() and k is not names.get(n + "?"):
            prev = next(x for x, y in classes.items() if y is k)
            if prev != n:
                ctx.fail(f"alias:{n}", f"parser names {prev} and {n} both select {k.name}", loc)
        classes[n] = k
    for n, k in names.items():
        own = norm(k.name).startswith(norm(n)[:max(3, len(norm(n)) - 1)])
        other = [x for x in set(names.values()) if x is not k and norm(x.name).startswith(norm(n))]
        if other and not own:
            ctx.fail(f"swap:{n}", f"parser name {n} selects {k.name}, not {other[0].name}", init.loc)
    for k in p.subclasses(base):
        if ".tests" in k.module.name or k.module is not c.module or not is_leaf(ctx, k):
            continue
        if k not in names.values():
            ctx.fail(f"unregistered:{k.name}", f"built-in parser {k.name} is not selectable by any name", f"{k.module.rel}:{k.node.lineno} ({k.name})")
    # construction: every parser takes (dataset_id, file_id)
    for k in set(names.values()):
        i = p.find_method(k, "__init__")
        if i is None:
            continue
        pos, kwo, va, xa, df = sig(i)
        req = [q for q in pos if q not in df]
        if (len(pos) < 2 and not va) or len(req) > 2 or any(q not in df for q in kwo) or (len(pos) >= 2 and pos[:2] == ["file_id", "dataset_id"]):
            ctx.fail(f"ctor:{k.name}", f"{k.name} cannot be created with (dataset_id, file_id): it takes ({', '.join(pos)})", i.loc)


def is_reg(fl, t):
    return t[0] == "attr" and t[1] == ("self",) and "regist" in t[2] or t[0] == "call" and callname(t) in ("list", "keys", "dict") and any(
        x[0] == "attr" and x[1] == ("self",) for x in subterms(t))


def factory(ctx):
    p = ctx.proj
    c = p.cls("MetadataParserFactory")

    def explore(f, params, present, name):
        """cases of `name in self._registry`; effects: registry writes."""
        fl = ctx.flow(f, ctx.local_policy(f, c), selfcls=c)
        NAME, OTHER = ("obj", "name"), ("obj", "other")
        REG = ("obj", "registry")

        def attrs(s, i, b):
            t = fl.term(i.dst)
            if is_reg(fl, t):
                return REG
            return None

        class K(Cases):
            def cmp(self, op, l, r):
                if op in ("In", "NotIn") and r == REG and l == NAME:
                    return present == (op == "In")
                if op in ("Is", "IsNot") and r is None and l in (("hit",), ("parser",)):
                    return op == "IsNot"
                return super().cmp(op, l, r)

            def item(self, b, k):
                if b == REG and k == NAME:
                    return ("hit",) if present else RAISE
                return super().item(b, k)

        def calls(s, i, st):
            d = dict(st)
            if i.recv is not None and d.get(i.recv) == REG:
                a = [d.get(t, U) for t in i.args]
                n = last(i.fn)
                if n == "get" and a and a[0] == NAME:
                    return ("hit",) if present else (a[1] if len(a) > 1 and a[1] is not None else NONE)
                if n in ("keys", "copy"):
                    return REG
                if n == "pop" and a and a[0] == NAME:
                    return ("hit",) if present else (a[1] if len(a) > 1 else RAISE)
                if n == "setdefault" and len(a) == 2 and a[0] == NAME:
                    return ("hit",) if present else a[1]
            if i.recv is None and i.fn in ("list", "set", "tuple") and i.args and d.get(i.args[0]) == REG:
                return REG
            return None

        def effects(s, i, st):
            d = dict(st)
            if i.op == "setitem" and d.get(i.args[0]) == REG:
                return ("set", d.get(i.args[1], U), d.get(i.args[2], U))
            if i.op == "delitem" and d.get(i.args[0]) == REG:
                return ("del", d.get(i.args[1], U))
            if i.op == "call" and i.recv is not None and d.get(i.recv) == REG:
                a = [d.get(t, U) for t in i.args]
                n = last(i.fn)
                if n == "pop":
                    return ("del", a[0] if a else U)
                if n in ("update", "clear", "popitem", "__setitem__"):
                    return ("other", n)
                if n == "setdefault" and not present and len(a) == 2:
                    return ("set", a[0], a[1])
            return None

        pv = {}
        for k, v in params.items():
            pv[k] = v
        pv[name] = NAME
        k = K(ctx, fl, pv, calls=calls, attrs=attrs, effects=effects)
        rets, raises = k.run()
        ctx.count("registry cases")
        return fl, rets, raises, NAME

    f = p.method(c, "add_parser")
    pos = sig(f)[0]
    if len(pos) < 3:
        raise AnchorError("add_parser has other parameters")
    n, cl, ow = pos[:3]
    for present in (False, True):
        for over in (False, True):
            fl, rets, raises, NAME = explore(f, {cl: ("parser",), ow: over}, present, n)
            case = f"a name that is {'taken' if present else 'free'}, overwrite={over}"
            for i, v, fx in rets:
                sets = [x for x in fx if x[0] == "set"]
                odd = [x for x in fx if x[0] != "set" or x[1] != NAME or x[2] != ("parser",)]
                if odd and any(U in (x[1:]) for x in odd):
                    raise AnchorError("add_parser: what is written is not known")
                if odd:
                    ctx.fail("add:other", f"add_parser of {case} changes something else than that entry", i.loc)
                ok = not present or over
                if bool(sets) != ok:
                    ctx.fail(f"add:{present}:{over}", f"add_parser of {case} {'replaces the parser registered before' if sets else 'does not register the parser'}", i.loc)
                if v is U:
                    raise AnchorError("add_parser: result not known")
                if v is not ok:
                    ctx.fail(f"add-result:{present}:{over}", f"add_parser of {case} returns {v}", i.loc)
            if not rets:
                ctx.fail(f"add:{present}:{over}", f"add_parser of {case} does not return", f.loc)
    f = p.method(c, "remove_parser", required=False)
    if f is not None:
        for present in (False, True):
            fl, rets, raises, NAME = explore(f, {}, present, sig(f)[0][0])
            for i, v, fx in rets:
                if any(x[0] != "del" or x[1] != NAME for x in fx) or bool(fx) != present and not any(x[0] == "del" for x in fx):
                    ctx.fail(f"remove:{present}", f"remove_parser of a {'registered' if present else 'free'} name {'leaves it registered' if not fx else 'changes another entry'}", i.loc)
            if not rets:
                ctx.fail(f"remove:{present}", "remove_parser does not return", f.loc)
    # creation
    f = p.method(c, "create_metadata_parser")
    pos = sig(f)[0]
    fl, rets, raises, NAME = explore(f, {}, False, pos[0])
    if rets:
        ctx.fail("create:missing", "create_metadata_parser of a name nothing is registered under returns instead of refusing", rets[0][0].loc)
    fl, rets, raises, NAME = explore(f, {}, True, pos[0])
    if not rets:
        ctx.fail("create:registered", "create_metadata_parser of a registered name does not return a parser", f.loc)
    for i, v, fx in rets:
        t = fl.term(i.args[0])
        for t in alts(t):
            made = p.classes.get(callname(t) or "") if t[0] == "call" else None
            if t[0] != "call" or not any(x[0] == "attr" and "regist" in x[2] for x in subterms(t)) and not any(x[0] == "item" for x in subterms(t)) and not (
                    made and p.cls("MetadataParser") in p.mro(made[0])):
                continue
            ctx.count("parser constructions")
            args = list(t[3]) + [v for _, v in t[4]]
            names = dict(t[4]) if t[4] else {}
            a = [x for x in t[3] if x[0] == "param"]
            if len(t[3]) >= 2 and (t[3][0] != ("param", pos[1]) or t[3][1] != ("param", pos[2])):
                ctx.fail("create:args", f"the parser is created with ({', '.join(show(x)[:30] for x in t[3])}) instead of ({pos[1]}, {pos[2]})", i.loc)
            for k, x in names.items():
                if k in pos and x != ("param", k):
                    ctx.fail("create:args", f"the parser is created with {k}={show(x)[:40]}", i.loc)
            if len(args) != 2:
                ctx.fail("create:args", f"the parser is created with {len(args)} arguments", i.loc)
            key = [x for x in subterms(t) if x[0] == "item" and is_reg(fl, x[1])]
            if key and key[0][2] != ("param", pos[0]):
                ctx.fail("create:key", f"the parser registered under {show(key[0][2])[:40]} is created, not the one asked for", i.loc)


# ------------------------------------------------------------------ other factories
def modes(ctx):
    p = ctx.proj
    base = p.cls("PropertyCalculationExecutor")
    f = p.method(base, "from_mode")
    fl = ctx.flow(f, ctx.local_policy(f, base))
    pos = sig(f)[0]
    used = {}
    for n, v in enum_values(p, p.cls("ExecutionMode")).items():
        params = {pos[0]: ("enum", "ExecutionMode", n)}
        for q in pos[1:]:
            params[q] = 3 if "size" in q or "degree" in q or "parallel" in q else ("obj", "function")
        rets, raises = Cases(ctx, fl, params).run()
        ctx.count("execution modes")
        for i, v_, _ in rets:
            if v_ is U:
                raise AnchorError(f"cannot decide what from_mode returns for {n}")
            if not (isinstance(v_, tuple) and v_[0] == "inst" and base in p.mro(p.cls(v_[1]))):
                ctx.fail(f"mode:{n}", f"from_mode({n}) returns {v_!r}", i.loc)
                continue
            if v_[1] in used and used[v_[1]] != n:
                ctx.fail(f"mode:{n}", f"execution modes {used[v_[1]]} and {n} both give {v_[1]}", i.loc)
            used[v_[1]] = n
            if norm(n) == "local" and "local" not in norm(v_[1]):
                ctx.fail(f"mode:{n}", f"execution mode {n} gives {v_[1]}", i.loc)
        if norm(n) == "local" and not rets:
            ctx.fail(f"mode:{n}", f"execution mode {n} is refused", f.loc)
    for i in fl.g.calls():
        c = p.classes.get(last(i.fn))
        if not c or base not in p.mro(c[0]):
            continue
        ini = p.find_method(c[0], "__init__")
        tp = sig(ini)[0] if ini else []
        got = dict(zip(tp, i.args))
        got.update(i.kw or {})
        for q in tp:
            if q in pos:
                ctx.count("constructor arguments")
                if q not in got:
                    if q not in sig(ini)[4]:
                        ctx.fail(f"mode-arg:{q}", f"{last(i.fn)} is created without {q}", i.loc)
                elif ("param", q) not in list(subterms(fl.term(got[q]))):
                    ctx.fail(f"mode-arg:{q}", f"{last(i.fn)} is created with {show(fl.term(got[q]))[:50]} as its {q}", i.loc)


def filesystems(ctx):
    p = ctx.proj
    base = p.cls("FileSystem")
    f = p.method(base, "from_path")
    fl = ctx.flow(f, ctx.local_policy(f, base))
    q = sig(f)[0][0]
    for path, want in (("file:///data/x", "LocalFileSystem"), ("/data/x", "LocalFileSystem"), ("s3://bucket/x", None), ("http://h/x", None)):
        rets, _ = Cases(ctx, fl, {q: path}).run()
        ctx.count("path forms")
        got = {r[1] for r in rets}
        if U in got:
            raise AnchorError("cannot decide what from_path returns")
        if want and got != {("cls", want)}:
            ctx.fail(f"path:{path.split(':')[0] if ':' in path else 'abs'}", f"from_path({path!r}) gives {sorted(map(str, got)) or 'a refusal'}, not {want}", f.loc)
        if not want and ("cls", "LocalFileSystem") in got:
            ctx.fail(f"path:{path.split(':')[0]}", f"from_path({path!r}) treats a remote path as a local one", f.loc)


def clients(ctx):
    p = ctx.proj
    base = p.cls(CLIENT)
    f = p.method(base, "__new__")
    fl = ctx.flow(f, ctx.local_policy(f, base))
    va = f.node.args.vararg
    if va is None:
        raise AnchorError(f"{CLIENT}.__new__ takes no *args")

    def calls(s, i, st):
        d = dict(st)
        if last(i.fn) == "__new__" and i.args:
            v = d.get(i.args[0], U)
            return ("made", v) if v is not U else U
        if last(i.fn) in ("LocalStub", "ServerStub"):
            return None
        if (i.fn or "").endswith("current_process"):
            return ("obj", "process")
        return None

    def attrs(s, i, b):
        return "MainProcess" if b == ("obj", "process") and i.data == "name" else None

    cases = [((("seq", ("dir",))), "LocalStub", "a directory name"), (("seq", (("obj", "Path", "PosixPath", "PurePath"),)), "LocalStub", "a directory path"),
             (("seq", ("host", 1)), "ServerStub", "host and port"), (("seq", (("seq", ("host", 1)),)), "ServerStub", "a (host, port) tuple"),
             (("seq", ()), None, "nothing"), (("seq", (1,)), None, "a number"), (("seq", ("host", "1")), None, "two strings"), (("seq", ("host", 1, 2)), None, "three values")]
    for args, want, what in cases:
        ctx.count("constructor shapes")
        rets, _ = Cases(ctx, fl, {va.arg: args, f.params()[0]: ("cls", CLIENT)}, calls=calls, attrs=attrs).run()
        got = {r[1] for r in rets}
        if U in got or any(isinstance(g, tuple) and g[-1] is U for g in got):
            raise AnchorError(f"cannot decide which client {CLIENT}({what}) makes")
        exp = {("made", ("cls", want))} if want else set()
        alt = {("inst", want)} if want else set()
        if got != exp and {g[:2] for g in got if isinstance(g, tuple)} != alt:
            ctx.fail(f"client:{what.split()[-1]}:{len(args[1])}", f"{CLIENT}({what}) makes {', '.join(sorted(str(g[1][1] if isinstance(g, tuple) and isinstance(g[1], tuple) else g) for g in got)) or 'nothing (refused)'}"
                     f", not {want or 'a refusal'}", rets[0][0].loc if rets else f.loc)
    for name, want in (("from_directory", "LocalStub"), ("from_remote", "ServerStub")):
        f = p.method(base, name)
        fl = ctx.flow(f, ctx.local_policy(f, base))
        pos = sig(f)[0]
        for r in fl.g.of("return"):
            if r.frame is not fl.g.frames[0]:
                continue
            for t in alts(fl.term(r.args[0])):
                ctx.count("client factories")
                if t[0] != "call" or callname(t) != want and callname(t) in ("LocalStub", "ServerStub"):
                    ctx.fail(f"{name}", f"{CLIENT}.{name} makes {show(t)[:50]}, not {want}", r.loc)
                    continue
                if callname(t) == want and not t[4] and tuple(t[3]) != tuple(("param", q) for q in pos) and not all(
                        ("param", q) in list(subterms(x)) for q, x in zip(pos, t[3])):
                    ctx.fail(f"{name}:args", f"{CLIENT}.{name} makes the client with ({', '.join(show(x)[:30] for x in t[3])}) instead of ({', '.join(pos)})", r.loc)


def reading_modes(ctx):
    """Every way of reading a chunk that the client arguments offer is one the chunk implements, and no other is accepted."""
    p = ctx.proj
    args = p.cls("ResultStreamingArgs")
    field = [n for n, (v, a) in args.class_attrs.items() if a is not None and "Literal" in ast.unparse(a)]
    if not field:
        raise AnchorError("no reading mode among the client arguments")
    field = field[0]
    a = args.class_attrs[field][1]
    offered = [e.value for n in ast.walk(a) if isinstance(n, ast.Subscript) and "Literal" in (dotted(n.value) or "") for e in (n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice])
               if isinstance(e, ast.Constant)]
    dv = args.class_attrs[field][0]
    if isinstance(dv, ast.Constant) and dv.value not in offered:
        ctx.fail("mode-default", f"the default reading mode {dv.value!r} is not one of {offered}", f"{args.module.rel}:{args.node.lineno} ({args.name})")
    c = p.cls("ResultChunk")
    f = p.method(c, "configure_result_streaming", required=False)
    if f is None:
        raise AnchorError("configure_result_streaming not found")
    fl = ctx.flow(f, ctx.local_policy(f, c), selfcls=c)

    def make(mode):
        def attrs(s, i, b):
            t = fl.term(i.dst)
            if t[0] == "attr" and t[2] == field:
                return mode
            if t[0] == "attr" and t[1] == ("self",) and t[2] == "_mixture_type":
                return mode
            return None
        return attrs

    for m in offered + ["no such mode"]:
        ctx.count("reading modes")
        k = Cases(ctx, fl, {}, attrs=make(m))
        rets, raises = k.run()
        done = any(key[0] == fl.g.exit.id for key in k.visited)
        if m in offered and not done:
            ctx.fail(f"reading:{m}", f"chunk reading mode {m!r} is offered but the chunk refuses it", f.loc)
        if m not in offered and done:
            ctx.fail("reading:unknown", "an unknown chunk reading mode is accepted", f.loc)
    # the data path tells the modes apart
    tested = set()
    for g in c.methods.values():
        for n in walk_scope(g.node):
            if isinstance(n, ast.Constant) and n.value in offered and g.name != f.name:
                tested.add(n.value)
    for m in offered:
        if m not in tested and m != offered[0] and not (isinstance(dv, ast.Constant) and dv.value == m):
            ctx.fail(f"reading:{m}", f"no reading path of a chunk distinguishes the mode {m!r}", f.loc)
