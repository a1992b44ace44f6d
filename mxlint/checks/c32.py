"""C32: dataset registration and removal are all-or-nothing."""
from ..core import *
from ..sql import *
from .util import *
from .c09 import mdc


def run(ctx):
    ctx.rule("Effect typestate over the recovered SQL of register_dataset and remove_dataset (helpers inlined): the set of catalog tables holding "
             "rows of the new dataset must be empty at every failing exit (falsy result or escaping exception) and complete at success; removal "
             "deletes samples, files and the dataset, each selected by the given identifier and never after the rows its selection depends on; "
             "dataset names are unique.")
    c = mdc(ctx)
    reg = ctx.proj.find_method(c, "register_dataset")
    rem = ctx.proj.find_method(c, "remove_dataset")
    if reg is None or rem is None:
        raise AnchorError("register_dataset/remove_dataset not found")
    ctx.part(removal, ctx, c, rem)
    ctx.part(registration, ctx, c, reg)
    ctx.part(unique, ctx, c, reg)


def exists_branch(fl, ins):
    """Branch testing check_dataset_exists: polarity of 'exists' or None."""
    t, pol = fl.term(ins.args[0]), True
    while t[0] == "un" and t[1] == "Not":
        t, pol = t[2], not pol
    if is_call_term(t, "check_dataset_exists"):
        return pol
    return None


def policy(ctx, c, m):
    base = ctx.local_policy(m, c, stop=("check_dataset_exists",))
    return lambda fi, call, fr: base(fi, call, fr) and fi.name != "check_dataset_exists"


def registration(ctx, c, m):
    fl = ctx.flow(m, policy(ctx, c, m), c, key="c32")
    g = fl.g
    ins_, del_, db = {}, {}, set()
    for i in g.calls():
        e = effects(fl, i)
        a = {t for v, t in e if v == "insert" and t in TABLES}
        d = {t for v, t in e if v == "delete" and t in TABLES}
        if ("rollback", "*") in e:
            d |= set(TABLES)
        if a:
            ins_[i.id] = a
        if d:
            del_[i.id] = d
        st = statements(fl, i)
        n = last(i.fn)
        if n in ("fetchone", "fetchall", "commit", "cursor", "unregister", "check_dataset_exists") or (
                st and all(re.match(r"(select|update version|delete|vacuum)\b", s.text, re.I) for s in st)):
            db.add(i.id)
    ctx.count("insert_sites", len(ins_))
    ctx.count("delete_sites", len(del_))
    if not ins_:
        raise AnchorError("no inserts found in register_dataset")
    ret = (g.frames[0].id, "$ret")
    hook = rows_hook(fl)
    br = {i.id: exists_branch(fl, i) for i in g.of("branch")}

    def fetched_item(i):
        if i.op != "item":
            return False
        return contains(fl.term(i.args[0]), lambda x: x[0] == "call" and last(x[1]) in ("fetchone", "fetchall"))

    def step(i, s):
        if i.id in ins_:
            return [s | ins_[i.id]]
        if i.id in del_:
            return [s - del_[i.id]]
        return [s]

    def edge(ins, succ, lab, st):
        if lab in ("exc", "exc-base"):
            if no_raise(ins) or ins.id in db or fetched_item(ins) or in_version(ins):
                return False
            return st
        if lab in (True, False) and br.get(ins.id) is not None and "datasets" in st and br[ins.id] != lab:
            return False
        return st

    def in_version(ins):
        f = ins.frame
        while f is not None:
            if f.func.name in ("get_db_version", "_db_incr_version", "_vacuum"):
                return True
            f = f.caller
        return ins.op == "call" and last(ins.fn) in ("_vacuum",)

    ex = Explorer(fl, step, edge=edge, follow_exc=True, watch_keys={ret}, hook=hook)
    vis = ex.run(frozenset())
    ctx.count("explored_states", len(vis))
    ok = fails = 0
    reported = set()
    for k in vis:
        tv = None
        if k[0] == g.exit.id:
            tv = ex.truth(dict(k[1]).get(ret))
        elif k[0] != g.raise_exit.id:
            continue
        end = g.ins[k[0]]
        if k[0] == g.raise_exit.id or tv is False:
            fails += 1
            if k[2] and "left-behind" not in reported:
                reported.add("left-behind")
                ctx.fail("left-behind", f"registration can {'raise' if end is g.raise_exit else 'report failure'} with rows left in "
                         f"{', '.join(sorted(k[2]))}; path {trace(ex.path((end, k[1], k[2])))}", f"{m.module.rel}:{m.node.lineno}")
        elif tv is True:
            ok += 1
            miss = {"datasets", "files"} - k[2]
            if miss and "incomplete" not in reported:
                reported.add("incomplete")
                ctx.fail("incomplete", f"registration can report success without rows in {', '.join(sorted(miss))}; path "
                         f"{trace(ex.path((end, k[1], k[2])))}", f"{m.module.rel}:{m.node.lineno}")
        elif k[2] not in (frozenset(), frozenset(TABLES)) and not {"datasets", "files"} <= k[2]:
            if "unknown" not in reported:
                reported.add("unknown")
                ctx.fail("left-behind", f"registration can end with rows only in {', '.join(sorted(k[2]))} and an outcome that does not tell; path "
                         f"{trace(ex.path((end, k[1], k[2])))}", f"{m.module.rel}:{m.node.lineno}")
    ctx.count("success_exits", ok)
    ctx.count("failing_exits", fails)
    if not any("samples" in v for v in ins_.values()):
        ctx.fail("incomplete", "registration never inserts samples", m.module.rel)
    ctx.sample(f"register_dataset: {len(ins_)} insert sites, {ok} successful and {fails} failing abstract exits")


def by_identifier(fl, i, s, ident):
    """Is the statement restricted to rows of the identified dataset?"""
    t = s.text
    m = re.search(r"delete from \"?(\w+)\"?\s*(.*)$", t, re.I)
    if not m:
        return False
    table, rest = m.group(1).lower(), m.group(2)
    if not re.match(r"where\b", rest, re.I):
        return False
    sub = r"\(\s*select (?:\w+\.)?id from datasets (?:as )?(?:\w+ )?where (?:\w+\.)?name\s*=\s*[?$]\d*\s*\)"
    param = s.params is not None and any(x == ("param", ident) for x in contributions(fl, s.params))
    idparam = s.params is not None and any(
        x[0] == "call" and last(x[1]) in ("fetchone", "fetchall") for x in contributions(fl, s.params))
    if table == "datasets":
        return bool((re.match(r"where (?:\w+\.)?name\s*=\s*[?$]", rest, re.I) and param)
                    or (re.match(r"where (?:\w+\.)?id\s*(=|in)\s*", rest, re.I) and (idparam or (re.search(sub, rest, re.I) and param))))
    if re.match(r"where (?:\w+\.)?dataset_id\s*(=|in)", rest, re.I):
        return bool((re.search(sub, rest, re.I) and param) or idparam)
    if table == "samples" and re.match(r"where (?:\w+\.)?file_id\s*in\s*\(\s*select (?:\w+\.)?id from files where (?:\w+\.)?dataset_id", rest, re.I):
        return bool((re.search(sub, rest, re.I) and param) or idparam)
    return False


def removal(ctx, c, m):
    fl = ctx.flow(m, policy(ctx, c, m), c, key="c32rem")
    g = fl.g
    ident = [p for p in m.params() if p not in ("self", "cls")][0]
    eff = {}
    for i in g.calls():
        for s in statements(fl, i):
            d = {t for v, t in s.effects() if v == "delete" and t in TABLES}
            if not d:
                continue
            eff.setdefault(i.id, (i, set(), []))
            eff[i.id][1].update(d)
            eff[i.id][2].append(s)
            ctx.count("deletes")
            if not by_identifier(fl, i, s, ident):
                ctx.fail(f"wrong-rows:{sorted(d)[0]}", f"'{s.text}' is not restricted to the rows of the identified dataset", i.loc)
    if not eff:
        ctx.fail("removal-incomplete", "remove_dataset deletes nothing", m.module.rel)
        return
    ret = (g.frames[0].id, "$ret")

    def step(i, s):
        if i.id in eff:
            return [s | eff[i.id][1]]
        return [s]

    ex = Explorer(fl, step, edge=lambda i, su, l, s: False if l in ("exc", "exc-base") and no_raise(i) else s, watch_keys={ret}, hook=rows_hook(fl))
    vis = ex.run(frozenset())
    ctx.count("explored_states", len(vis))
    done = set()
    for k in vis:
        if k[0] == g.exit.id:
            tv = ex.truth(dict(k[1]).get(ret))
            miss = set(TABLES) - k[2]
            if tv is not False and miss and ("m", frozenset(miss)) not in done:
                done.add(("m", frozenset(miss)))
                ctx.fail("removal-incomplete", f"remove_dataset can report success without deleting {', '.join(sorted(miss))}; path "
                         f"{trace(ex.path((g.exit, k[1], k[2])))}", f"{m.module.rel}:{m.node.lineno}")
        if k[0] in eff and "o" not in done:
            i, tabs, sts = eff[k[0]]
            for s in sts:
                dep = {t for t in TABLES if t not in tabs and re.search(rf"\bfrom {t}\b", s.text, re.I)}
                if dep & k[2]:
                    done.add("o")
                    ctx.fail("removal-order", f"'{s.text}' selects rows through {', '.join(sorted(dep & k[2]))}, which has already been deleted", i.loc)
                if "datasets" in k[2] and tabs & {"files"}:
                    done.add("o")
                    ctx.fail("removal-order", "files are deleted after the dataset they reference", i.loc)
                if "datasets" in tabs and "files" not in k[2]:
                    done.add("o")
                    ctx.fail("removal-order", "the dataset is deleted before the files that reference it", i.loc)


def unique(ctx, c, reg):
    text_ = []
    for m in c.methods.values():
        fl = ctx.flow(m, lambda *a: False, c, key="own")
        for i in fl.g.calls():
            for s in statements(fl, i):
                if re.search(r"create table (?:if not exists )?\"?datasets\b", s.text, re.I):
                    text_.append((s.text, i))
    if not text_:
        raise AnchorError("CREATE TABLE datasets not found")
    for t, i in text_:
        ctx.count("schemas")
        if not (re.search(r"\bname \w+[^,]*\bunique\b", t, re.I) or re.search(r"\bunique\s*\(\s*name\s*\)", t, re.I)
                or re.search(r"\bname \w+[^,]*\bprimary key\b", t, re.I)):
            fl = ctx.flow(reg, policy(ctx, c, reg), c, key="c32")
            tgt = {j.id for j in fl.g.calls() if ("insert", "datasets") in effects(fl, j)}
            bad, _ = must_pass(fl, fl.g.entry, lambda j: j.id in tgt, lambda j: j.op == "branch" and exists_branch(fl, j) is not None, follow_exc=False)
            if bad:
                ctx.fail("not-unique", "dataset names are not unique and registration does not check for an existing dataset", i.loc)
