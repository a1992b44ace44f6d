"""C38: the statement that turns selected samples into intervals keeps every sample exactly once, with its own file and properties."""
import re

from ..core import *
from ..flow import strip_ids
from ..sql import is_exec, parts
from .util import *
from . import c25

CLAUSES = ("select", "from", "where", "group by", "having", "qualify", "window", "order by", "limit", "offset", "union", "except", "intersect", "using sample")
FILTERS = ("where", "having", "qualify", "limit", "offset", "union", "except", "intersect", "using sample")


def run(ctx):
    ctx.rule("The text of the interval statement is recovered from the source (constant parts and the provenance of inserted parts) and parsed. Gaps-and-islands rules over its "
             "common table expressions: no stage filters or limits rows; the distance to the previous row is taken over rows of the same group ordered by sample number; a new "
             "interval starts exactly where the distance is not one; intervals are grouped by all group columns and the running number; start is the smallest, end one more than "
             "the largest sample number; group columns are data set, file and every other column except the sample number; the result is used unchanged.")
    ctx.rule("The selection itself: each condition becomes exactly one clause on its own property with its own operator and values, clauses are joined by AND, operators by OR "
             "(the rules of C25).")
    ctx.part(intervals, ctx)
    for part in (c25.conditions, c25.assembly, c25.statement, c25.execution, c25.plan):
        ctx.part(part, ctx)


# ------------------------------------------------------------------ text
def tokens(alt, mark):
    s = "".join(x if isinstance(x, str) else f" {mark(x)} " for x in alt)
    s = re.sub(r"--[^\n]*", " ", s)
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    return [x.lower() for x in re.findall(r"§\w+|'[^']*'|\"[^\"]*\"|\w+(?:\.\w+)*|<>|!=|>=|<=|[^\s\w]", s)]


def close(ts, i):
    """Index of the parenthesis closing the one at i."""
    d = 0
    for k in range(i, len(ts)):
        d += (ts[k] == "(") - (ts[k] == ")")
        if d == 0:
            return k
    raise AnchorError("unbalanced statement")


def commas(ts):
    out, d, cur = [], 0, []
    for t in ts:
        d += (t == "(") - (t == ")")
        if t == "," and d == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    return out + [cur] if cur else out


def unq(x):
    return x.split(".")[-1].strip('"')


class Select:
    def __init__(self, ts):
        self.clauses, k, cur = {}, 0, None
        d = 0
        while k < len(ts):
            t = ts[k]
            two = t + " " + ts[k + 1] if k + 1 < len(ts) else t
            d += (t == "(") - (t == ")")
            name = two if two in CLAUSES else t if t in CLAUSES else None
            if d == 0 and name is not None:
                cur = name
                self.clauses.setdefault(cur, [])
                k += 2 if name == two and " " in name else 1
                continue
            if cur is None:
                raise AnchorError("statement not recognised")
            self.clauses[cur].append(t)
            k += 1
        sel = self.clauses.get("select", [])
        self.distinct = bool(sel) and sel[0] == "distinct"
        self.cols = {}
        self.plain = []
        for c in commas(sel[1:] if self.distinct else sel):
            if len(c) >= 3 and c[-2] == "as":
                self.cols[unq(c[-1])] = c[:-2]
            elif len(c) == 1:
                self.plain.append(unq(c[0]))
            elif re.fullmatch(r"\w+", c[-1]) and (c[-2] == ")" or c[-2] == "end"):
                self.cols[unq(c[-1])] = c[:-1]
            elif len(c) == 3 and c[1] == "." and c[2] == "*":
                self.plain.append("*")
            else:
                raise AnchorError(f"column {' '.join(c)[:40]} not recognised")
        self.source = self.clauses.get("from", [])


def offset(e):
    """(core, number added) of an expression."""
    while e and e[0] == "(" and close(e, 0) == len(e) - 1:
        e = e[1:-1]
    d = 0
    for k in range(len(e) - 1, -1, -1):
        d += (e[k] == ")") - (e[k] == "(")
        if d == 0 and e[k] in ("+", "-") and 0 < k < len(e) - 1:
            l, r = e[:k], e[k + 1:]
            if len(r) == 1 and r[0].isdigit():
                c, n = offset(l)
                return c, n + (int(r[0]) if e[k] == "+" else -int(r[0]))
            if len(l) == 1 and l[0].isdigit() and e[k] == "+":
                c, n = offset(r)
                return c, n + int(l[0])
    return e, 0


def window(e):
    """(function tokens, partition list, order list, frame) of f(...) OVER (...)."""
    if "over" not in e:
        raise AnchorError("window expression not recognised")
    k = e.index("over")
    if e[k + 1] != "(" or close(e, k + 1) != len(e) - 1:
        raise AnchorError("window not recognised")
    w = e[k + 2:-1]
    part, order, frame, cur = [], [], [], None
    i = 0
    while i < len(w):
        if w[i] == "partition" and w[i + 1] == "by":
            cur, i = part, i + 2
            continue
        if w[i] == "order" and w[i + 1] == "by":
            cur, i = order, i + 2
            continue
        if w[i] in ("rows", "range", "groups"):
            cur = frame
        if cur is None:
            raise AnchorError("window not recognised")
        cur.append(w[i])
        i += 1
    return e[:k], part, order, frame


# ------------------------------------------------------------------ rules
def intervals(ctx):
    c = ctx.proj.cls("Query")
    m = ctx.proj.find_method(c, "execute")
    if m is None:
        raise AnchorError("Query.execute not found")
    fl = ctx.flow(m, ctx.local_policy(m, c), selfcls=c, key="intervals")
    found = []
    for i in fl.g.calls():
        if is_exec(i) and i.args:
            for alt in parts(fl.term(i.args[0])):
                txt = "".join(x for x in alt if isinstance(x, str)).lower()
                if "interval_start" in txt and "interval_end" in txt:
                    found.append((i, alt))
    if not found:
        raise AnchorError("statement computing the intervals not found")
    for i, alt in found:
        ctx.count("interval_statements")
        statement(ctx, fl, i, alt)
    results(ctx, fl, [i for i, _ in found])


def statement(ctx, fl, ins, alt):
    holes = {}

    def mark(t):
        s = strip_ids(t)
        if contains(s, lambda x: x[0] == "call" and x[1] and last(x[1]) == "generate_sql") and s[0] == "item":
            return "§base"
        if s[0] == "call" and last(s[1]) == "join" and s[3]:
            if s[2] is None or s[2][0] != "const" or str(s[2][1]).strip() != ",":
                raise AnchorError("list of columns not recognised")
            key = s[3][0]
            for k, v in holes.items():
                if v == key:
                    return k
            holes[f"§g{len(holes)}"] = key
            return f"§g{len(holes) - 1}"
        raise AnchorError(f"part {show(s)[:50]} of the statement not recognised")
    ts = tokens(alt, mark)
    if ts and ts[-1] == ";":
        ts = ts[:-1]
    if not ts or ts[0] != "with":
        raise AnchorError("statement has no stages")
    stages, k = {}, 1
    while True:
        name = unq(ts[k])
        if ts[k + 1] != "as" or ts[k + 2] != "(":
            raise AnchorError("stages not recognised")
        e = close(ts, k + 2)
        stages[name] = ts[k + 3:e]
        k = e + 1
        if k < len(ts) and ts[k] == ",":
            k += 1
            continue
        break
    stages[""] = ts[k:]

    def bad(key, msg):
        ctx.fail(key, msg, ins.loc)

    # group columns: every list used must be the same and complete
    full = [h for h, t in holes.items() if complete(ctx, fl, t, bad)]
    if not full:
        raise AnchorError("group columns not recognised")
    G = "§g"
    stages = {n: [G if x in full else x for x in b] for n, b in stages.items()}

    sels = {}
    for n, body in stages.items():
        if body == ["§base"]:
            sels[n] = None
            continue
        s = sels[n] = Select(body)
        for f in FILTERS:
            if f in s.clauses:
                bad("filtered", f"stage {n or 'result'} of the interval statement has {f.upper()}: selected samples are missing from the result")
        if s.distinct and n == "":
            pass
        if len(s.source) == 3 and s.source[0] == "(" and s.source[1] == "§base":
            s.source = ["§base"]
    if not any(s is None or s.source == ["§base"] for s in sels.values()):
        raise AnchorError("the selection is not a stage of the statement")

    gs = [(n, s) for n, s in sels.items() if s is not None and any("lag" in e for e in s.cols.values())]
    if len(gs) != 1:
        raise AnchorError("stage with the distances not recognised")
    gn, g = gs[0]
    base_of(sels, g)
    (dn, de), = [(k, e) for k, e in g.cols.items() if "lag" in e]
    if "*" not in g.plain and "sample_id" not in g.plain:
        raise AnchorError("columns of the distances not recognised")
    if de[:2] != ["sample_id", "-"]:
        raise AnchorError("distance not recognised")
    f, part, order, frame = window(de[2:])
    if f[:2] != ["lag", "("]:
        raise AnchorError("distance not recognised")
    a = commas(f[2:-1])
    ctx.count("interval_rules")
    if a[0] != ["sample_id"]:
        bad("distance", "the distance is not that of the sample numbers")
    if len(a) > 1 and a[1] != ["1"]:
        bad("distance", "the distance is not that to the previous sample: intervals with gaps or repeated samples")
    check_window(ctx, bad, part, order, frame, G, "the distance to the previous sample")

    ns = [(n, s) for n, s in sels.items() if s is not None and [unq(x) for x in s.source] == [gn]]
    if len(ns) != 1:
        raise AnchorError("stage with the running number not recognised")
    n1, s1 = ns[0]
    runs = [(k, e) for k, e in s1.cols.items() if "over" in e]
    if len(runs) != 1:
        raise AnchorError("running number not recognised")
    rn, re_ = runs[0]
    f, part, order, frame = window(re_)
    if f[:2] != ["sum", "("]:
        raise AnchorError("running number not recognised")
    breaks(ctx, bad, f[2:-1], dn)
    check_window(ctx, bad, part, order, frame, G, "the running number of the interval")
    if n1 == "":
        raise AnchorError("intervals are not grouped in a stage of their own")
    if "group by" in s1.clauses:
        gb = [unq(x[0]) for x in commas(s1.clauses["group by"])]
        ctx.count("interval_rules")
        if "sample_id" not in gb:
            bad("grouped", "samples are merged before they are put into intervals")
        if G not in gb:
            bad("grouped", "samples with different files or properties are merged")
    fs = [(n, s) for n, s in sels.items() if s is not None and [unq(x) for x in s.source] == [n1]]
    if len(fs) != 1 or fs[0][0] != "":
        raise AnchorError("final stage not recognised")
    fin = fs[0][1]
    gb = [unq(x[0]) for x in commas(fin.clauses.get("group by", []))]
    ctx.count("interval_rules")
    if G not in gb:
        bad("grouped", "intervals of different files or properties are merged")
    if rn not in gb:
        bad("grouped", "intervals are merged across gaps: samples that were not selected become part of the result")
    if G not in fin.plain:
        bad("columns", "the result lacks file or property columns of its intervals")
    for col, agg, want in (("interval_start", "min", 0), ("interval_end", "max", 1)):
        if col not in fin.cols:
            raise AnchorError(f"{col} not recognised")
        e, n = offset(fin.cols[col])
        if len(e) != 4 or e[1] != "(":
            raise AnchorError(f"{col} not recognised")
        if e[0] != agg:
            bad("bounds", f"{col} is not the {'smallest' if agg == 'min' else 'largest'} of its interval")
        inner = unq(e[2])
        if inner != "sample_id" and not (inner in s1.cols):
            raise AnchorError(f"{col} not recognised")
        if inner in s1.cols:
            e2, n2 = offset(s1.cols[inner])
            n += n2
            if e2 not in (["sample_id"], ["min", "(", "sample_id", ")"], ["max", "(", "sample_id", ")"]):
                raise AnchorError(f"{inner} not recognised")
        ctx.count("interval_rules")
        if n != want:
            bad("bounds", f"{col} is the {'first' if agg == 'min' else 'last'} sample number {'+' if n >= 0 else '-'} {abs(n)} instead of {'+ 1' if want else 'itself'}: intervals are half-open")


def base_of(sels, s):
    src = [unq(x) for x in s.source]
    if src == ["§base"]:
        return
    if len(src) == 1 and src[0] in sels and (sels[src[0]] is None or sels[src[0]].source == ["§base"] and sels[src[0]].plain == ["*"] and not sels[src[0]].cols):
        return
    raise AnchorError("source of the distances not recognised")


def check_window(ctx, bad, part, order, frame, G, what):
    ctx.count("interval_rules")
    if [unq(x[0]) for x in commas(part)] != [G]:
        bad("partition", f"{what} is not taken within one file and one combination of properties")
    o = [x for x in order if x != "asc"]
    if [unq(x) for x in o] != ["sample_id"]:
        bad("order", f"{what} is not taken in the order of the sample numbers: which samples an interval covers depends on the order of the rows")
    if frame and " ".join(frame) not in ("rows between unbounded preceding and current row", "range between unbounded preceding and current row", "rows unbounded preceding", "range unbounded preceding"):
        bad("frame", f"{what} does not cover all previous rows")


def breaks(ctx, bad, e, dn):
    """Expression summed: 1 exactly where the distance is not 1 (the first row of a group may have either value)."""
    ctx.count("interval_rules")
    if e[:2] == ["case", "when"] and e[-1] == "end" and "then" in e and "else" in e:
        c, v1, v0 = e[2:e.index("then")], e[e.index("then") + 1:e.index("else")], e[e.index("else") + 1:-1]
    else:
        raise AnchorError("start of an interval not recognised")
    if len(c) == 3 and unq(c[2]) == dn:
        c = [c[2], {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(c[1], c[1]), c[0]]
    while c and c[0] == "(" and close(c, 0) == len(c) - 1:
        c = c[1:-1]
    if len(v1) != 1 or len(v0) != 1 or not c or unq(c[0]) != dn:
        raise AnchorError("start of an interval not recognised")
    neg = c[1:2] == ["not"]
    if c[1 + neg:2 + neg] == ["in"]:
        ks = [x[0] for x in commas(c[3 + neg:-1])]
        if not all(x.isdigit() for x in ks):
            raise AnchorError("start of an interval not recognised")
        ks = {int(x) for x in ks}
        k, new = max(ks), lambda d: (d in ks) != neg
    elif len(c) == 3 and c[2].isdigit():
        op, k = c[1], int(c[2])
        new = {"!=": lambda d: d != k, "<>": lambda d: d != k, ">": lambda d: d > k, ">=": lambda d: d >= k, "=": lambda d: d == k, "<": lambda d: d < k, "<=": lambda d: d <= k}.get(op)
    elif len(c) == 5 + neg and c[1 + neg] == "between" and c[2 + neg].isdigit() and c[3 + neg] == "and" and c[4 + neg].isdigit():
        lo, k = int(c[2 + neg]), int(c[4 + neg])
        new = lambda d: (lo <= d <= k) != neg
    else:
        raise AnchorError("start of an interval not recognised")
    if new is None:
        raise AnchorError("start of an interval not recognised")
    # the distance of two rows of a group is at least one: compare with 1 and every greater distance up to one past the constant
    for d in range(1, k + 3):
        v = v1[0] if new(d) else v0[0]
        if (v != "0") != (d > 1):
            bad("gap", f"a distance of {d} {'starts a new interval' if v != '0' else 'does not start a new interval'}: " +
                ("samples that were not selected become part of the interval" if d > 1 else "every sample is an interval of its own"))
            return


def complete(ctx, fl, t, bad):
    """The columns of list t are data set, file and all others except the sample number."""
    consts, comp = set(), None
    work = [t]
    while work:
        x = work.pop()
        if x[0] == "bin" and x[1] == "Add":
            work += [x[2], x[3]]
        elif x[0] in ("list0", "list", "tuple"):
            for y in x[1:]:
                if x[0] == "list0":
                    break
                if y[0] == "star":
                    work.append(y[1])
                elif y[0] == "const":
                    consts.add(y[1])
                else:
                    raise AnchorError("group columns not recognised")
        elif x[0] == "call" and last(x[1]) in ("sorted", "list", "tuple") and x[3]:
            work.append(x[3][0])
        elif x[0] == "comp":
            if comp is not None:
                raise AnchorError("group columns not recognised")
            comp = x
        elif x[0] in ("slice", "item"):
            bad("partition", "only a part of the group columns is used")
            return False
        else:
            raise AnchorError("group columns not recognised")
    if comp is None:
        # a list that grows element by element
        grown = [i for i in fl.g.calls() if i.recv is not None and i.args and last(i.fn) in ("append", "extend", "insert", "add", "update")]
        for i in grown:
            for x in (strip_ids(fl.term(y)) for y in i.args):
                if contains(x, lambda y: y[0] == "attr" and y[2] in ("column_names", "names")):
                    comp = x
                elif x[0] == "const":
                    consts.add(x[1])
                elif x[0] in ("list", "tuple"):
                    consts |= {y[1] for y in x[1:] if y[0] == "const"}
        if comp is None:
            if grown:
                raise AnchorError("group columns not recognised")
            bad("partition", "the group columns do not contain the property columns")
            return False
    if not contains(comp, lambda x: x[0] == "attr" and x[2] in ("column_names", "names")):
        raise AnchorError("group columns not recognised")
    excluded = set()
    g = fl.g
    for b in g.of("branch"):
        d = defining(fl, b.args[0])
        if d is None or d.op != "cmp" or not contains(strip_ids(fl.term(d.args[0])), lambda x: x[0] == "attr" and x[2] in ("column_names", "names")):
            continue
        r = strip_ids(fl.term(d.args[1]))
        neg = d.data in ("NotIn", "NotEq")
        if not neg and d.data not in ("In", "Eq"):
            raise AnchorError("selection of the group columns not recognised")
        vals = [r] if d.data in ("NotEq", "Eq") else list(r[1:]) if r[0] in ("list", "tuple", "set") else [("const", v) for v in r[1]] if r[0] == "const" and isinstance(r[1], (tuple, list, set, frozenset)) else None
        if vals is None or not all(v[0] == "const" for v in vals):
            raise AnchorError("selection of the group columns not recognised")
        excluded |= {v[1] for v in vals}
    if not excluded:
        raise AnchorError("selection of the group columns not recognised")
    ctx.count("interval_rules")
    lost = excluded - consts - {"sample_id"}
    if lost:
        bad("partition", f"the group columns do not contain {', '.join(sorted(lost))}")
    if "sample_id" not in excluded or "sample_id" in consts:
        bad("partition", "the sample number is one of the group columns: it becomes a property of the samples")
    return True


def results(ctx, fl, exs):
    """What the statement returns is used as a whole."""
    n = 0
    for i in fl.g.calls():
        if last(i.fn) != "QueryResult":
            continue
        for a in i.args:
            t = strip_ids(fl.term(a))
            if not contains(t, lambda x: x[0] == "call" and x[1] and last(x[1]) in ("execute", "sql")):
                continue
            n += 1
            while t[0] == "call" and last(t[1]) in ("fetch_arrow_table", "arrow", "to_arrow_table", "combine_chunks", "fetch_df") and t[2] is not None:
                t = t[2]
            ctx.count("interval_rules")
            if t[0] in ("item", "slice") or t[0] == "call" and last(t[1]) in ("slice", "head", "limit", "filter", "take", "drop", "fetch_record_batch", "fetchmany"):
                ctx.fail("partial", "only a part of the rows of the interval statement becomes the result of the query", i.loc)
    if not n:
        raise AnchorError("the result of the statement is not handed to a QueryResult")
