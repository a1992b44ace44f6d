"""SQL statements issued by the code: text recovery from provenance terms, effects, placeholders, dynamic parts."""
import re

from .flow import alts, mkphi
from .checks.util import last

TABLES = ("datasets", "files", "samples")
DYN = "\x00"


def parts(t, depth=0):
    """Text of string term t as a list of alternatives; each a list of str (constant) or term (dynamic)."""
    if depth > 25:
        return [[t]]
    if t[0] == "const":
        return [[str(t[1])]]
    if t[0] == "phi":
        out = []
        for x in sorted(t[1], key=repr):
            out += parts(x, depth + 1)
        return out
    if t[0] in ("fstr",):
        out = [[]]
        for x in t[1:]:
            ps = parts(x, depth + 1)
            out = [a + b for a in out for b in ps][:200]
        return out
    if t[0] == "fmt":
        return [[t]]
    if t[0] == "bin" and t[1] == "Add":
        l, r = parts(t[2], depth + 1), parts(t[3], depth + 1)
        return [a + b for a in l for b in r][:200]
    if t[0] == "call" and t[1] and last(t[1]) in ("strip", "dedent", "lstrip", "rstrip") and (t[2] is not None or t[3]):
        return parts(t[2] if last(t[1]) != "dedent" and t[2] is not None else t[3][0], depth + 1)
    if t[0] == "call" and t[1] == "str" and len(t[3]) == 1:
        return parts(t[3][0], depth + 1)
    return [[t]]


def text(alt):
    return "".join(x if isinstance(x, str) else DYN for x in alt)


def norm(s):
    return re.sub(r"\s+", " ", s).strip()


class Stmt:
    def __init__(self, ins, fl, alt, params):
        self.ins, self.fl, self.alt, self.params = ins, fl, alt, params
        self.text = norm(text(alt))
        self.dyn = [x for x in alt if not isinstance(x, str)]

    def effects(self):
        out = []
        s = self.text
        for m in re.finditer(r"\b(insert\s+(?:or\s+\w+\s+)?into|update|delete\s+from|alter\s+table|drop\s+table(?:\s+if\s+exists)?|truncate(?:\s+table)?)\s+\"?(\w+)\"?", s, re.I):
            out.append((m.group(1).split()[0].lower(), m.group(2).lower()))
        if re.match(r"rollback\b", s, re.I):
            out.append(("rollback", "*"))
        return out


def is_exec(i):
    return i.op == "call" and last(i.fn) in ("execute", "executemany", "sql", "query") and i.recv is not None


def statements(fl, ins):
    """Possible statements of an execute call instruction."""
    if not is_exec(ins):
        return []
    a = ins.args[0] if ins.args else (ins.kw or {}).get("query")
    if a is None:
        return []
    p = ins.args[1] if len(ins.args) > 1 else (ins.kw or {}).get("parameters")
    t = fl.term(a)
    if not any(isinstance(x, str) for alt in parts(t) for x in alt):
        return []
    return [Stmt(ins, fl, alt, fl.term(p) if p is not None else None) for alt in parts(t)]


def effects(fl, ins):
    out = set()
    for s in statements(fl, ins):
        out.update(s.effects())
    if ins.op == "call" and last(ins.fn) == "rollback" and ins.recv is not None:
        out.add(("rollback", "*"))
    if ins.op == "call" and last(ins.fn) == "append" and ins.recv is not None and len(ins.args) == 2:
        t = fl.term(ins.args[0])
        if t[0] == "const" and t[1] in TABLES:
            out.add(("insert", t[1]))
    return out


def executed(fl, fetch):
    """Execute instructions whose result a fetch call may read."""
    g = fl.g
    r = fl.term(fetch.recv) if fetch.recv is not None else None
    if r is None:
        return []
    byid = {i.id: i for i in g.calls() if is_exec(i)}
    direct = [byid[x[5]] for x in alts(r) if x[0] == "call" and len(x) == 6 and x[5] in byid]
    if direct:
        return direct
    out, seen, st = [], set(), [p for p, _ in fetch.pred]
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.id in byid and fl.term(n.recv) == r:
            out.append(n)
            continue
        st.extend(p for p, _ in n.pred)
    return out


ROWID = 7777777  # stands for any row id (a positive integer)
ROWS = re.compile(r"\bcount\s*\(|\breturning\b|\bnextval\b|from version\b", re.I)


def rows_hook(fl):
    """Explorer hook: results of statements that always produce a row are never empty."""
    cache = {}

    def fetched(d):
        if d.id not in cache:
            ex = executed(fl, d)
            cache[d.id] = bool(ex) and all(sts and all(ROWS.search(s.text) for s in sts) for sts in (statements(fl, e) for e in ex))
        return cache[d.id]

    def hook(d):
        if d.op == "call" and last(d.fn) in ("fetchone", "fetchall") and fetched(d):
            return "truthy"
        if d.op == "item":
            b = fl.g.tempdef.get(d.args[0])
            k = fl.g.tempdef.get(d.args[1])
            n = 0
            while b is not None and n < 5 and b.op in ("alias", "load"):
                ds = fl.rdefs(b, b.data) if b.op == "load" else None
                b = (fl.g.tempdef.get(ds[0].args[0]) if len(ds) == 1 and ds[0] is not None else None) if ds is not None else fl.g.tempdef.get(b.args[0])
                n += 1
            if b is not None and b.op == "call" and last(b.fn) == "fetchone" and k is not None and k.op == "const" and k.data == 0 and fetched(b):
                ex = executed(fl, b)
                if all(re.search(r"returning\s+(?:\w+\.)?id\b", s.text, re.I) for e in ex for s in statements(fl, e)):
                    return ("c", ROWID)
        return None

    return hook
