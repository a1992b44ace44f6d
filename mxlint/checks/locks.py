"""Locksets: which locks are certainly / possibly held before each instruction of a flow."""
import ast

from ..core import *
from ..flow import strip_ids
from ..project import dotted, walk_scope
from .util import *

LOCK_CTORS = {"Lock", "RLock", "Semaphore", "BoundedSemaphore", "Condition"}
RLOCKS = {"RLock", "Condition"}  # Condition(): over an RLock; Condition(lock) is resolved to that lock


def lock_fields(ctx, c):
    """Lock attributes of a class: name -> (constructor, name of the lock it wraps or None)."""
    out = {}
    for k in ctx.proj.mro(c):
        for m in k.methods.values():
            for n in walk_scope(m.node):
                tg = None
                if isinstance(n, ast.Assign) and len(n.targets) == 1:
                    tg, val = n.targets[0], n.value
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    tg, val = n.target, n.value
                if isinstance(tg, ast.Attribute) and isinstance(val, ast.Call):
                    ctor = last(dotted(val.func) or "")
                    if ctor in LOCK_CTORS:
                        w = None
                        if ctor == "Condition" and val.args and isinstance(val.args[0], ast.Attribute):
                            w = val.args[0].attr
                        out.setdefault(tg.attr, (ctor, w))
                    elif ctor in ("Value", "Array"):
                        out.setdefault(tg.attr, ("Value", None))
    return out


def lock_of(fl, t, fields=None):
    """Lock term a `with`/acquire operand stands for, or None.  fields: lock attributes of the root object's class."""
    t = strip_ids(t)
    if t[0] == "phi":
        return None
    if t[0] == "call" and callname(t) == "get_lock" and t[2] is not None:
        return ("getlock", t[2])
    if t[0] == "attr":
        if fields and t[2] in fields:
            w = fields[t[2]][1]
            if fields[t[2]][0] == "Value":
                return None
            return ("attr", t[1], w) if w else t
        if "lock" in t[2].lower() or "cond" in t[2].lower() or "mutex" in t[2].lower():
            return t
    if t[0] in ("param", "global", "free") and "lock" in str(t[-1]).lower():
        return t
    if t[0] == "global" and t in global_locks(fl):
        return t
    return None


def global_locks(fl):
    """Module-level names bound to a lock."""
    got = fl.__dict__.get("_glocks") if hasattr(fl, "__dict__") else None
    if got is None:
        got = set()
        for d in fl.g.of("global"):
            v = d.data[1] if isinstance(d.data, tuple) and len(d.data) > 1 and d.data[0] == "const" else None
            if isinstance(v, ast.Call) and (dotted(v.func) or "").split(".")[-1] in LOCK_CTORS:
                got.add(strip_ids(fl.term(d.dst)))
        if hasattr(fl, "__dict__"):
            fl._glocks = got
    return got


class LockSets:
    """must[i]: frozenset of (lock, id of acquiring instruction); may[i] likewise (union)."""

    def __init__(self, fl, fields=None):
        self.fl = fl
        self.fields = fields or {}
        self.acq, self.rel = {}, {}
        for i in fl.g.live:
            if i.op == "with_enter":
                l = lock_of(fl, fl.term(i.args[0]), self.fields)
                if l is not None:
                    self.acq[i.id] = l
            elif i.op == "with_exit" and i.args:
                l = lock_of(fl, fl.term(i.args[0]), self.fields)
                if l is not None:
                    self.rel[i.id] = l
            elif i.op == "call" and i.recv is not None and last(i.fn) in ("acquire", "release"):
                l = lock_of(fl, fl.term(i.recv), self.fields)
                if l is not None:
                    (self.acq if last(i.fn) == "acquire" else self.rel)[i.id] = l
        self.must = self._solve(True)
        self.may = self._solve(False)

    def _out(self, i, s, lab):
        if i.id in self.acq and lab not in ("exc", "exc-base"):
            return s | {(self.acq[i.id], i.id)}
        if i.id in self.rel:
            return frozenset(x for x in s if x[0] != self.rel[i.id])
        if i.op == "await" and lab in ("exc", "exc-base") and i.args:
            # an acquisition that failed while it was awaited did not take the lock
            d = defining(self.fl, i.args[0])
            if d is not None and d.id in self.acq:
                return frozenset(x for x in s if x != (self.acq[d.id], d.id))
        return s

    def _solve(self, must):
        g = self.fl.g
        st = {g.entry.id: frozenset()}
        work = [g.entry]
        while work:
            i = work.pop()
            for s, lab in i.succ:
                o = self._out(i, st[i.id], lab)
                if s.id not in st:
                    n = o
                else:
                    n = (st[s.id] & o) if must else (st[s.id] | o)
                    if n == st[s.id]:
                        continue
                st[s.id] = n
                work.append(s)
        return st

    def held(self, i, lock):
        return any(l == lock for l, _ in self.must.get(i.id, ()))

    def regions(self, i, lock):
        return {r for l, r in self.must.get(i.id, ()) if l == lock}

    def same_region(self, a, b, lock):
        """Both under the lock, acquired by the same instruction, and b reachable from a without a release in between."""
        if not (self.regions(a, lock) & self.regions(b, lock)):
            return False
        seen = reach([s for s, l in a.succ], stop=lambda x: x.id in self.rel and self.rel[x.id] == lock, exc=False)
        return a is b or any(x is b for x in seen)


def deferred(fl, i):
    """The coroutine/function started by instruction i runs later (task, thread, process)."""
    return last(i.fn) in ("create_task", "ensure_future", "Thread", "Process", "run_coroutine_threadsafe", "to_thread", "run_in_executor")


def entries(ctx, c):
    """Methods that can be called with no lock of the object held: public and dunder methods, and private ones that no method of
    the class calls directly (thread targets, tasks, methods called by other classes)."""
    called, late, outside = set(), set(), set()
    for k in ctx.proj.mro(c):
        for m in k.methods.values():
            for n in walk_scope(m.node):
                if isinstance(n, ast.Call):
                    d = dotted(n.func) or ""
                    if last(d) in ("create_task", "ensure_future", "Thread", "Process", "to_thread", "run_in_executor"):
                        for a in list(n.args) + [x.value for x in n.keywords]:
                            a = a.func if isinstance(a, ast.Call) else a
                            if isinstance(a, ast.Attribute):
                                late.add(a.attr)
                                if isinstance(a, ast.Attribute):
                                    n._mx_late = a
                    elif d.count(".") == 1 and d.split(".")[0] in ("self", "cls", "super()"):
                        called.add(d.split(".")[1])
    names = {m for k in ctx.proj.mro(c) for m in k.methods}
    for f in ctx.proj.funcs.values():
        if f.cls is not None and f.cls in ctx.proj.mro(c):
            continue
        for n in walk_scope(f.node):
            if isinstance(n, ast.Attribute) and n.attr in names and n.attr.startswith("_") and not n.attr.startswith("__"):
                r = n.value
                if not (isinstance(r, ast.Name) and r.id == "self"):
                    outside.add(n.attr)
    out = []
    for n in sorted(names):
        m = ctx.proj.find_method(c, n)
        if m is None or m.is_abstract:
            continue
        private = n.startswith("_") and not n.startswith("__")
        if not private or n in late or n in outside or n not in called:
            out.append(m)
    return out


def root_attr(t):
    """('attr', self, X) at the bottom of subscripts/attributes -> X."""
    while t[0] in ("item", "attr", "elem", "valof", "keyof") or (t[0] == "call" and callname(t) in ("get_obj", "get", "values", "items", "keys") and t[2] is not None):
        if t[0] == "attr" and t[1] == ("self",):
            return t[2]
        t = t[2] if t[0] == "call" else t[1]
    return None


MUTATORS = {"append", "extend", "insert", "add", "discard", "remove", "pop", "popitem", "clear", "update", "setdefault", "sort", "reverse", "appendleft", "popleft"}


def writes(fl, names):
    """(instruction, attribute) for every modification of self.<name in names> (rebinding, item/attribute stores, mutating calls)."""
    for i in fl.g.live:
        if i.op == "setattr":
            b = fl.term(i.args[0])
            if b == ("self",) and i.data in names:
                yield i, i.data
            else:
                for a in alts(b):
                    r = root_attr(a)
                    if r in names:
                        yield i, r
                        break
        elif i.op in ("setitem", "delitem"):
            for a in alts(fl.term(i.args[0])):
                r = root_attr(a)
                if r in names:
                    yield i, r
                    break
        elif i.op == "call" and i.recv is not None and last(i.fn) in MUTATORS and i.target is None:
            for a in alts(fl.term(i.recv)):
                r = root_attr(a)
                if r in names:
                    yield i, r
                    break
