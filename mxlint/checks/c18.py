"""C18: splitting and merging sample ranges keeps every sample exactly once.

 A. the per-key range splitter: an inductive invariant (position in the current range, count so far, requested size) is inferred
    from the loop variables and proved for every path between cut points with linear arithmetic;
 B. merging a key's part into the chunk under construction stores every file's ranges, merged with what is already there;
 C. the merge of two sorted range lists takes every element of both exactly once, smaller start first;
 D. the number of samples a part is accounted with is the number its ranges contain;
 E. best-effort redistribution takes the missing samples from one key and gives the same number to others, in both books.
"""
import itertools

from .linear import *
from .nonzero import T, norm, base, says_nonzero, filtered
from ..ir import Builder

QR = "QueryResult"


# ------------------------------------------------------------------ sources of loop values
def strip_order(t):
    while t[0] == "call" and last(t[1]) in ("sorted", "list", "tuple", "iter") and t[2] is None and t[3]:
        t = t[3][0]
    if t[0] == "iterof":
        return strip_order(t[-1])
    return t


def whiles(fl):
    return {i.id for i in fl.g.of("loop")}


def source(t):
    """('key'|'val', mapping term) a term is drawn from by iteration or lookup, else None."""
    if t[0] == "keyof":
        return ("key", strip_order(t[1]))
    if t[0] == "valof":
        return ("val", strip_order(t[1]))
    if t[0] == "item":
        b, k = t[1], t[2]
        if b[0] == "elem" and k[0] == "const" and k[1] in (0, 1):
            s = strip_order(b[1])
            if s[0] == "call" and callname(s) == "items" and s[2] is not None:
                return ("key" if k[1] == 0 else "val", strip_order(s[2]))
        sk = source(k)
        if sk is not None and sk[0] == "key" and same(sk[1], b):
            return ("val", b)
        return None
    if t[0] == "elem":
        s = strip_order(t[1])
        if s[0] == "call" and callname(s) in ("keys", "values") and s[2] is not None:
            return ("key" if callname(s) == "keys" else "val", strip_order(s[2]))
        return ("key", s)
    return None


def loops_around(fl, ins):
    hs = [h for h in fl.g.of("next") if any(x is ins for x in body_of(h))]
    return sorted(hs, key=lambda h: -len(body_of(h)))


class Snap(Run):
    """Also records the variables at every event."""

    def do(self, i, lab):
        n = len(self.events)
        super().do(i, lab)
        snaps = self.__dict__.setdefault("snaps", {})
        for k in range(n, len(self.events)):
            snaps[k] = dict(self.env)


def var(k):
    return ("var", k)


# ------------------------------------------------------------------ A. splitter
def splitter(ctx):
    proj = ctx.proj
    c = proj.cls(QR)
    m = proj.find_method(c, "_generate_per_mixture_component_chunks")
    if m is None:
        raise AnchorError("QueryResult has no per-key range splitter")
    fl = ctx.flow(m, None, selfcls=c)
    g = fl.g
    apps = [i for i in g.calls() if last(i.fn) == "append" and i.recv is not None and len(loops_around(fl, i)) >= 3]
    if not apps:
        raise AnchorError("the range splitter appends no ranges")
    hs = loops_around(fl, apps[0])
    for a in apps:
        if loops_around(fl, a) != hs:
            raise AnchorError("ranges are appended in different loops")
    dsh, fh, rh = hs[0], hs[1], hs[2]
    if len(hs) != 3:
        raise AnchorError("ranges are appended in a deeper loop nest than analysed")
    where = f"{m.module.rel}::{m.qual.split('.', 1)[-1]}"
    # --- what is iterated
    t3 = strip_order(fl.term(rh.args[0]))
    s3 = source(t3)
    s2 = source(s3[1]) if s3 else None
    ok = s3 is not None and s2 is not None and s3[0] == "val" and s2[0] == "val"
    if ok:
        t1, t2 = s2[1], s3[1]
        ok = t1[0] == "item" and t1[1] == ("param", "chunker_index") or contains(t1, lambda x: x[0] == "param")
    if not ok:
        if t3[0] in ("slice", "comp") or contains(t3, lambda x: x[0] in ("slice", "comp")):
            ctx.fail(f"split-source", f"the splitter does not walk through all ranges of the key: it iterates {show(t3)[:120]}", rh.loc)
        raise AnchorError(f"ranges iterated by the splitter not recognised: {show(t3)[:100]}")
    ctx.sample(f"{where}: ranges are {show(t3)[:110]}")
    # --- the keys under which ranges are stored
    for a in apps:
        r = fl.term(a.recv)
        for alt in alts(r):
            keys = []
            x = alt
            while x[0] == "item" or x[0] == "call" and callname(x) in ("setdefault", "get") and x[2] is not None:
                keys.append(x[2] if x[0] == "item" else x[3][0])
                x = x[1] if x[0] == "item" else x[2]
            ks = [source(k) for k in keys]
            if len(keys) != 2 or None in ks:
                raise AnchorError(f"{a.loc}: place where a range is stored not recognised ({show(alt)[:80]})")
            if not (ks[1] == ("key", t1) and ks[0] == ("key", t2)) and not (
                    ks[1][0] == "key" and same(ks[1][1], t1) and ks[0][0] == "key" and same(ks[0][1], t2)):
                ctx.fail("split-place", "a range is not stored under the dataset and file it was taken from "
                         f"(stored under {show(keys[1])[:60]}, {show(keys[0])[:60]})", a.loc)
        ctx.count("range_places_checked")
    # --- nothing between the loops is skipped
    for h, inner in ((dsh, fh), (fh, rh)):
        for kind, at, path in segments(fl, [(h, "next")], {h.id, inner.id}):
            if kind == "raise":
                continue
            if kind == "cut" and at is inner:
                r = execute(fl, path, frozenset())
                if r is not None and any(i.op == "yield" for i, _ in path):
                    raise AnchorError("the splitter yields between its loops")
                continue
            r = execute(fl, path, frozenset())
            if r is None:
                continue
            if not any(empties(v, lab) for v, lab, _ in r.conds):
                ctx.fail("split-skip", "the splitter can leave out a dataset or file although it has ranges", at.loc)
        for kind, at, path in segments(fl, [(inner, "stop")], {h.id, inner.id}):
            if not (kind == "cut" and at is h) and kind != "raise":
                ctx.fail("split-leave", "the splitter can stop before it has walked through all datasets and files", at.loc)
    # --- inductive invariant
    body = body_of(dsh)
    rbody = body_of(rh)
    havoc = stored_in(body)
    inner = [i for i in rbody if i.op == "body"]
    cuts = {rh.id, dsh.id} | {i.id for i in inner}
    ylds = [i for i in body if i.op == "yield"]
    if not ylds:
        raise AnchorError("the splitter does not yield inside its loops")
    kvars = {s.data for s in g.of("store") if g.tempdef.get(s.args[0]) is not None and g.tempdef[s.args[0]].op == "yield"}
    kvars &= {s.data for s in body if s.op == "store"} or kvars
    # partition variable: base of the appended places
    pvars = set()
    for a in apps:
        t = a.recv
        for _ in range(6):
            d = g.tempdef.get(t)
            if d is None:
                break
            if d.op == "load":
                k = var_key(fl, t)
                rs = fl.rdefs(d, d.data)
                dd = g.tempdef.get(rs[0].args[0]) if len(rs) == 1 and rs[0] is not None else None
                if dd is not None and dd.op in ("item", "call") and dd.fn not in ("defaultdict", "collections.defaultdict", "dict"):
                    t = rs[0].args[0]
                    continue
                pvars.add(k)
                break
            t = d.args[0] if d.op in ("item", "alias") else d.recv
            if t is None:
                break
    if len(pvars) != 1 or len(kvars) != 1:
        raise AnchorError("state of the splitter (partition, requested size) not recognised")
    P, K = next(iter(pvars)), next(iter(kvars))
    paths = []
    starts = [(rh, "next")] + [(i, None) for i in inner]
    for st in starts:
        for kind, at, path in segments(fl, [st], cuts):
            if kind == "raise":
                continue
            paths.append((st[0], kind, at, path))
    ctx.count("splitter_paths", len(paths))
    runs = []
    for st, kind, at, path in paths:
        r = Snap(fl)
        r.havoc = havoc
        for i, lab in path:
            r.do(i, lab)
            if i.op == "next" and lab == "stop":
                for k in stored_in(body_of(i)):
                    r.env[k] = ("after", k, i.id)
        if infeasible(r.facts):
            continue
        runs.append((st, kind, at, path, r))
    # candidates
    stored = sorted({s.data for s in rbody if s.op == "store"}, key=str)
    ints = [k for k in sorted(havoc, key=str) if k not in (P, K) and not str(k[1]).startswith("$")]
    counts = [("v", k) for k in ints] + [("K-v", k) for k in ints]
    poss = [("pair", v) for v in stored if v not in (P, K)]
    sv = [v for v in stored if v not in (P, K) and not str(v[1]).startswith("$")]
    poss += [("two", x, ("v", y)) for x in sv for y in sv if x != y] + [("two", x, ("i", y)) for x in sv for y in sv if x != y]
    if not inner:
        poss = [None]
    init = [(kind, at, path) for kind, at, path in segments(fl, [(g.entry, None)], {dsh.id}) if kind != "raise"]
    best = None
    for cnt in counts:
        # quick filter: the count starts at zero
        if not all(init_ok(fl, p, cnt, K) for _, _, p in init):
            continue
        for pos in poss:
            errs = verify_split(fl, runs, rh, P, K, cnt, pos, best=None if best is None else len(best[0]))
            if errs is not None and (best is None or len(errs) < len(best[0])):
                best = (errs, cnt, pos)
            if best is not None and not best[0]:
                break
        if best is not None and not best[0]:
            break
    if best is None:
        raise AnchorError("count of samples in the part under construction not recognised")
    errs, cnt, pos = best
    ctx.count("splitter_obligations", sum(len(r.events) for *_, r in runs))
    ctx.sample(f"{where}: invariant 0 <= {cnt[0].replace('v', str(cnt[1][1]))} <= {K[1]} at position {pos}")
    for e, loc in dict(errs).items():
        ctx.fail("split", e, loc)
    # --- leftovers
    for kind, at, path in segments(fl, [(dsh, "stop")], set()):
        if kind == "raise":
            continue
        r = Snap(fl)
        r.havoc = havoc | {K}
        for i, lab in path:
            r.do(i, lab)
        cc = count_of(cnt, r.env if False else {}, K)
        ys = [(n, i, a) for n, (i, a, _) in enumerate(r.events) if i.op == "yield"]
        base = r.facts + [lin(var(K)), cc, lin(var(K)) - cc]
        if infeasible(base):
            continue
        if not ys:
            if not implies(base, -cc):
                ctx.fail("split-leftover", "when the ranges are exhausted the samples collected so far can be dropped instead of yielded", at.loc)
        elif len(ys) > 1 or not yields_part(ys[0][2][0], r.snaps[ys[0][0]].get(P, var(P))):
            ctx.fail("split-leftover", "when the ranges are exhausted something other than the collected part is yielded", ys[0][1].loc)
        ctx.count("leftover_paths")
    # yielded part is complete: conversion of nested defaultdicts
    ctx.floor("splitter_paths", 2)
    ctx.floor("leftover_paths", 2)


def empties(v, lab):
    if isinstance(v, tuple) and v[0] == "not":
        return empties(v[1], not lab)
    if isinstance(v, tuple) and v[0] == "cmp":
        fs = of_cmp(v, lab)
        lens = {a for f in fs if isinstance(f, Lin) for a, _ in f.m if isinstance(a, tuple) and a[:2] == ("call", "len")}
        return any(implies(fs, -Lin(0, {a: 1})) for a in lens)
    return lab is False and isinstance(v, tuple) and v[0] in ("item", "elem", "t", "var")


def init_ok(fl, path, cnt, K):
    r = execute(fl, path, frozenset())
    if r is None:
        return True
    v = r.env.get(cnt[1])
    if v is None or not scalar(v):
        return False
    k = r.env.get(K)
    if k is None:
        return False
    return lin(v) == Lin(0) if cnt[0] == "v" else equal(r.facts, lin(v), lin(k))


def count_of(cnt, env, K):
    v = env.get(cnt[1], var(cnt[1]))
    k = env.get(K, var(K))
    if not scalar(v) or not scalar(k):
        return None
    return lin(v) if cnt[0] == "v" else lin(k) - lin(v)


def pos_of(pos, env):
    g = lambda k: env.get(k, var(k))
    if pos[0] == "pair":
        b = g(pos[1])
        lo, hi = item(b, Lin(0)), item(b, Lin(1))
    else:
        lo = g(pos[1])
        hi = g(pos[2][1]) if pos[2][0] == "v" else item(g(pos[2][1]), Lin(1))
    if not (scalar(lo) and scalar(hi)):
        return None
    return lin(lo), lin(hi)


def yields_part(v, p):
    if v == p:
        return True
    if isinstance(v, tuple) and v[0] == "call" and v[1] in ("defaultdict_to_dict", "dict", "deepcopy") and v[3]:
        return v[3][0] == p
    if isinstance(v, tuple) and v[0] == "t":
        return contains(v[1], lambda x: x[0] == "call" and callname(x) in ("defaultdict_to_dict", "dict", "deepcopy"))
    return False


def fresh(v):
    return isinstance(v, tuple) and (v[0] in ("new", "comp", "dictlit") or v[0] == "call" and v[1] in ("defaultdict", "dict") or
                                     v[0] == "t" and v[1][0] == "call" and callname(v[1]) in ("defaultdict", "dict"))


def base_of(v):
    while isinstance(v, tuple) and (v[0] == "item" or v[0] == "call" and v[1] in ("setdefault", "get") and v[2] is not None):
        v = v[1] if v[0] == "item" else v[2]
    return v


def verify_split(fl, runs, rh, P, K, cnt, pos, best):
    """Violated obligations of the invariant (None: the roles do not even type)."""
    errs = {}

    def err(msg, ins):
        errs.setdefault(msg, ins.loc)

    for st, kind, at, path, r in runs:
        facts = list(r.facts)
        k0 = lin(var(K))
        c0 = count_of(cnt, {}, K)
        facts += [k0, c0, k0 - c0]
        if st is rh:
            e = elem_of(r, rh)
            lo, hi = item(e, Lin(0)), item(e, Lin(1))
            lo, hi = lin(lo), lin(hi)
            if st is rh and path and path[0][0] is rh:
                pass
        else:
            p = pos_of(pos, {})
            if p is None:
                return None
            lo, hi = p
        facts.append(hi - lo)
        # every value received from a yield is a non-negative request
        for i, lab in path:
            if i.op == "yield":
                facts.append(lin(r.val[i.dst]))
        if infeasible(facts):
            continue
        p, got, cstart, part, yielded = lo, Lin(0), c0, var(P), False
        for n, (i, args, recv) in enumerate(r.events):
            snap = r.snaps[n]
            if i.op == "call" and last(i.fn) == "append" and isinstance(recv, tuple) and base_of(recv) != recv:
                b = base_of(recv)
                part_now = snap.get(P, var(P))
                if b != part_now:
                    err("a range is added to a part that has already been handed out", i)
                x = args[0]
                a0, a1 = item(x, Lin(0)), item(x, Lin(1))
                if not (scalar(a0) and scalar(a1)):
                    return None
                a0, a1 = lin(a0), lin(a1)
                if not equal(facts, a0, p):
                    err("an appended range does not start where the previous one of this range ended (samples lost or taken twice)", i)
                if not implies(facts, a1 - a0):
                    err("an appended range can end before it starts", i)
                if not implies(facts, hi - a1):
                    err("an appended range can reach beyond the range it is taken from", i)
                got = got + (a1 - a0)
                p = a1
            elif i.op == "call" and last(i.fn) in ("clear", "pop", "popitem") and isinstance(recv, tuple) and base_of(recv) == snap.get(P, var(P)):
                err("ranges are removed from the part under construction", i)
            elif i.op == "yield":
                pv = snap.get(P, var(P))
                if not yields_part(args[0], pv):
                    err("something other than the collected part is yielded", i)
                kk = snap.get(K, var(K))
                # the requested size in force while collecting
                if not equal(facts, cstart + got, lin(kk)):
                    err("a part is yielded that does not contain exactly the requested number of samples", i)
                cstart, got, part, yielded = Lin(0), Lin(0), pv, True
        end = dict(r.env)
        if kind != "cut":
            err("the splitter can stop although ranges remain", at)
            continue
        if yielded:
            np = end.get(P, var(P))
            if np == part or not fresh(np):
                err("the part that was handed out is also used for the following one", at)
        c1 = count_of(cnt, end, K)
        k1 = end.get(K, var(K))
        if c1 is None or not scalar(k1):
            return None
        k1 = lin(k1)
        if not equal(facts, c1, cstart + got):
            err("the count of collected samples does not match the ranges collected", at)
        if not implies(facts, c1) or not implies(facts, k1 - c1):
            err("more samples are collected than requested", at)
        if at is rh or at.op == "next":
            if at is not rh:
                err("the splitter can skip the remaining ranges of a file", at)
            elif not implies(facts, p - hi):
                err("the splitter can go on to the next range although samples of this one remain", path[-1][0])
        else:
            q = pos_of(pos, end)
            if q is None:
                return None
            if not equal(facts, q[0], p) or not equal(facts, q[1], hi):
                err("the remainder of a split range does not continue exactly after what was taken", at)
        if best is not None and len(errs) >= best:
            return None
    return [(m, l) for m, l in errs.items()]


# ------------------------------------------------------------------ C. merge of sorted lists
def merging(ctx):
    proj = ctx.proj
    f = proj.func("merge_sorted_lists", required=False)
    if f is None:
        raise AnchorError("merge_sorted_lists not found")
    fl = ctx.flow(f, None)
    g = fl.g
    ps = [a for a in f.all_params()]
    if len(ps) < 2:
        raise AnchorError("merge_sorted_lists takes fewer than two lists")
    A, B = ("t", ("param", ps[0])), ("t", ("param", ps[1]))
    rets = root_returns(fl)
    # library merges
    for r in rets:
        t = fl.term(r.args[0]) if r.args else ("const", None)
        t0 = strip_order(t)
        if t0[0] == "call" and last(t0[1]) == "merge" and set(t0[3]) >= {("param", ps[0]), ("param", ps[1])}:
            ctx.count("merge_paths")
            return
        if t0[0] == "bin" and t0[1] == "Add" and {t0[2], t0[3]} == {("param", ps[0]), ("param", ps[1])} and t[0] == "call" and last(t[1]) == "sorted":
            ctx.count("merge_paths")
            return
        if t0[0] == "call" and last(t0[1]) == "chain" and t[0] == "call" and last(t[1]) == "sorted" and set(t0[3]) == {("param", ps[0]), ("param", ps[1])}:
            ctx.count("merge_paths")
            return
    bodies = [i for i in g.of("body")]
    if not bodies:
        raise AnchorError("merge_sorted_lists is not a two-pointer loop")
    outs = set()
    for r in rets:
        k = var_key(fl, r.args[0]) if r.args else None
        outs.add(k)
    if len(outs) != 1 or None in outs:
        raise AnchorError("result of merge_sorted_lists not recognised")
    OUT = next(iter(outs))
    heads = g.of("loop")
    inloop = [i for h in heads for i in body_of(h)]
    havoc = stored_in(inloop)
    ints = [k for k in sorted(havoc, key=str)]
    cuts = {i.id for i in bodies}
    la, lb = Lin(0, {("call", "len", None, (A,), ()): 1}), Lin(0, {("call", "len", None, (B,), ()): 1})
    best = None
    segs = segments(fl, [(g.entry, None)] + [(i, None) for i in bodies], cuts)
    for I, J in itertools.permutations(ints, 2):
        errs = {}

        def err(m, i):
            errs.setdefault(m, i.loc)

        for kind, at, path in segs:
            if kind == "raise":
                continue
            start_loop = path[0][0].op == "body"
            r = Snap(fl)
            r.havoc = havoc if start_loop else frozenset()
            facts0 = [la, lb]
            for i, lab in path:
                r.do(i, lab)
            if start_loop:
                i0, j0 = lin(var(I)), lin(var(J))
                facts0 += [i0, j0, la - i0, lb - j0]
            else:
                i0, j0 = Lin(0), Lin(0)
            facts = facts0 + r.facts
            if start_loop:
                facts += entry_facts(fl, path[0][0], r, I, J)
            if infeasible(facts):
                continue
            pi, pj = i0, j0
            for n, (ins, args, recv) in enumerate(r.events):
                if ins.op != "call":
                    if ins.op == "setitem" and args and args[0] == r.snaps[n].get(OUT):
                        err("merged entries are overwritten", ins)
                    continue
                fn = last(ins.fn)
                if fn in ("append", "extend") and is_out(recv, r, n, OUT, fl):
                    v = args[0]
                    got = taken(v, A, B, fn)
                    if got is None:
                        return _merge_unknown(ins)
                    which, frm, to = got
                    cur = pi if which == "A" else pj
                    ln = la if which == "A" else lb
                    if not equal(facts, frm, cur):
                        err("the merge does not take the next range of a list (a range is lost or taken twice)", ins)
                    if to is None:
                        to = ln
                    elif not implies(facts, ln - to):
                        err("the merge reads past the end of a list", ins)
                    if fn == "append":
                        # the other list's next start must not be smaller (unless exhausted)
                        oth, ol, o = (pj, lb, B) if which == "A" else (pi, la, A)
                        me, mi = (A, pi) if which == "A" else (B, pj)
                        mine = lin(item(("item", me, mi), Lin(0)))
                        theirs = lin(item(("item", o, oth), Lin(0)))
                        if not implies(facts, oth - ol) and not implies(facts, theirs - mine):
                            err("the merge can take the range with the larger start first", ins)
                    if which == "A":
                        pi = to
                    else:
                        pj = to
                elif fn in ("pop", "remove", "clear", "insert") and is_out(recv, r, n, OUT, fl):
                    err("merged entries are removed or reordered", ins)
            if kind == "return":
                if not implies(facts, pi - la) or not implies(facts, pj - lb):
                    err("the merge can end before both lists are exhausted (ranges are lost)", at)
            elif kind == "cut":
                iv, jv = r.env.get(I, var(I)), r.env.get(J, var(J))
                if not scalar(iv) or not scalar(jv):
                    errs["-"] = at.loc
                    continue
                if not equal(facts, lin(iv), pi) or not equal(facts, lin(jv), pj):
                    err("a position of the merge does not advance with what was taken", at)
            ctx.count("merge_paths")
        if best is None or len(errs) < len(best):
            best = errs
        if not errs:
            break
    if best is None:
        raise AnchorError("positions of the merge not recognised")
    for m_, loc in best.items():
        ctx.fail("merge", m_, loc)
    ctx.floor("merge_paths", 3)


def _merge_unknown(ins):
    raise AnchorError(f"{ins.loc}: merged element not recognised")


def entry_facts(fl, body, r, I, J):
    """Conditions known at the top of the loop body: those on the edge into it."""
    out = []
    x = body
    for _ in range(12):
        ps = [(p, l) for p, l in x.pred]
        if len(ps) != 1:
            break
        p, l = ps[0]
        if p.op == "branch" and l in (True, False):
            rr = Run(fl)
            rr.havoc = r.havoc
            # evaluate the condition with the loop variables unknown
            chain, y = [], p
            while True:
                chain.append(y)
                q = [a for a, b in y.pred]
                if len(q) != 1 or y.op == "loop":
                    break
                y = q[0]
            for c in reversed(chain):
                if c.op not in ("loop", "branch", "body"):
                    rr.do(c, None)
            rr.do(p, l)
            out += rr.facts
        if p.op == "loop":
            break
        x = p
    return out


def is_out(recv, r, n, OUT, fl):
    if recv is None:
        return False
    return recv == r.snaps[n].get(OUT, var(OUT)) or (isinstance(recv, tuple) and recv[0] in ("new", "comp") and recv == r.v_out(OUT) if hasattr(r, "v_out") else False) \
        or (isinstance(recv, tuple) and recv[0] == "new" and OUT not in r.snaps[n])


def taken(v, A, B, fn):
    if isinstance(v, tuple) and v[0] == "item" and isinstance(v[2], Lin) and not v[2].c and len(v[2].m) == 1:
        (a, k), = v[2].m
        if k == 1 and isinstance(a, tuple) and a[0] == "slice":
            v = ("item", v[1], a)
    if fn == "append" and isinstance(v, tuple) and v[0] == "item" and v[1] in (A, B) and isinstance(v[2], Lin):
        return ("A" if v[1] == A else "B", v[2], v[2] + Lin(1))
    if fn == "extend" and isinstance(v, tuple):
        if v in (A, B):
            return ("A" if v == A else "B", Lin(0), None)
        if v[0] == "item" and v[1] in (A, B) and isinstance(v[2], tuple) and v[2][0] == "slice":
            v = ("slice", v[1]) + v[2][1:]
        if v[0] == "slice" and v[1] in (A, B) and scalar(v[2]):
            if len(v) < 4 or v[3] == ("const", None):
                return ("A" if v[1] == A else "B", lin(v[2]), None)
            if scalar(v[3]):
                return ("A" if v[1] == A else "B", lin(v[2]), lin(v[3]))
    return None


# ------------------------------------------------------------------ B, D, E. the chunk generator
def size_total(fl, t, part):
    """True if the term is the number of samples of all ranges below mapping `part`; False if recognisably not; None unknown."""
    for x in alts(t):
        r = _total(fl, x, part)
        if r is not True:
            return r
    return True


def _total(fl, t, part):
    if t[0] != "call" or last(t[1]) != "sum" or len(t[3]) != 1 or t[4]:
        return None
    c = t[3][0]
    while c[0] == "call" and last(c[1]) in ("list", "tuple") and c[3]:
        c = c[3][0]
    if c[0] != "comp":
        return None
    e = c[2]
    if contains(e, lambda x: x[0] == "slice"):
        return False
    if e[0] == "call" and last(e[1]) == "sum":
        return _total(fl, e, part)
    if e[0] == "bin" and e[1] in ("Add", "Sub") and arith(e) and not (e[2][0] == "item" and e[3][0] == "item"):
        return False
    if e[0] == "bin" and e[1] == "Add" and arith(e):
        return False
    if e[0] != "bin" or e[1] != "Sub":
        return None
    hi, lo = e[2], e[3]
    if not (hi[0] == "item" and lo[0] == "item" and hi[1] == lo[1] and hi[1][0] == "elem"):
        return False if hi[0] == "item" and lo[0] == "item" else None
    if (hi[2], lo[2]) != (("const", 1), ("const", 0)):
        return False
    s3 = source(strip_order(hi[1][1]))
    s2 = source(s3[1]) if s3 else None
    if not s3 or not s2 or s3[0] != "val" or s2[0] != "val":
        return None
    return same(s2[1], part)


def arith(e):
    if e[0] == "bin" and e[1] in ("Add", "Sub"):
        return arith(e[2]) and arith(e[3])
    return e[0] == "const" or e[0] == "item" and e[1][0] == "elem"


def comp_filtered(fl, ins):
    """A comprehension between newcomp and the call consuming it has a condition."""
    t = ins.args[0] if ins.args else None
    d = defining(fl, t) if t is not None else None
    if d is None or d.op != "newcomp":
        return False
    el = [x for x in fl.g.of("elem") if x.args and x.args[0] == d.dst]
    heads = [h for h in fl.g.of("next") if any(h.frame is x.frame and any(y is x for y in body_of(h)) for x in el)]
    for h in heads:
        if any(x.op == "branch" for x in body_of(h)):
            return True
    return False


def generator(ctx):
    proj = ctx.proj
    c = proj.cls(QR)
    m = proj.find_method(c, "_chunk_generator")
    if m is None:
        raise AnchorError("QueryResult has no chunk generator")
    fl = ctx.flow(m, ctx.local_policy(m, c, stop=("_persist_mixture_log", "_persist_chunk_idx", "_update_key_id_map", "merge_sorted_lists")), selfcls=c)
    g = fl.g
    sends = [i for i in g.calls() if last(i.fn) == "send" and i.args]
    acc = []
    for s in sends:
        d = defining(fl, s.args[0])
        if d is not None and d.op == "item":
            acc.append((s, d))
        elif d is not None and d.op == "attr":
            ctx.part(plain_branch, ctx, fl, s)
        else:
            raise AnchorError(f"{s.loc}: size requested from a key not recognised")
    if len(acc) != 1:
        raise AnchorError(f"expected one place where parts of a mixture are requested, found {len(acc)}")
    s, d = acc[0]
    R, KEY = d.args[0], d.args[1]
    Rk, Rt, Kt = var_key(fl, R), strip_ids(fl.term(R)), strip_ids(fl.term(KEY))
    hs = loops_around(fl, s)
    if len(hs) < 2:
        raise AnchorError("loops around the request of a part not recognised")
    kh, ch = hs[-2], hs[-1]
    part = fl.term(s.dst)
    isR = lambda t: t is not None and strip_ids(fl.term(t)) == Rt
    isK = lambda t: t is not None and strip_ids(fl.term(t)) == Kt
    ctx.part(requests, ctx, fl, s, isR, Rt, Kt, kh)
    # ---- D: exactly one decrease by the number of samples received
    body = body_of(ch)
    sets = [i for i in body if i.op == "setitem" and isR(i.args[0])]
    for kind, at, path in segments(fl, [(s, None)], {ch.id, kh.id} | whiles(fl)):
        if kind in ("raise",):
            continue
        ws = [i for i, _ in path if i.op == "setitem" and isR(i.args[0])]
        pops = [i for i, _ in path if i.op == "call" and last(i.fn) in ("pop", "clear", "popitem") and isR(i.recv) or i.op == "delitem" and isR(i.args[0])]
        first = [i for i in ws if any(x is i for x in body)]
        if len(first) != 1:
            ctx.fail("account", "after receiving a part the remaining size of the key is " + ("not updated" if not first else "updated more than once"), s.loc)
            continue
        ctx.count("accounting_paths")
    for w in sets:
        v = defining(fl, w.args[2])
        if v is None or v.op != "bin" or v.data != "Sub":
            ctx.fail("account", "the remaining size of a key is not decreased by the size of the part received", w.loc)
            continue
        ld = defining(fl, v.args[0])
        if not isK(w.args[1]) or ld is None or ld.op != "item" or not isR(ld.args[0]) or not isK(ld.args[1]):
            ctx.fail("account", "the remaining size of another key is decreased", w.loc)
            continue
        sd = defining(fl, v.args[1])
        tot = size_total(fl, fl.term(v.args[1]), part)
        if tot is None:
            tot = acc_total(fl, v.args[1], part)
        if tot is None:
            raise AnchorError(f"{w.loc}: size of a part not recognised ({show(fl.term(v.args[1]))[:80]})")
        if tot and sd is not None and sd.op == "call" and comp_filtered(fl, sd):
            tot = False
        if not tot:
            ctx.fail("account", "a part is accounted with something other than the number of samples in all its ranges", w.loc)
        ctx.count("accounting_sizes")
    ctx.floor("accounting_sizes", 1)
    # ---- B: merge into the chunk
    ctx.part(merge_in, ctx, fl, s, part, Kt, ch, kh)
    # ---- E
    ctx.part(redistribute, ctx, fl, s, Rt, Kt, ch, kh)
    # ---- emitted only when complete
    ctx.part(emitted, ctx, fl, Rt)


def acc_total(fl, t, part):
    """Accumulation loops: v = 0; for … in …: v += end - start."""
    k = var_key(fl, t)
    if k is None:
        return None
    st = [x for x in fl.g.of("store") if x.data == k]
    zero = [x for x in st if fl.term(x.args[0]) == ("const", 0)]
    adds = [x for x in st if x not in zero]
    if not zero or not adds:
        return None
    ok = True
    for a in adds:
        d = fl.g.tempdef.get(a.args[0])
        while d is not None and d.op == "alias":
            d = fl.g.tempdef.get(d.args[0])
        if d is None or d.op != "bin" or d.data != "Add":
            return None
        inc = None
        for x, y in ((d.args[0], d.args[1]), (d.args[1], d.args[0])):
            l = fl.g.tempdef.get(x)
            if l is not None and l.op == "load" and l.data == k:
                inc = y
        if inc is None:
            return None
        e = fl.term(inc)
        if e[0] == "call" and last(e[1]) == "sum":
            return None
        r = _total(fl, ("call", "sum", None, (("comp", "gen", e),), (), 0), part)
        if r is not True:
            return r
        hs = loops_around(fl, a)
        if not hs:
            return None
        h = hs[-1]
        for kind, path in loop_paths(fl, h):
            if kind == "loop" and not any(i is a for i, _ in path):
                return False
            if kind in ("break", "return"):
                return False
    return ok


def merge_in(ctx, fl, s, part, Kt, ch, kh):
    g = fl.g
    P = strip_ids(part)
    dsh = [h for h in g.of("next") if same_source(fl, h, P)]
    body = body_of(ch)
    cand = []
    for fhd in g.of("next"):
        ht = fl.term(fhd.args[0])
        st = strip_order(ht)
        b = st[2] if st[0] == "call" and callname(st) in ("items", "keys", "values") and st[2] is not None else st
        so = source(b)
        if so is not None and so[0] == "val" and strip_ids(so[1]) == P and any(x.op == "setitem" or x.op == "call" and last(x.fn) in ("extend", "update") for x in body_of(fhd)):
            if any(x is fhd for x in body):
                cand.append((fhd, b))
    if len(cand) != 1:
        raise AnchorError("loop merging a part into the chunk not recognised")
    fh, files = cand[0]
    hs = loops_around(fl, fh)
    dsh = hs[-1]
    # always executed after a part has been received
    for kind, at, path in segments(fl, [(s, None)], {ch.id, kh.id} | whiles(fl)):
        if kind == "raise":
            continue
        if not any(i is dsh for i, _ in path):
            ctx.fail("merge-skip", "a part that was received can be dropped instead of being added to the chunk", at.loc)
    for kind, at, path in segments(fl, [(dsh, "next")], {dsh.id, fh.id}):
        if kind == "raise" or kind == "cut" and at is fh:
            continue
        r = execute(fl, path, frozenset())
        if r is not None and not any(empties(v, lab) for v, lab, _ in r.conds):
            ctx.fail("merge-skip", "a dataset of a received part can be left out of the chunk", at.loc)
    for kind, at, path in segments(fl, [(fh, "stop")], {dsh.id, fh.id}):
        if kind != "raise" and not (kind == "cut" and at is dsh):
            ctx.fail("merge-skip", "datasets of a received part can be left out of the chunk", at.loc)
    F = strip_ids(files)
    for kind, path in loop_paths(fl, fh):
        if kind == "raise":
            continue
        r = Snap(fl)
        for i, lab in path:
            r.do(i, lab)
        if infeasible(r.facts):
            continue
        if kind != "loop":
            ctx.fail("merge-skip", "files of a received part can be left out of the chunk", path[-1][0].loc)
            continue
        ws = [(n, i, a) for n, (i, a, _) in enumerate(r.events) if i.op == "setitem"]
        ex = [(i, a, rc) for i, a, rc in r.events if i.op == "call" and last(i.fn) == "extend"]
        if not ws and ex:
            ctx.fail("merge-order", "ranges of a file are appended to those already in the chunk without keeping them sorted", ex[0][0].loc)
            continue
        if len(ws) != 1:
            ctx.fail("merge-store", "a file's ranges are " + ("not stored in the chunk" if not ws else "stored more than once") + " on a path", path[-1][0].loc)
            continue
        ctx.count("merge_in_paths")
        _, w, (obj, key, val) = ws[0]
        ks = source(fl.term(w.args[1]))
        if ks is None or ks[0] != "key" or strip_ids(ks[1]) != F:
            ctx.fail("merge-place", "a file's ranges are stored under something other than the file they belong to", w.loc)
            continue
        ot = fl.term(w.args[0])
        okp = False
        for o in alts(ot):
            if o[0] == "item" and o[1][0] == "item" or o[0] == "call" and callname(o) == "setdefault":
                dk = o[2] if o[0] == "item" else o[3][0]
                up = o[1] if o[0] == "item" else o[2]
                mk = up[2] if up[0] == "item" else up[3][0] if up[0] == "call" and up[3] else None
                sd = source(dk)
                okp = sd is not None and sd[0] == "key" and strip_ids(sd[1]) == P and mk is not None and strip_ids(mk) == Kt
                if not okp:
                    break
            elif o[0] == "item":
                raise AnchorError(f"{w.loc}: place in the chunk not recognised")
        if not okp:
            ctx.fail("merge-place", "ranges are stored in the chunk under a key or dataset they do not belong to", w.loc)
            continue
        # the value: the part's ranges if the file is new, else merged with what is there
        here = item(obj, key)
        E = elem_of(r, fh)
        mine = [v for v in (item(E, Lin(1)), item(wrap(files), key))]
        v = val
        v = unwrap_list(v)
        isnew = None
        for cv, lab, bi in r.conds:
            x = cv
            pol = lab
            while isinstance(x, tuple) and x[0] == "not":
                x, pol = x[1], not pol
            if isinstance(x, tuple) and x[0] == "cmp" and x[1] in ("In", "NotIn") and x[2] == key and sameplace(x[3], obj):
                isnew = (x[1] == "NotIn") == pol
            elif isinstance(x, tuple) and x[0] == "cmp" and x[1] in ("Is", "IsNot") and x[3] == ("const", None) and is_get(x[2], obj, key):
                isnew = (x[1] == "Is") == pol
            elif is_get(x, obj, key):
                isnew = not pol
        if any(v == q or lin_eq(v, q) for q in mine):
            if isnew is not True:
                ctx.fail("merge-overwrite", "ranges of a file already in the chunk are overwritten instead of merged (samples lost)", w.loc)
        elif isinstance(v, tuple) and v[0] == "call" and (v[1] in ("merge_sorted_lists", "merge") or v[1] == "sorted"):
            args = [unwrap_list(x) for x in v[3]]
            if v[1] == "sorted" and len(args) == 1 and isinstance(args[0], tuple) and args[0][0] == "bin":
                args = list(args[0][2:4])
            old = [x for x in args if x == here or sameplace(x, here) or is_get(x, obj, key)]
            new = [x for x in args if any(x == q for q in mine)]
            if len(args) != 2 or not old or not new:
                ctx.fail("merge-value", "what is stored for a file is not the merge of its ranges in the chunk and the received ones", w.loc)
        elif isinstance(v, tuple) and v[0] == "bin" and v[1] == "Add" or isinstance(v, Lin) and len(v.m) == 2 and not v.c:
            ctx.fail("merge-order", "ranges of a file are appended to those already in the chunk without keeping them sorted", w.loc)
        else:
            raise AnchorError(f"{w.loc}: value stored for a file not recognised ({brief(v)[:80]})")
    ctx.floor("merge_in_paths", 1)


def lin_eq(a, b):
    return isinstance(a, Lin) and isinstance(b, Lin) and a == b


def unwrap_list(v):
    while isinstance(v, tuple) and v[0] == "call" and v[1] in ("list", "tuple") and v[3]:
        v = v[3][0]
    return v


def sameplace(a, b):
    if a == b:
        return True
    return isinstance(a, tuple) and isinstance(b, tuple) and strip_calls(a) == strip_calls(b)


def strip_calls(v):
    if isinstance(v, tuple):
        if v and v[0] == "call":
            return tuple(strip_calls(x) for x in v[:5])
        return tuple(strip_calls(x) for x in v)
    return v


def is_get(x, obj, key):
    return isinstance(x, tuple) and x[0] == "call" and x[1] == "get" and x[2] is not None and sameplace(x[2], obj) and x[3] and x[3][0] == key


def same_source(fl, h, P):
    return False


def requests(ctx, fl, s, isR, Rt, Kt, kh):
    """A key is asked only for samples that are needed: the splitter answers a request for none with an empty range, and the keys of a chunk
    would no longer be those with a share of it."""
    want = T(fl, s.args[0])
    sets = [i for i in fl.g.of("setitem") if isR(i.args[0])]
    ok = False
    it = defining(fl, kh.args[0]) if kh.args else None
    if it is not None and it.op == "iter":
        coll = base(T(fl, it.args[0]))
        ok = filtered(fl, ("call", "sum", None, (("comp", "gen", norm(("item", Rt, ("elem", coll)))),), ()))(coll)
    bad, _ = must_pass(fl, fl.g.entry, lambda i: i is s, lambda i: ok and i is kh, via_edge=lambda b, l: says_nonzero(T(fl, b.args[0]), l, want),
                       kill=lambda i: i is kh or any(i is x for x in sets), exc_done=lambda i: i is not s)
    ctx.count("requests")
    for ins, _, _ in bad:
        ctx.fail("request", "a key can be asked for zero samples: the chunk then has an empty range of a key without a share of it, which its reader rejects", ins.loc)


def redistribute(ctx, fl, s, Rt, Kt, ch, kh):
    """Best effort: what is missing for one key is moved to others, in the remaining sizes and in the chunk's mixture alike."""
    g = fl.g
    isR = lambda t: t is not None and strip_ids(fl.term(t)) == Rt
    # the chunk's mixture: what ResultChunk receives as mixture together with this chunk
    ms = set()
    for i in g.calls():
        if last(i.fn) == "ResultChunk" and (i.kw or {}).get("mixture") is not None:
            t = fl.term(i.kw["mixture"])
            if t != ("const", None):
                ms.add(strip_ids(t))
    if len(ms) != 1:
        raise AnchorError("mixture a chunk is emitted with not recognised")
    Mt = next(iter(ms))
    dc = lambda t: strip_ids(t)
    isM = lambda t: t is not None and dc(fl.term(t)) == Mt
    writes = [i for i in g.ins if i.op in ("setitem", "delitem") and (isR(i.args[0]) or isM(i.args[0])) or
              i.op == "call" and last(i.fn) in ("pop", "clear", "popitem", "update", "setdefault") and i.recv is not None and (isR(i.recv) or isM(i.recv))]
    inner = body_of(ch)
    writes = [w for w in writes if not any(x is w for x in inner)]
    # what the keys left can take over in proportion to: the sum of their shares of the chunk
    others = ("call", "sum", None, (("comp", "gen", ("item", norm(Mt), ("elem", norm(base(Rt))))),), ())
    heads = {h.id: h for w in writes for h in loops_around(fl, w)[-1:] if h is not kh and not any(x is kh for x in body_of(h))}
    loop_writes = {w.id for h in heads.values() for w in writes if any(x is w for x in body_of(h))}
    single = [w for w in writes if w.id not in loop_writes]
    if not any(isR(w.recv) if w.op == "call" else isR(w.args[0]) for w in single):
        # no best-effort at all: nothing to decide here
        raise AnchorError("best-effort redistribution not recognised")
    # paths from the end of the part loop to the next turn
    starts = [(ch, "stop")]
    outs = [(p, l) for p in inner + [ch] for q, l in p.succ if l not in ("exc", "exc-base", "stop") and q is not ch and not any(q is x for x in inner) and q.op not in ("assertfail", "raise", "reraise")]
    starts += outs
    n = 0
    for kind, at, path in segments(fl, starts, {kh.id} | {i.id for i in g.of("loop")} | {i.id for i in g.of("body")}):
        if kind == "raise":
            continue
        r = Snap(fl)
        for i, lab in path:
            r.do(i, lab)
        if infeasible(r.facts):
            continue
        rm, mv, gave_up = None, None, None
        visited = [h for h in heads.values() if any(i is h for i, _ in path)]
        for ins, args, recv in r.events:
            if ins.id in loop_writes:
                continue
            tgt = ins.recv if ins.op == "call" else ins.args[0] if ins.op in ("setitem", "delitem") else None
            if tgt is None or ins not in single:
                continue
            kt = strip_ids(fl.term(ins.args[0] if ins.op == "call" else ins.args[1])) if ins.args else None
            if isR(tgt) and ins.op == "call" and last(ins.fn) == "clear":
                gave_up = ins
                continue
            if kt != Kt:
                ctx.fail("best-effort", "the books of a key other than the unfinished one are changed", ins.loc)
                continue
            if isR(tgt):
                if ins.op == "setitem":
                    ctx.fail("best-effort", "the remaining size of an unfinished key is overwritten", ins.loc)
                else:
                    v = r.val.get(ins.dst) if ins.dst is not None else None
                    rm = (ins, args[0] if ins.op == "call" else args[1], v, recv if ins.op == "call" else args[0])
            else:
                key = args[0] if ins.op == "call" else args[1]
                if ins.op == "setitem":
                    mv = (ins, "set", lin(args[2]) if scalar(args[2]) else None, key, args[0])
                else:
                    mv = (ins, "del", None, key, recv if ins.op == "call" else args[0])
        n += 1
        if rm is None and mv is None:
            if visited:
                ctx.fail("best-effort", "samples are redistributed although none were taken from an unfinished key", visited[0].loc)
            continue
        ctx.count("best_effort_paths")
        if rm is None or mv is None:
            x = (rm or mv)[0]
            ctx.fail("best-effort", "an unfinished key is changed in only one of the remaining sizes and the chunk's mixture", x.loc)
            continue
        R = rm[3]
        emptyR, noshare = False, False
        for cv, lab, bi in r.conds:
            noshare = noshare or says_nonzero(T(fl, bi.args[0]), not lab, others, filtered(fl, others))
            x, pol = cv, lab
            while isinstance(x, tuple) and x[0] == "not":
                x, pol = x[1], not pol
            if isR(bi.args[0]) and not lab or x == R and not pol:
                emptyR = True
            ln = ("call", "len", None, (R,), ())
            if isinstance(x, tuple) and x[0] == "cmp" and any(ln == y or isinstance(y, Lin) and ln in [a for a, _ in y.m] for y in x[2:4]):
                emptyR = emptyR or implies(r.facts, -lin(ln))
        miss = [lin(item(rm[3], rm[1]))] + ([lin(rm[2])] if rm[2] is not None and scalar(rm[2]) else [])
        have = lin(item(mv[4], mv[3]))
        good = False
        for q in miss:
            if mv[1] == "set":
                good = good or mv[2] is not None and equal(r.facts, mv[2], have - q)
            else:
                good = good or equal(r.facts, have, q)
        if not good:
            ctx.fail("best-effort", "the chunk's mixture does not lose exactly the number of samples missing for the unfinished key", mv[0].loc)
        if gave_up is not None and not emptyR and not noshare:
            ctx.fail("best-effort", "a chunk is given up although other keys can take over the samples missing for an unfinished key", gave_up.loc)
        if not visited and not emptyR and not (noshare and gave_up is not None):
            ctx.fail("best-effort", "the samples missing for an unfinished key can be left undistributed although other keys remain", rm[0].loc)
    # the redistribution loop(s)
    for h in heads.values():
        for kind, path in loop_paths(fl, h):
            if kind == "raise":
                continue
            r = Snap(fl)
            for i, lab in path:
                r.do(i, lab)
            if kind != "loop":
                ctx.fail("redistribute", "redistribution can end before all keys were considered", path[-1][0].loc)
                continue
            if infeasible(r.facts):
                continue
            d = {"R": [], "M": []}
            for ins, args, recv in r.events:
                if ins.op == "setitem" and (isR(ins.args[0]) or isM(ins.args[0])):
                    w = "R" if isR(ins.args[0]) else "M"
                    if not scalar(args[2]):
                        raise AnchorError(f"{ins.loc}: redistributed amount not recognised")
                    d[w].append((ins, args[1], lin(args[2]) - lin(item(args[0], args[1]))))
            if not d["R"] and not d["M"]:
                if any(i.op == "branch" for i, _ in path):
                    # skipping an empty share is fine
                    if not all(any(_zero_share(cv, lab) for cv, lab, _ in r.conds) for _ in (0,)):
                        ctx.fail("redistribute", "a key can be passed over in the redistribution", path[-1][0].loc)
                continue
            ctx.count("redistribution_paths")
            if len(d["R"]) != 1 or len(d["M"]) != 1:
                ctx.fail("redistribute", "redistribution does not change the remaining size and the mixture of a key together", path[-1][0].loc)
                continue
            (i1, k1, d1), (i2, k2, d2) = d["R"][0], d["M"][0]
            if k1 != k2 or d1 != d2:
                ctx.fail("redistribute", "the remaining size and the mixture of a key are not increased by the same amount", i2.loc)
            # the amount is this key's share of the missing samples
            sh = [a for a, k in d1.m if k == 1]
            if len(d1.m) != 1 or d1.c or len(sh) != 1:
                ctx.fail("redistribute", f"a key does not receive exactly its share of the missing samples ({brief(d1)[:80]})", i1.loc)
    if not heads:
        ctx.fail("redistribute", "missing samples of an unfinished key are never redistributed", kh.loc)
    # shares come from distributing exactly the missing samples over exactly the remaining keys
    ds = [i for i in g.calls() if last(i.fn) == "distribute_by_ratio"]
    for i in ds:
        t = fl.term(i.args[0])
        okm = t[0] == "call" and callname(t) == "pop" and t[2] is not None and strip_ids(t[2]) == Rt or t[0] == "item" and strip_ids(t[1]) == Rt
        if not okm:
            ctx.fail("redistribute", f"the number of samples distributed is not the number missing ({show(t)[:60]})", i.loc)
        ctx.count("distributions")
    ctx.floor("best_effort_paths", 1)


def _zero_share(cv, lab):
    x, pol = cv, lab
    while isinstance(x, tuple) and x[0] == "not":
        x, pol = x[1], not pol
    if isinstance(x, tuple) and x[0] == "cmp":
        return True
    return not pol


def emitted(ctx, fl, Rt):
    """A chunk with a mixture is emitted only once nothing remains for any key."""
    g = fl.g
    conds = []
    for b in g.of("branch"):
        t = fl.term(b.args[0])
        neg = False
        while t[0] in ("un",) and t[1] == "Not" or t[0] == "not":
            t, neg = t[-1], not neg
        if t[0] == "call" and t[1] in ("all", "any") and t[3] and contains(t[3][0], lambda x: strip_ids(x) == Rt):
            conds.append((b, t, neg))
        elif t[0] == "cmp" and contains(t, lambda x: x[0] == "call" and x[1] == "sum" and x[3] and contains(x[3][0], lambda y: strip_ids(y) == Rt)):
            conds.append((b, t, neg))
    good = {}
    for b, t, neg in conds:
        if t[0] == "call" and t[1] == "all":
            e = t[3][0]
            x = e[2] if e[0] == "comp" and len(e) > 2 else None
            if x is not None and x[0] == "cmp" and x[1] in ("Eq", "LtE") and ("const", 0) in x[2:4]:
                good[b.id] = not neg
        elif t[0] == "call" and t[1] == "any":
            e = t[3][0]
            if e[0] == "call" and callname(e) == "values" or e[0] == "comp" and len(e) > 2 and (e[2][0] == "valof" or e[2][0] == "cmp" and e[2][1] in ("Gt", "NotEq")):
                good[b.id] = neg
        elif t[0] == "cmp" and t[1] in ("Eq", "LtE") and ("const", 0) in t[2:4]:
            good[b.id] = not neg
    targets = {}
    for i in g.calls():
        if last(i.fn) == "ResultChunk" and (i.kw or {}).get("mixture") is not None and fl.term(i.kw["mixture"]) != ("const", None):
            targets[i.id] = i
    if not targets:
        raise AnchorError("chunks with a mixture not recognised")
    sets = [i for i in g.ins if i.op == "setitem" and strip_ids(fl.term(i.args[0])) == Rt]
    bad, ex = must_pass(fl, g.entry, lambda i: i.id in targets, lambda i: False,
                        via_edge=lambda i, l: i.id in good and good[i.id] == l, kill=lambda i: i in sets, follow_exc=True)
    for ins, _, _ in bad:
        ctx.fail("emit-incomplete", "a chunk can be handed out although samples of a key are still missing", ins.loc)
    # once keys were removed (best effort), "nothing remains for any key" also holds when no key is left and the samples are missing
    isR = lambda t: t is not None and strip_ids(fl.term(t)) == Rt
    removals = [i for i in g.ins if i.op == "delitem" and isR(i.args[0]) or i.op == "call" and last(i.fn) in ("pop", "popitem", "clear") and i.recv is not None and isR(i.recv)]
    size = ("call", "len", None, (norm(Rt),), ())
    if removals:
        bad, ex = must_pass(fl, g.entry, lambda i: i.id in targets, lambda i: False, init=1, follow_exc=True,
                            via_edge=lambda b, l: says_nonzero(T(fl, b.args[0]), l, size), kill=lambda i: any(i is x for x in removals))
        for ins, _, _ in bad:
            ctx.fail("emit-incomplete", "a chunk can be handed out although its missing samples were taken over by no other key (no key is left)", ins.loc)
        ctx.count("emission_after_removal")
    ctx.count("emitting_sites", len(targets))


def plain_branch(ctx, fl, s):
    """Arbitrary mixture: the part received is handed out under the key it was taken from."""
    g = fl.g
    outer = None
    bodies = {i.id for i in g.of("body")}
    n = 0
    for kind, at, path in segments(fl, [(s, None)], bodies):
        if kind == "raise":
            continue
        r = Snap(fl)
        hs = [h for h in g.of("loop") if any(x is s for x in body_of(h))]
        r.havoc = stored_in([x for h in hs for x in body_of(h)])
        r.val[s.dst] = ("call", "send", None, (), (), s.id, 1)
        feasible = True
        for i, lab in path:
            if i is s:
                continue
            r.do(i, lab)
        if not none_ok(r, ("call", "send", None, (), (), s.id, 1)):
            continue
        for ins, args, recv in r.events:
            if ins.op == "call" and last(ins.fn) == "ResultChunk" and args:
                v = args[0]
                if isinstance(v, tuple) and v[0] == "call" and v[1] in ("defaultdict_to_dict", "dict") and v[3]:
                    v = v[3][0]
                if isinstance(v, tuple) and v[0] == "dictlit" and len(v) == 3:
                    n += 1
                    key, val = v[1], v[2]
                    if val != ("call", "send", None, (), (), s.id, 1):
                        ctx.fail("plain-part", "something other than the received part is handed out", ins.loc)
                    # key under which the generator was looked up, with the same variables
                    rk = Run(fl)
                    rk.havoc = r.havoc
                    kt = defining(fl, s.recv)
                    want = None
                    if kt is not None and kt.op == "item":
                        want = key_value(fl, kt.args[1], r.havoc)
                    if want is not None and want != key:
                        ctx.fail("plain-key", f"the part received for {brief(want)[:50]} is handed out under {brief(key)[:50]}", ins.loc)
                    ctx.count("plain_parts")
    if not n:
        raise AnchorError(f"{s.loc}: hand-out of a part of an arbitrary mixture not recognised")


def key_value(fl, t, havoc):
    """Value of the lookup key in terms of loop variables at the time of the request."""
    d = fl.g.tempdef.get(t)
    for _ in range(8):
        if d is None:
            return None
        if d.op == "load":
            rs = fl.rdefs(d, d.data)
            if len(rs) == 1 and rs[0] is not None:
                d2 = fl.g.tempdef.get(rs[0].args[0])
                if d2 is not None and d2.op in ("item", "load", "alias"):
                    d = d2
                    continue
            return ("var", d.data)
        if d.op == "alias":
            d = fl.g.tempdef.get(d.args[0])
            continue
        break
    if d is not None and d.op == "item":
        r = Run(fl)
        r.havoc = havoc
        base = r.v(d.args[0])
        kd = fl.g.tempdef.get(d.args[1])
        k = ("var", kd.data) if kd is not None and kd.op == "load" else r.v(d.args[1])
        return item(base, k)
    return None


def none_ok(r, v):
    for cv, lab, _ in r.conds:
        x, pol = cv, lab
        while isinstance(x, tuple) and x[0] == "not":
            x, pol = x[1], not pol
        if isinstance(x, tuple) and x[0] == "cmp" and x[1] in ("Is", "IsNot") and x[2] == v and x[3] == ("const", None):
            if (x[1] == "Is") == pol:
                return False
    return True


def run(ctx):
    ctx.rule("splitter: for every path between loop positions the appended ranges start where the previous one ended, stay inside the "
             "range, add up to the counted samples, never exceed the request, and the remainder continues exactly there; a yielded "
             "part is complete and never reused; leftovers are yielded; every dataset, file and range is visited under its own key")
    ctx.rule("merge: each step takes exactly the next range of one list, the smaller start first, until both lists are exhausted")
    ctx.rule("chunk generator: every received part is added to the chunk file by file (merged with what is there), accounted with the "
             "number of samples in its ranges; best-effort moves equal amounts between keys in both books; a chunk is emitted only when "
             "nothing remains; a key is asked only while samples of it are missing")
    ctx.part(splitter, ctx)
    ctx.part(merging, ctx)
    ctx.part(generator, ctx)
