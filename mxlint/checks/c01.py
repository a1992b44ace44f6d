"""C01: session-type agreement of client and server for every request."""
from ..core import *
from ..wire import *


def loops_of(flow, ins):
    """Innermost loop head ('next' instruction) whose body contains ins, or None."""
    g = flow.g
    best = None
    for h in g.of("next"):
        starts = [s for s, l in h.succ if l == "next"]
        seen, st = set(), list(starts)
        hit = False
        while st:
            x = st.pop()
            if x.id in seen or x is h:
                continue
            seen.add(x.id)
            if x is ins:
                hit = True
            st.extend(s for s, l in x.succ if l not in ("exc", "exc-base"))
        # in the body only if h is reachable again from ins
        if hit:
            seen2, st = set(), [s for s, l in ins.succ if l not in ("exc", "exc-base")]
            back = False
            while st:
                x = st.pop()
                if x is h:
                    back = True
                    break
                if x.id in seen2:
                    continue
                seen2.add(x.id)
                st.extend(s for s, l in x.succ if l not in ("exc", "exc-base"))
            if back and (best is None or h.id > best.id):
                best = h
    return best


def repeat_count(flow, head, side):
    """Canonical description of how many times the loop body runs: ('len', term) or ('value', term)."""
    it = flow.term(head.args[0])
    src = it[1] if it[0] == "iterof" else it
    if src[0] == "call" and src[1] in ("enumerate", "list", "tuple", "iter", "reversed") and src[3]:
        src = src[3][0]
    if src[0] == "call" and src[1] == "range" and src[3]:
        a = src[3]
        if len(a) == 1:
            n = a[0]
        elif len(a) == 2 and a[0] == ("const", 0):
            n = a[1]
        else:
            return ("other", src)
        if n[0] == "call" and n[1] == "len":
            return ("len", n[3][0])
        return ("value", n)
    return ("len", src)


def run(ctx):
    ctx.rule("For each request identifier: the language of (direction, codec, header width) words over all paths of every client "
             "session (cut at connection points) equals the language over all server paths after receiving that identifier "
             "(subset construction + product comparison); loops must be driven by the element count transferred immediately before.")
    cs = client_sessions(ctx)
    ctx.count("request_types", len(cs))
    ctx.floor("request_types", 14)
    for task in sorted(cs):
        sdfa, sev, sfl, snfa, ex = server_session(ctx, task)
        ctx.count("server_explored_states", len(ex.visited))
        for (name, sid), (cdfa, cev, cfl, cnfa) in sorted(cs[task].items()):
            ctx.count("session_pairs")
            ctx.count("field_sites", len(cev) + len(sev))
            bad = compare(cdfa, sdfa)
            for w, who in bad[:2]:
                ctx.fail(f"wire-mismatch:{task}", f"request {task} ({name}): the {'client' if who == 'a' else 'server'} can run the field "
                         f"sequence [{fmtw(w)}] which the {'server' if who == 'a' else 'client'} never does. client: "
                         f"{[fmtw(x) for x in words(cdfa) if x][:3]} server: {[fmtw(x) for x in words(sdfa) if x][:3]}",
                         (cev[0] if cev else sfl.g.entry).loc)
            ctx.sample(f"{task}: client {name} = server: {[fmtw(x) for x in words(cdfa) if x][:2]}")
            check_counts(ctx, task, cfl, cev, cnfa, "client")
        check_counts(ctx, task, sfl, sev, snfa, "server")


def check_counts(ctx, task, fl, evs, nfa, side):
    g = fl.g
    reps = {}
    for e in evs:
        h = loops_of(fl, e)
        if h is not None:
            reps.setdefault(h, []).append(e)
    for h, es in reps.items():
        ctx.count("repeated_fields")
        kind, t = repeat_count(fl, h, side)
        # the count must be a field transferred on every path just before the loop
        pre = _previous_events(nfa, es[0], es)
        ok = bool(pre)
        for k in pre:
            ins = g.ins[k[0]]
            c = codec_of(ins)
            if c[1] != "int":
                ok = False
            elif c[0] == "write":
                v = fl.term(bound_args(ins).get("data"))
                if kind == "len":
                    good = v[0] == "call" and v[1] == "len" and strip_ids(v[3][0]) == strip_ids(t)
                else:
                    good = strip_ids(v) == strip_ids(t)
                ok = ok and good
            else:
                v = ("call", ins.fn)
                src = t
                ok = ok and kind == "value" and src[0] == "call" and src[-1] == ins.id
        if not ok:
            ctx.fail(f"repeat-count:{task}:{side}", f"request {task}: the {side} repeats {fmt(event_label(fl, es[0], side))} "
                     f"{kind} {show(t)} times, which is not the count field transferred immediately before", es[0].loc)


def _previous_events(nfa, ins, loop_evs):
    """Event keys that can immediately precede the first loop event from outside the loop."""
    ids = {e.id for e in loop_evs}
    rev = {}
    for a, bs in nfa.edges.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    st = [k for k in nfa.label if k[0] == ins.id]
    seen, out = set(st), set()
    while st:
        x = st.pop()
        for p in rev.get(x, ()):
            if p in seen:
                continue
            seen.add(p)
            if nfa.label.get(p) is not None:
                if p[0] not in ids:
                    out.add(p)
                continue
            st.append(p)
    return out
