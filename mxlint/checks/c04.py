"""C04: every codec pair decodes exactly what it encoded."""
import re
import struct

from ..core import *
from ..wire import *
from ..wire import NU
from .util import *

UTF8 = {"utf-8", "utf8", "UTF-8", "UTF8"}


def parts(fl, t):
    """Pieces of a byte-string term in transmission order."""
    if t[0] == "bin" and t[1] == "Add":
        return parts(fl, t[2]) + parts(fl, t[3])
    if t[0] in ("list", "tuple"):
        return [p for x in t[1:] for p in parts(fl, x)]
    if t[0] == "call" and t[1] in ("bytes", "bytearray", "memoryview") and len(t[3]) == 1:
        return parts(fl, t[3][0])
    if t[0] == "call" and t[1] == ".join" and t[2] == ("const", b"") and t[3]:
        return parts(fl, t[3][0])
    return [t]


def arg(t, i, name, default=None):
    if len(t[3]) > i:
        return t[3][i]
    return dict(t[4]).get(name, default)


def classify(t):
    """('int', value, width, order, signed) | ('pack', fmt, value) | ('raw', term)"""
    if t[0] == "call" and callname(t) == "to_bytes" and t[2] is not None:
        return ("int", t[2], arg(t, 0, "length"), arg(t, 1, "byteorder", ("const", "big")), dict(t[4]).get("signed", ("const", False)))
    if t[0] == "call" and callname(t) == "to_bytes" and t[3]:  # int.to_bytes(value, ...)
        return ("int", t[3][0], arg(t, 1, "length"), arg(t, 2, "byteorder", ("const", "big")), dict(t[4]).get("signed", ("const", False)))
    if t[0] == "call" and callname(t) == "pack" and "struct" in t[1] and len(t[3]) == 2 and t[3][0][0] == "const":
        return ("pack", t[3][0][1], t[3][1])
    if t[0] == "const" and isinstance(t[1], bytes):
        return ("lit", t[1])
    return ("raw", t)


def run(ctx):
    p = ctx.proj
    ctx.rule("For every write_X/read_X pair: each byte layout the encoder can emit (path-sensitive word of fixed-width integers, packed "
             "values and payloads) is matched against the decoder; it must issue exactly the matching reads (widths, order, "
             "signedness of data, payload length = preceding header = len(payload)) and its result must reduce to the encoded argument "
             "(inverse pairs to_bytes/from_bytes, pack/unpack, encode/decode, dumps/loads, np.save/np.load without pickle).")
    pairs = 0
    for codec in CODECS:
        w = find(p, f"write_{codec}")
        r = find(p, f"read_{codec}")
        if w is None or r is None or codec == "bytes":
            continue
        pairs += 1
        check_pair(ctx, codec, w, r)
    ctx.count("codec_pairs", pairs)
    ctx.floor("codec_pairs", 6)


def find(p, name):
    for f in p.funcs.values():
        if f.name == name and f.module.name == NU and f.cls is None:
            return f
    return None


def width_index(f, t):
    """Canonical identity of a width: constant, or position among the width parameters."""
    if t is None:
        return None
    if t[0] == "const":
        return ("const", t[1])
    if t[0] == "call" and callname(t) == "calcsize" and t[3] and t[3][0][0] == "const":
        return ("const", struct.calcsize(t[3][0][1]))
    if t[0] == "param":
        ps = [x for x in f.params() if x in WIDTH_PARAMS]
        return ("w", ps.index(t[1])) if t[1] in ps else ("p", t[1])
    return ("t", strip_ids(t))


def writer_words(ctx, codec, w):
    def pol(fi, call, frame):
        return fi.module.name == NU

    fl = ctx.flow(w, pol, key="codec-w")
    g = fl.g

    def ev(ins):
        if ins.op == "call" and ins.data in ("write", "writelines") and ins.recv is not None:
            rt = fl.term(ins.recv)
            if rt[0] == "param" and rt[1] == wp(w):
                return [classify(x) for x in parts(fl, fl.term(ins.args[0]))]
        return None

    cache = {}

    def step(ins, st):
        e = ev(ins) if ins.id not in cache else cache[ins.id]
        cache[ins.id] = e
        if e:
            if len(st[0]) > 12:
                return None
            return [(st[0] + tuple(e), st[1])]
        return [st]

    data = dparam(w)

    def edge(ins, succ, lab, st):
        # remember what the path assumes about the data parameter
        if ins.op == "branch" and lab in (True, False):
            v = none_test(fl, ins, ("param", data))
            if v is not None:
                return (st[0], (v == lab))
        return st

    def hook(d):
        if d.op == "call" and d.data in ("getvalue", "encode", "dumps", "to_bytes", "tobytes"):
            return "notnone"
        if d.op == "load":
            t = fl.term(d.dst)
            if t[0] == "call" and callname(t) in ("getvalue", "encode", "dumps", "to_bytes", "tobytes"):
                return "notnone"
        return None

    ex = Explorer(fl, step, edge=edge, follow_exc=False, hook=hook)
    vis = ex.run(((), None))
    out = set()
    for k in vis:
        if k[0] == g.exit.id:
            out.add(k[2])
    return fl, out


def none_test(fl, br, term):
    """truth value of the branch for which `term is None` holds, else None"""
    d = fl.g.tempdef.get(br.args[0])
    neg = False
    while d is not None and (d.op in ("alias", "await") or (d.op == "unary" and d.data == "Not")):
        if d.op == "unary":
            neg = not neg
        d = fl.g.tempdef.get(d.args[0])
    if d is not None and d.op == "cmp" and d.data in ("Is", "IsNot", "Eq", "NotEq"):
        l, r = fl.term(d.args[0]), fl.term(d.args[1])
        for a, b in ((l, r), (r, l)):
            if a == term and b == ("const", None):
                v = d.data in ("Is", "Eq")
                return (not v) if neg else v
    return None


def wp(f):
    for x in f.params():
        if x == "writer":
            return x
    return [x for x in f.params() if "write" in x][0]


def dparam(f):
    return f.params()[0]


def check_pair(ctx, codec, w, r):
    wfl, words_ = writer_words(ctx, codec, w)
    data = dparam(w)
    ctx.count("layouts", len(words_))
    if not words_:
        ctx.fail(f"no-layout:{codec}", f"write_{codec} emits nothing", w.module.rel)

    def pol(fi, call, frame):
        return fi.module.name == NU and fi.name != "read_bytes"

    rfl = ctx.flow(r, pol, key="codec-r")
    g = rfl.g
    rds = [i for i in g.live if i.op == "call" and getattr(i.target, "name", None) == "read_bytes"]
    ctx.count("read_sites", len(rds))
    # position of each read
    pos = {}

    def pstep(ins, st):
        if ins in rds:
            pos.setdefault(ins.id, set()).add(st)
            return [min(st + 1, 9)]
        return [st]

    Explorer(rfl, pstep, follow_exc=False).run(0)
    rid = {i.id: i for i in rds}

    def rd_of(t):
        if t[0] == "call" and t[1] == "read_bytes" and t[-1] in rid:
            return t[-1]
        if t[0] == "call" and t[1] in ("bytes", "bytearray", "memoryview") and len(t[3]) == 1:
            return rd_of(t[3][0])
        if t[0] == "phi":
            xs = {rd_of(x) for x in t[1] if x != ("const", None)}
            return xs.pop() if len(xs) == 1 else None
        return None

    def int_rd(t):
        """read id if t is an integer decoded from a read: (id, order, signed)"""
        if t[0] == "phi":
            xs = {int_rd(x) for x in t[1] if x != ("const", None)}
            return xs.pop() if len(xs) == 1 else None
        if t[0] == "call" and callname(t) == "from_bytes" and t[3]:
            i = rd_of(t[3][0])
            if i is not None:
                return (i, arg(t, 1, "byteorder", ("const", "big")), dict(t[4]).get("signed", ("const", False)))
        return None

    for word, isnone in sorted(words_, key=str):
        carries = any(contains(e, lambda x: x == ("param", data)) for e in word if True) or isnone is False
        wtxt = "[" + " ".join(f"{e[0]}({show(e[1]) if isinstance(e[1], tuple) else e[1]})" for e in word) + "]"
        ctx.count("replayed_layouts")
        ctx.sample(f"{codec}: {wtxt}")

        def hook(d, word=word):
            if d.op in ("load", "call", "alias", "await"):
                t = rfl.term(d.dst) if d.dst is not None else None
                if t is None:
                    return None
                ir = int_rd(t)
                if ir:
                    ps = pos.get(ir[0], set())
                    if len(ps) == 1:
                        k = next(iter(ps))
                        if k < len(word) and word[k][0] == "int":
                            v = word[k][1]
                            if v[0] == "const":
                                return ("c", v[1])
                            if v[0] == "call" and v[1] == "len":
                                return "truthy"
                    return "notnone"
                rr = rd_of(t)
                if rr is not None and d.op != "await":
                    return "truthy"
            if d.op == "cmp" and len(d.args) == 2:
                # a transmitted payload length is positive
                for a, b, sw in ((d.args[0], d.args[1], False), (d.args[1], d.args[0], True)):
                    ir = int_rd(rfl.term(a))
                    if ir and rfl.term(b) == ("const", 0):
                        ps = pos.get(ir[0], set())
                        k = next(iter(ps)) if len(ps) == 1 else 99
                        if k < len(word) and word[k][0] == "int" and word[k][1][0] == "call" and word[k][1][1] == "len":
                            op = {"Lt": "Gt", "Gt": "Lt", "LtE": "GtE", "GtE": "LtE"}.get(d.data, d.data) if sw else d.data
                            if op in ("Gt", "GtE", "NotEq"):
                                return ("c", True)
                            if op in ("Lt", "LtE", "Eq"):
                                return ("c", False)
            if d.op == "cmp" and d.data in ("Eq", "NotEq"):
                # the length of what was read is the requested length
                for a, b in ((d.args[0], d.args[1]), (d.args[1], d.args[0])):
                    ta, tb = rfl.term(a), rfl.term(b)
                    if ta[0] == "call" and ta[1] == "len" and rd_of(ta[3][0]) is not None:
                        q = rid[rd_of(ta[3][0])]
                        if strip_ids(rfl.term(bound_args(q).get("num_bytes"))) == strip_ids(tb):
                            return ("c", d.data == "Eq")
            return None

        def rstep(ins, st):
            if ins.id in rid:
                return [st + (ins.id,)] if len(st) < 10 else None
            return [st]

        ex = Explorer(rfl, rstep, follow_exc=False, hook=hook)
        vis = ex.run(())
        ends = {}
        fr = g.frames[0]
        for k in vis:
            i = g.ins[k[0]]
            if i is g.exit:
                ends.setdefault(k[2], [])
            if i.op == "return" and i.frame is fr:
                ends.setdefault(k[2], []).append(i)
        fails = [k for k in vis if g.ins[k[0]] is g.raise_exit]
        if not ends:
            ctx.fail(f"layout-rejected:{codec}", f"read_{codec} cannot complete on what write_{codec} emits {wtxt}", r.module.rel)
            continue
        if fails:
            ctx.fail(f"layout-rejected:{codec}", f"read_{codec} raises on what write_{codec} emits {wtxt}", r.module.rel)
        for rw, rets in ends.items():
            ctx.count("decode_paths")
            bad = match(word, rw, w, r, wfl, rfl, rid, int_rd)
            if bad:
                ctx.fail(f"layout-mismatch:{codec}", f"write_{codec} emits {wtxt} but read_{codec} {bad}", (rid[rw[-1]].loc if rw else r.module.rel))
                continue
            for ret in rets:
                t = rfl.term(ret.args[0]) if ret.args else ("const", None)
                if carries and word:
                    vs = [x for x in alts(t) if x != ("const", None)]
                    ok = bool(vs) and all(reduces(x, rw, word, wfl, rd_of, int_rd, ("param", data)) for x in vs)
                    if not ok:
                        ctx.fail(f"decode-not-inverse:{codec}", f"read_{codec} returns {show(t)} for {wtxt}, which is not the value "
                                 f"given to write_{codec}", ret.loc)
                else:
                    if ("const", None) not in alts(t):
                        ctx.fail(f"absent-value:{codec}", f"read_{codec} returns {show(t)} for an absent value {wtxt}", ret.loc)
    # no executable content for arrays
    if codec == "numpy_array":
        for c in g.calls(lambda i: (i.fn or "").split(".")[-1] in ("load", "loads")):
            kw = {k: rfl.term(v) for k, v in (c.kw or {}).items()}
            if kw.get("allow_pickle", ("const", False)) != ("const", False) or "dill" in c.fn or "pickle" in c.fn:
                ctx.fail("array-pickle", f"{c.fn} may deserialise executable content from the network", c.loc)


def match(word, rw, w, r, wfl, rfl, rid, int_rd):
    if len(rw) != len(word):
        return f"issues {len(rw)} reads for {len(word)} fields"
    for k, (e, i) in enumerate(zip(word, rw)):
        nb = rfl.term(bound_args(rid[i]).get("num_bytes"))
        if e[0] == "int":
            if width_index(w, e[2]) != width_index(r, nb):
                return f"reads field {k} with width {show(nb)} instead of {show(e[2])}"
            # interpretation sites
            uses = set()
            for x in rfl.g.live:
                if x.op == "call" and x.data == "from_bytes":
                    q = int_rd(rfl.term(x.dst))
                    if q and q[0] == i:
                        uses.add(q[1:])
            if not uses:
                return f"never interprets field {k} as an integer"
            for order, signed in uses:
                if order != e[3]:
                    return f"interprets field {k} with byte order {show(order)} instead of {show(e[3])}"
                if not (e[1][0] == "const" or (e[1][0] == "call" and e[1][1] == "len")) and signed != e[4]:
                    return f"interprets field {k} with signed={show(signed)} instead of {show(e[4])}"
        elif e[0] == "pack":
            if width_index(r, nb) != ("const", struct.calcsize(e[1])):
                return f"reads {show(nb)} bytes for {e[1]!r}"
            if re.search("[ef]", e[1]):
                return f"gets field {k} in a format ({e[1]!r}) that does not represent every float"
        elif e[0] == "raw":
            q = int_rd(nb)
            if q is None:
                return f"reads payload {k} with length {show(nb)}, not the transmitted length"
            j = rw.index(q[0]) if q[0] in rw else -1
            if j < 0 or word[j][0] != "int":
                return f"payload length of field {k} is not a transmitted header"
            v = word[j][1]
            if not (v[0] == "call" and v[1] == "len" and strip_ids(v[3][0]) == strip_ids(e[1])):
                return f"header before payload {k} is {show(v)}, not the payload's length"
        else:
            return f"field {k} has unknown shape {e[0]}"
    return None


def reduces(t, rw, word, wfl, rd_of, int_rd, target):
    """decoder result t over the reads rw of the emitted word equals target"""
    q = int_rd(t)
    if q is not None and q[0] in rw:
        e = word[rw.index(q[0])]
        return e[0] == "int" and e[1] == target
    i = rd_of(t)
    if i is not None and i in rw:
        e = word[rw.index(i)]
        return e[0] == "raw" and e[1] == target
    if t[0] == "call":
        cn = callname(t)
        if cn == "decode" and t[2] is not None:
            i = rd_of(t[2])
            if i in rw:
                e = word[rw.index(i)]
                x = e[1]
                return e[0] == "raw" and x[0] == "call" and callname(x) == "encode" and x[2] == target and enc(t) and enc(x) and strict(t) and strict(x)
        if cn in ("loads",) and t[3]:
            i = rd_of(t[3][0])
            if i in rw:
                e = word[rw.index(i)]
                x = e[1]
                return e[0] == "raw" and x[0] == "call" and callname(x) == "dumps" and x[3][:1] == (target,) and x[1].split(".")[0] == t[1].split(".")[0]
        if cn == "load" and t[3] and t[3][0][0] == "call" and callname(t[3][0]) == "BytesIO":
            i = rd_of(t[3][0][3][0]) if t[3][0][3] else None
            if i in rw:
                e = word[rw.index(i)]
                x = e[1]
                if e[0] == "raw" and x[0] == "call" and callname(x) in ("getvalue", "getbuffer") and x[2] is not None:
                    buf = x[2]
                    saves = [c for c in wfl.g.calls(lambda z: (z.fn or "").split(".")[-1] == "save")
                             if len(c.args) >= 2 and wfl.term(c.args[0]) == buf]
                    return len(saves) == 1 and wfl.term(saves[0].args[1]) == target
    if t[0] == "item" and t[2] == ("const", 0) and t[1][0] == "call" and callname(t[1]) == "unpack" and len(t[1][3]) == 2:
        i = rd_of(t[1][3][1])
        if i in rw and t[1][3][0][0] == "const":
            e = word[rw.index(i)]
            return e[0] == "pack" and e[1] == t[1][3][0][1] and e[2] == target
    return False


def enc(t):
    e = arg(t, 0, "encoding", ("const", "utf-8"))
    return e[0] == "const" and e[1] in UTF8


def strict(t):
    e = arg(t, 1, "errors", ("const", "strict"))
    return e == ("const", "strict")
