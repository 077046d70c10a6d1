"""Content decoding control.  For each direction the function that sets up
the decoder chain, the one that feeds it and the one that receives its output
are abstractly executed with every fact left open (header value, configured
limits, decoder results, times, counters); on every path the chain built, the
data handed on, the counters and the result must be those of the
specification."""
from absint import AI, St, mk, INT, REF, SOME, NONE, OK, ERR, UNIT, AGG, OPT, RES, ORD, show, EQ, LT, project, arith, BIT, ty_base
import parser as P
import chunk as K
import dtable as D
import props.p13 as H
from parser import CP, TX, domset, fld

CE = "decompressors::HtpContentEncoding"
DEC = "decompressors::Decompressor"
OPTS = "decompressors::Options"
CODED = ("GZIP", "DEFLATE", "ZLIB", "LZMA")
FAST = (("gzip", "GZIP"), ("x-gzip", "GZIP"), ("deflate", "DEFLATE"), ("x-deflate", "DEFLATE"), ("lzma", "LZMA"),
        ("inflate", "NONE"), ("none", "NONE"))
CFGV = mk("proj", mk("sym", "connp"), ("f", CP, "cfg"))


class Mon(P.Base):
    pass


def opt(name):
    return mk("proj", mk("proj", CFGV, ("f", P.CFG, "compression_options")), ("f", OPTS, name))


def run(ctx):
    p = ctx.prog
    for d, o in (("request", "req"), ("response", "resp")):
        setup(ctx, p, d, o)
        feed(ctx, p, d, o)
        output(ctx, p, d, o)


def dec_methods(p):
    r = {}
    for n in ("prepend", "new_with_callback", "decompress", "finish", "set_passthrough", "time_spent", "callback_inc", "timer_reset"):
        for f in p.method("Decompressor", n):
            r[n] = f.id
    return r


def strip(ai, fr, st, v):
    for _ in range(8):
        if v.k == "ref":
            v = ai.deref(fr, st, v)
        elif v.k == "proj" and v.a[1] in ("*", ("t", 0)):
            v = v.a[0]
        elif v.k == "app" and v.a[0] in ("slice_of", "as_slice", "box"):
            v = v.a[1]
        elif v.k == "agg" and v.a[0] == "bstr::Bstr":
            v = v.a[2][0][1]
        else:
            break
    return v


def machine(p, mon, extra, concrete=False):
    ix = P.log_intrinsics(p)
    ix.update(P.tx_intrinsics(p))
    ix.update(K.bstr_ops(p))
    ix.update(H.cmp_intrinsics(p))
    ix.update(D.header_intrinsics(p))

    def find(ai, fr, st, c):
        n = D.text(ai, fr, st, c.args[1])
        if n is None:
            return None
        return [(mk("app", "find", strip(ai, fr, st, c.args[0]), mk("bytes", tuple(n.lower()))), st)]
    for m in ("index_of_nocase_nozero", "index_of_nocase"):
        for f in p.method("Bstr", m):
            ix[f.id] = find
    ix.update(extra)
    ot = {"connp": CP, "req": TX, "resp": TX}
    ot.update(D.objects())
    ai = AI(p, monitor=mon, objtypes=ot, tracked_all=True, relevant={x for x in ix if x in p.fns}, intrinsics=ix,
            step_cap=400000, state_cap=8000)
    ai.concrete_seq = concrete
    return ai


def log(st, *ev):
    s = st.clone()
    s.mon = s.mon + (ev,)
    return s


# ------------------------------------------------------------------ setting up
def setup(ctx, p, d, o):
    f = P.one(ctx, d + "_initialize_decompressors")
    cb = P.one(ctx, d + "_decompressor_callback")
    if f is None or cb is None:
        return
    dm = dec_methods(p)
    if not {"prepend", "new_with_callback"} <= set(dm):
        ctx.violation("anchor:decompressor", "Decompressor::{prepend,new_with_callback} are gone")
        return
    mon = Mon(ctx, f.name)
    ce = mk("proj", D.hobj(d, "content-encoding"), ("f", D.HDR, "value"))
    splits = {}

    def call(ai, fr, st, c):
        if c.decl and c.decl.split("::")[-1] == "split" and "[T]" in c.decl + (c.res or "") and toks is not None:
            v = strip(ai, fr, st, c.args[0])
            if v is not ce and not (v.k == "proj" and v.a[0] is ce):
                mon.bad("split-subject", "%s splits %s instead of the Content-Encoding value" % (f.where(), show(v)[:80]))
            if show(c.args[1]) not in splits:
                splits[show(c.args[1])] = 1
                check_split(ctx, ai, mon, f, fr, st, c, c.args[1])
            return [(mk("app", "cseq", *[mk("sym", t) for t in toks]), st)]
        return None
    mon.call = call

    def build(kind):
        def h(ai, fr, st, c):
            if kind == "prepend":
                prev, enc, options = c.args[0], c.args[1], c.args[2]
            else:
                prev, enc, options = None, c.args[0], c.args[2]
                check_callback(p, ai, mon, f, cb, fr, st, c, c.args[1])
            ov = strip(ai, fr, st, options)
            if ov is not mk("proj", CFGV, ("f", P.CFG, "compression_options")):
                mon.bad("options", "%s makes a decoder with options %s instead of the configured ones" % (f.where(), show(ov)[:80]))
            n = sum(1 for e in st.mon if e[0] == "dec")
            out = []
            r = mk("app", "built", INT(n))
            for ev in sorted(domset(ai, st, enc, CE)):
                s1 = st.clone()
                if not ai.restrict(s1, enc, "in", frozenset((ev,)), CE):
                    continue
                for v, s in ai.cases(s1, r, RES):
                    new = mk("app", "dec", INT(n))
                    s = log(s, "dec", kind, prev, ev, v, new)
                    out.append((OK(new) if v == "Ok" else ERR(mk("app", "builderr", INT(n))), s))
            return out
        return h

    def cbh(ai, fr, st, c):
        return [(mk("app", "cbret"), log(st, "cb", c.args[0], c.args[1]))]
    ix = {dm["prepend"]: build("prepend"), dm["new_with_callback"]: build("new"), cb.id: cbh}
    slot0 = mk("proj", mk("sym", o), ("f", TX, d + "_decompressor"))
    enc0 = mk("proj", mk("sym", o), ("f", TX, d + "_content_encoding"))
    pr0 = mk("proj", mk("sym", o), ("f", TX, d + "_content_encoding_processing"))
    enabled = mk("proj", CFGV, ("f", P.CFG, d + "_decompression_enabled"))
    has = mk("app", "has", o)
    present = D.hdr(d, "content-encoding")

    def eq(e, kind, subj, text, name):
        # a value equals at most one of the constants
        for t, x in FAST:
            if t != text and domset(e.ai, e.st, mk("app", "cmp", mk("str", kind), subj, mk("bytes", tuple(t.encode()))), ORD) == {"Equal"}:
                return False
        return e.oneof(mk("app", "cmp", mk("str", kind), subj, mk("bytes", tuple(text.encode()))), ORD, ("Equal",),
                       "%s = %s" % (name, text))

    def limit(e, f_, n, nm):
        """n layers exceed the configured limit"""
        return e.some(opt(f_), nm + " limited") and e.true(LT(project(opt(f_), ("v", "Some", "0")), INT(n)),
                                                          "%s limit < %d" % (nm, n))

    def oracle(e):
        if not e.true(has, "transaction"):
            return {"err": True, "chain": [], "enc": None}
        slow = False
        enc = "NONE"
        if e.true(present, "content-encoding"):
            for t, x in FAST:
                if eq(e, "nozero", ce, t, "value"):
                    enc = x
                    break
            else:
                slow = True
        on = e.true(enabled, "enabled")
        r = {"enc": enc, "proc": enc if on else "NONE", "chain": [], "err": False}
        if not on:
            return r
        want = []
        if enc != "NONE":
            want = [enc]
        elif slow:
            layers = lz = 0
            for t in toks:
                tv = mk("sym", t)
                if e.true(EQ(mk("app", "len", mk("proj", tv, "*")), INT(0)), t + " empty"):
                    continue
                layers += 1
                if limit(e, "layer_limit", layers, "layer"):
                    break
                if e.some(mk("app", "find", tv, mk("bytes", tuple(b"gzip"))), t + " has gzip"):
                    want.append("GZIP")
                elif e.some(mk("app", "find", tv, mk("bytes", tuple(b"deflate"))), t + " has deflate"):
                    want.append("DEFLATE")
                elif eq(e, "exact", tv, "lzma", t):
                    lz += 1
                    if limit(e, "lzma_layers", lz, "lzma"):
                        break
                    want.append("LZMA")
        have = e.some(slot0, "decoder already there")
        for i, x in enumerate(want):
            okv = e.variant(mk("app", "built", INT(i)), RES, "decoder %d" % i) == "Ok"
            r["chain"].append((x, okv))
            if not have:
                r["proc"] = x
            have = True
            if not okv:
                r["err"] = True
                break
        return r
    rows = 0
    for toks in (("t0",), ("t0", "t1"), ("t0", "t1", "t2")):
        ai = machine(p, mon, ix, True)
        st = St({}, {}, (("pin", slot0, enc0, pr0, enabled, has, present),))
        if len(toks) > 1:
            # the rows for the fast path were those of the single-token scenario
            ok = ai.assume(st, has, 1) and ai.assume(st, enabled, 1) and ai.assume(st, present, 1)
            for t, x in FAST:
                ai.restrict(st, mk("app", "cmp", mk("str", "nozero"), ce, mk("bytes", tuple(t.encode()))), "out", frozenset(("Equal",)), ORD)
            assert ok
        if len(toks) == 3:
            # counting only: nonempty lzma tokens
            for t in toks:
                tv = mk("sym", t)
                ai.assume(st, EQ(mk("app", "len", mk("proj", tv, "*")), INT(0)), 0)
                for w in (b"gzip", b"deflate"):
                    ai.restrict(st, mk("app", "find", tv, mk("bytes", tuple(w))), "in", frozenset(("None",)), OPT)
        outs = ai.run(f.id, [REF(("o", "connp"))], st)
        ctx.used(ai)
        for ret, s in outs:
            for s2, x, trace in D.explore(ai, s, oracle, 20000):
                rows += 1
                w = "; ".join("%s=%s" % (n if isinstance(n, str) else show(n)[:60], v) for n, v in trace)
                rd = domset(ai, s2, ret, RES)
                if rd != {"Err" if x["err"] else "Ok"}:
                    mon.bad("result", "%s returns %s instead of %s; when %s" % (f.where(), sorted(rd), "Err" if x["err"] else "Ok", w))
                if x["enc"] is None:
                    if domset(ai, s2, P.err_of(ret), P.HS) != {"ERROR"}:
                        mon.bad("no-transaction", "%s without a transaction returns %s, not ERROR" % (f.where(), show(ret)[:60]))
                    continue
                ev = [e for e in s2.mon if e[0] == "dec"]
                got = [(e[3], e[4] == "Ok") for e in ev]
                if got != x["chain"]:
                    mon.bad("chain", "%s sets up the decoders %s instead of %s; when %s" % (
                        f.where(), fmt(got), fmt(x["chain"]), w))
                    continue
                # every decoder is put in front of the one before it
                have = ("x", project(slot0, ("v", "Some", "0"))) if domset(ai, s2, slot0, OPT) == {"Some"} else None
                for e in ev:
                    if (e[1] == "new") != (have is None) or (have is not None and strip(ai, None, s2, e[2]) is not have[1]):
                        mon.bad("order", "%s: the %s decoder is %s rather than %s; when %s" % (
                            f.where(), e[3], "a fresh chain" if e[1] == "new" else "put in front of " + show(e[2])[:60],
                            "a fresh chain" if have is None else "put in front of the one before it", w))
                    have = ("x", e[5])
                for k, t in ((d + "_content_encoding", x["enc"]), (d + "_content_encoding_processing", x["proc"])):
                    v = fld(ai, s2, o, TX, k)
                    if domset(ai, s2, v, CE) != {t}:
                        mon.bad(k, "%s: %s becomes %s, not %s; when %s" % (f.where(), k, sorted(domset(ai, s2, v, CE)), t, w))
                if not x["err"]:
                    sl = fld(ai, s2, o, TX, d + "_decompressor")
                    last = ev[-1][5] if ev else None
                    good = sl is slot0 if last is None else (sl.k == "agg" and sl.a[1] == "Some" and strip(ai, None, s2, sl.a[2][0][1]) is last)
                    if not good:
                        mon.bad("slot", "%s leaves %s in the decoder slot instead of %s; when %s" % (
                            f.where(), show(sl)[:80], "what was there" if last is None else "the whole chain", w))
                ctx.ok("setup row", "%s %s" % (d, w))
    ctx.floor(d + " setup rows", rows, 60)
    ctx.floor(d + " splits", len(splits), 1)


def fmt(c):
    return "[%s]" % ", ".join(a + ("" if b else " (failed)") for a, b in c)


def unbox(ai, fr, st, v):
    for _ in range(8):
        if v.k == "ref":
            v = ai.deref(fr, st, v)
        elif v.k == "app" and v.a[0] == "box":
            v = v.a[1]
        elif v.k == "cast" or (v.k == "app" and v.a[0] in ("cast", "unsize")):
            v = v.a[-1]
        else:
            break
    return v


def check_callback(p, ai, mon, f, cb, fr, st, c, clo):
    """the sink of a new decoder is this direction's output function on the same parser"""
    data = mk("sym", "cbdata")
    s0 = st.clone()
    s0.mon = ()
    try:
        outs = ai.call_value(fr, s0, c, unbox(ai, fr, st, clo), [data])
    except Exception as e:
        outs = None
    for r, s in outs or [(None, None)]:
        ev = [e for e in s.mon if e[0] == "cb"] if s is not None else []
        if len(ev) != 1 or ev[0][1] is not REF(("o", "connp")) or ev[0][2] is not data or r is not mk("app", "cbret"):
            mon.bad("callback", "%s makes a decoder whose output does not go to %s of the same parser (%s)" % (
                f.where(), cb.name, [show(x)[:60] for e in ev for x in e[1:]]))


def check_split(ctx, ai, mon, f, fr, st, c, clo):
    bad = []
    for b in range(256):
        outs = ai.call_value(fr, st.clone(), c, clo, [ai.refto(INT(b))])
        want = 1 if b in (0x2c, 0x20) else 0
        if not outs or any(ai.evalb(s, v) != want for v, s in outs):
            bad.append(b)
    if bad:
        mon.bad("separator", "%s splits the Content-Encoding value at other bytes than ',' and ' ' (%s)" % (
            f.where(), ", ".join("0x%02x" % b for b in bad[:6])))
    ctx.ok("separator bytes", "%s 256" % f.name)


# ------------------------------------------------------------------ feeding
def feed(ctx, p, d, o):
    """a coded body goes through the decoder in the slot, once, and out of use when it fails or the body ends"""
    f = P.one(ctx, d + "_body_data")
    dm = dec_methods(p)
    if f is None:
        return
    if not {"decompress", "finish", "set_passthrough", "time_spent"} <= set(dm):
        ctx.violation("anchor:decompressor-use", "Decompressor::{decompress,finish,set_passthrough,time_spent} are gone")
        return
    mon = Mon(ctx, f.name)
    slot0 = mk("proj", mk("sym", o), ("f", TX, d + "_decompressor"))
    pr0 = mk("proj", mk("sym", o), ("f", TX, d + "_content_encoding_processing"))
    dec0 = project(slot0, ("v", "Some", "0"))
    PTR = mk("sym", "body-bytes")
    has = mk("app", "has", o)
    spent = mk("app", "spent")

    def ext(kind):
        def h(ai, fr, st, c):
            who = strip(ai, fr, st, c.args[0])
            a = c.args[1] if len(c.args) > 1 else UNIT
            s = log(st, "use", kind, who, a)
            if kind in ("decompress", "finish"):
                r = mk("app", "used", mk("str", kind))
                return [((OK(mk("app", "n")) if v == "Ok" else ERR(mk("app", "ioerr"))), s2) for v, s2 in ai.cases(s, r, RES)]
            if kind == "time_spent":
                return [(spent, st)]
            return [(UNIT, s)]
        return h

    def hook(ai, fr, st, c):
        return [(OK(UNIT), log(st, "hook"))]
    ix = {dm[k]: ext(k) for k in ("decompress", "finish", "set_passthrough", "time_spent")}
    for g in p.method("ConnectionParser", d + "_run_hook_body_data"):
        ix[g.id] = hook
    limit = opt("time_limit")
    over = LT(limit, spent)
    rows = 0

    def oracle(e):
        if not e.true(has, "transaction"):
            return {"err": "ERROR"}
        if e.oneof(pr0, CE, ("NONE",), "plain"):
            return None
        if e.oneof(pr0, CE, ("ERROR",), "unknown encoding"):
            return {"err": "ERROR", "uses": [], "slot": "same"}
        if not e.some(slot0, "decoder"):
            return {"err": "ERROR" if arg == "data" else None, "uses": [], "slot": "None"}
        if arg == "end":
            return {"err": None, "uses": ["finish"], "slot": "None"}
        if e.variant(mk("app", "used", mk("str", "decompress")), RES, "decoding") == "Err":
            return {"err": "ERROR", "uses": ["decompress"], "slot": "None"}
        if e.true(over, "too slow"):
            return {"err": None, "uses": ["decompress", "set_passthrough"], "slot": "same"}
        return {"err": None, "uses": ["decompress"], "slot": "same"}
    for arg in ("data", "end"):
        ai = machine(p, mon, ix)
        outs = ai.run(f.id, [REF(("o", "connp")), SOME(PTR) if arg == "data" else NONE], St({}, {}, (("pin", slot0, pr0, has, limit),)))
        ctx.used(ai)
        for ret, s in outs:
            for s2, x, trace in D.explore(ai, s, oracle):
                if x is None:
                    continue
                rows += 1
                w = "; ".join("%s=%s" % (n if isinstance(n, str) else show(n)[:60], v) for n, v in trace) + ("; end of body" if arg == "end" else "")
                rd = domset(ai, s2, ret, RES)
                if rd != ({"Err"} if x["err"] else {"Ok"}) or (x["err"] and domset(ai, s2, P.err_of(ret), P.HS) != {x["err"]}):
                    mon.bad("result", "%s returns %s instead of %s; when %s" % (f.where(), show(ret)[:80], x["err"] or "Ok", w))
                if "uses" not in x:
                    continue
                uses = [e for e in s2.mon if e[0] == "use"]
                if [e[1] for e in uses] != x["uses"]:
                    mon.bad("uses", "%s: the decoder is used for %s instead of %s; when %s" % (
                        f.where(), [e[1] for e in uses], x["uses"], w))
                    continue
                for e in uses:
                    if e[2] is not dec0 or (e[1] == "decompress" and strip(ai, None, s2, e[3]) is not PTR) or \
                            (e[1] == "set_passthrough" and e[3] is not INT(1)):
                        mon.bad("use:" + e[1], "%s: %s of %s with %s; when %s" % (f.where(), e[1], show(e[2])[:60], show(e[3])[:60], w))
                if any(e[0] == "hook" for e in s2.mon):
                    mon.bad("raw", "%s hands undecoded data to the body callbacks; when %s" % (f.where(), w))
                sl = fld(ai, s2, o, TX, d + "_decompressor")
                if x["slot"] == "None":
                    good = domset(ai, s2, sl, OPT) == {"None"}
                else:
                    good = sl is slot0 or (sl.k == "agg" and sl.a[1] == "Some" and strip(ai, None, s2, sl.a[2][0][1]) is dec0)
                if not good:
                    mon.bad("slot", "%s leaves %s in the decoder slot, not %s; when %s" % (
                        f.where(), show(sl)[:80], "nothing" if x["slot"] == "None" else "the decoder", w))
                if fld(ai, s2, o, TX, d + "_content_encoding_processing") is not pr0:
                    mon.bad("processing", "%s changes which encoding is processed; when %s" % (f.where(), w))
                ctx.ok("feed row", "%s %s %s" % (d, arg, w))
    ctx.floor(d + " feed rows", rows, 8)


# ------------------------------------------------------------------ output
def output(ctx, p, d, o):
    """decoder output is counted, delivered and held against the bomb limits"""
    f = P.one(ctx, d + "_decompressor_callback")
    dm = dec_methods(p)
    if f is None:
        return
    mon = Mon(ctx, f.name)
    PTR = mk("sym", "body-bytes")
    N = mk("app", "len", mk("proj", PTR, "*"))
    m0 = mk("proj", mk("sym", o), ("f", TX, d + "_message_len"))
    e0 = mk("proj", mk("sym", o), ("f", TX, d + "_entity_len"))
    hk = mk("app", "hookret")

    def hook(ai, fr, st, c):
        s = log(st, "hook")
        return [((OK(UNIT) if v == "Ok" else ERR(project(hk, ("v", "Err", "0")))), s2) for v, s2 in ai.cases(s, hk, RES)]

    def dec(kind):
        def h(ai, fr, st, c):
            if kind == "set_passthrough":
                return [(UNIT, st)]
            if kind == "callback_inc":
                return [(mk("app", "cbn"), st)]
            r = mk("app", "timer")
            return [(SOME(spent) if v == "Some" else NONE, s) for v, s in ai.cases(st, r, OPT)]
        return h
    spent = mk("app", "spent")
    ix = {dm[k]: dec(k) for k in ("set_passthrough", "callback_inc", "timer_reset") if k in dm}
    for g in p.method("ConnectionParser", d + "_run_hook_body_data"):
        ix[g.id] = hook
    ix.update(P.tx_intrinsics(p, live=True))
    lim, ratio = opt("bomb_limit"), opt("bomb_ratio")
    rows = 0
    for arg in ("data", "end"):
        n = N if arg == "data" else INT(0)
        e1 = arith("Add", e0, n)
        big = LT(lim, e1)
        ai = machine(p, mon, {**ix, **P.tx_intrinsics(p, live=True)})
        outs = ai.run(f.id, [REF(("o", "connp")), SOME(PTR) if arg == "data" else NONE], St({}, {}, (("pin", m0, e0, lim, ratio),)))
        ctx.used(ai)
        prod = arith("Mul", m0, ratio)

        def oracle(e):
            if e.variant(hk, RES, "callbacks") == "Err":
                return "Err"
            if not e.true(big, "over the limit"):
                return "Ok"
            if e.true(mk("app", "ovf", prod), "ratio overflows") or e.true(LT(prod, e1), "over the ratio"):
                return "Err"
            return "Ok"
        for ret, s in outs:
            for s2, x, trace in D.explore(ai, s, oracle):
                rows += 1
                w = "; ".join("%s=%s" % (n_ if isinstance(n_, str) else show(n_)[:60], v) for n_, v in trace)
                rd = domset(ai, s2, ret, RES)
                if rd != {x}:
                    mon.bad("result", "%s returns %s instead of %s; when %s" % (f.where(), show(ret)[:80], x, w))
                elif x == "Ok":
                    v = project(ret, ("v", "Ok", "0"))
                    if ai.evalb(s2, EQ(v, n)) != 1:
                        mon.bad("taken", "%s reports %s bytes taken, not %s; when %s" % (f.where(), show(v)[:60], show(n), w))
                if [e[0] for e in s2.mon if e[0] == "hook"] != ["hook"]:
                    mon.bad("hook", "%s does not run the body data callbacks exactly once; when %s" % (f.where(), w))
                if fld(ai, s2, o, TX, d + "_entity_len") is not e1 or fld(ai, s2, o, TX, d + "_message_len") is not m0:
                    mon.bad("count", "%s: entity length becomes %s, message length %s; when %s" % (
                        f.where(), show(fld(ai, s2, o, TX, d + "_entity_len"))[:80], show(fld(ai, s2, o, TX, d + "_message_len"))[:80], w))
                ctx.ok("output row", "%s %s %s" % (d, arg, w))
    ctx.floor(d + " output rows", rows, 8)
