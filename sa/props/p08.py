"""Every processing step of a body state is abstractly executed on an arbitrary
chunk (data or gap).  On every path on which nothing failed: the bytes handed
on as body data are exactly the first n unread bytes, exactly these n are
marked consumed, the amount still expected goes down by exactly n and n never
exceeds it; the step leaves the body state precisely when nothing more is
expected, and says the body has ended exactly then.  Surplus data after a
message is handed on once (buffered part first) or left unread.  The functions
that pass body data on add exactly its length to the message length (and, when
no decompression is active, the entity length) and pass exactly this data to
the decompressor or to the transaction's and then the configuration's hooks."""
from absint import AI, St, mk, INT, REF, RES, SOME, NONE, OK, ERR, UNIT, AGG, OPT, show, EQ, LT, project, arith
import parser as P
import chunk as K
from parser import CP, TX, PD, ST, SS, domset, fld, hook_name

COUNT = {"BODY_IDENTITY": "%s_body_data_left", "BODY_IDENTITY_CL_KNOWN": "%s_body_data_left",
         "BODY_CHUNKED_DATA": "%s_chunked_length", "BODY_IDENTITY_STREAM_CLOSE": None}
STATES = {"request": ("BODY_IDENTITY", "BODY_CHUNKED_DATA", "FINALIZE"),
          "response": ("BODY_IDENTITY_CL_KNOWN", "BODY_CHUNKED_DATA", "BODY_IDENTITY_STREAM_CLOSE", "FINALIZE")}
NEXT = {"BODY_CHUNKED_DATA": "BODY_CHUNKED_DATA_END"}
GAPS = {"BODY_IDENTITY", "BODY_IDENTITY_CL_KNOWN", "BODY_IDENTITY_STREAM_CLOSE"}


def some(v):
    return v.a[2][0][1] if v.k == "agg" else project(v, ("v", "Some", "0"))


class Mon(P.Base):
    """state: what has been handed on so far"""

    def __init__(self, ctx, d, p, label):
        P.Base.__init__(self, ctx, label)
        self.d = d
        self.bd = {f.id for f in p.method("ConnectionParser", d + "_body_data")}
        self.comp = {f.id for f in p.method("ConnectionParser", "state_%s_complete" % d)}
        self.hooks = {f.id for f in p.code() if f.name == "run_all" and f.argc >= 3}
        self.dec = {f.id: n for n in ("decompress", "finish") for f in p.method("Decompressor", n)}
        self.stub_bd = True

    def ev(self, st, *e):
        s = st.clone()
        s.mon = st.mon + (e,)
        f = s.clone()
        f.mon = s.mon + (("failed",),)
        return [(OK(UNIT), s), (ERR(mk("sym", "failed")), f)]

    def content(self, ai, fr, st, ptr):
        return ai.deref(fr, st, ptr) if ptr.k == "ref" else ptr

    def call(self, ai, fr, st, c):
        t = c.target
        if t in self.bd and self.stub_bd:
            out = []
            for v, s in ai.cases(st, c.args[1], OPT):
                out += self.ev(s, "end") if v == "None" else self.ev(s, "give", self.content(ai, fr, s, some(c.args[1])))
            return out
        if t in self.comp:
            return self.ev(st, "complete")
        if t in self.dec:
            if self.dec[t] == "finish":
                return self.ev(st, "finish")
            return self.ev(st, "decompress", self.content(ai, fr, st, c.args[1]))
        if t in self.hooks:
            n = hook_name(c.args[0]) or hook_name(ai.deref(fr, st, c.args[0]))
            own = "tx" if from_tx(ai, fr, st, c.args[0]) else "cfg"
            x = ai.deref(fr, st, c.args[2])
            dd = project(x, ("f", "transaction::Data", "data"))
            if dd.k == "ref" and dd.a[0] == ("o", "data"):
                return self.ev(st, "hook", n, own, "chunk", K.remaining(K.pos(st)))
            root, path = ai.target(dd)
            g = ai.read(fr, st, root, path + (("f", PD, "gap_len"),))
            if domset(ai, st, g, OPT) == {"Some"}:
                return self.ev(st, "hook", n, own, "gap", some(g))
            b = ai.read(fr, st, root, path + (("f", PD, "data"),))
            if domset(ai, st, b, OPT) == {"None"}:
                return self.ev(st, "hook", n, own, "end", INT(0))
            return self.ev(st, "hook", n, own, "data", strip(some(b)))
        return None


def from_tx(ai, fr, st, recv):
    """does the hook list belong to the transaction (rather than the configuration)?"""
    def walk(v, n=0):
        if n > 30 or not hasattr(v, "k"):
            return False
        if v.k == "ref":
            if any(e[0] == "f" and e[1] == TX and "hook" in e[2] for e in v.a[1]):
                return True
            return v.a[0][0] == "d" and walk(v.a[0][1], n + 1)
        if v.k == "proj":
            e = v.a[1]
            return isinstance(e, tuple) and e[0] == "f" and e[1] == TX and "hook" in e[2] or walk(v.a[0], n + 1)
        return any(walk(x, n + 1) for x in v.a if hasattr(x, "k"))
    return walk(recv) or walk(ai.deref(fr, st, recv))


def strip(v):
    """the slice inside a Cow"""
    n = 0
    while v.k == "agg" and len(v.a[2]) == 1 and n < 5:
        v = v.a[2][0][1]
        n += 1
    return v


def run(ctx):
    p = ctx.prog
    for d in P.DIRS:
        f = P.one(ctx, "handle_%s_state" % d)
        g = P.one(ctx, d + "_body_data")
        cb = P.one(ctx, d + "_decompressor_callback")
        if f is None or g is None or cb is None:
            continue
        for s in STATES[d]:
            for gap in (0, 1):
                if not gap or s in GAPS:
                    step(ctx, p, d, f, s, gap)
        passing(ctx, p, d, g, cb)


def machine(ctx, p, d, mon, gap, relevant):
    ix = P.log_intrinsics(p)
    ix.update(P.tx_intrinsics(p))
    ix.update(K.intrinsics(p, gap))
    ix.update(K.lines(p))
    ix["std::cmp::min"] = ix["std::cmp::Ord::min"] = K.min_intrinsic
    return AI(p, monitor=mon, objtypes={"connp": CP, "req": TX, "resp": TX, "data": PD}, tracked_all=True,
              relevant=relevant, intrinsics=ix, step_cap=400000, state_cap=2000)


def step(ctx, p, d, f, state, gap):
    mon = Mon(ctx, d, p, "%s:%s%s" % (d, state, ":gap" if gap else ""))
    ai = machine(ctx, p, d, mon, gap, mon.bd | mon.hooks)
    ai.opaque |= mon.comp
    st = St({}, {}, ())
    ai.restrict(st, mk("proj", mk("sym", "connp"), ("f", CP, d + "_state")), "in", frozenset((state,)), ST)
    outs = ai.run(f.id, [REF(("o", "connp")), REF(("o", "data"))], st)
    ctx.used(ai)
    n = 0
    where = "the %s step of state %s (%s)" % (d, state, f.where())
    for ret, s in outs:
        if any(e[0] == "failed" for e in s.mon):
            continue
        r = domset(ai, s, ret, RES)
        err = domset(ai, s, P.err_of(ret), P.HS) if "Err" in r else set()
        if r == {"Err"} and not err & {"DATA", "DATA_BUFFER", "DATA_OTHER"}:
            continue
        n += 1
        ctx.ok("path", "%s %s %s" % (d, state, n))
        (finalize if state == "FINALIZE" else body)(ctx, p, d, ai, mon, state, gap, r, err, s, where)
    ctx.floor("%s %s%s paths" % (d, state, " gap" if gap else ""), n, 2)


def le(ai, st, a, b):
    return a is b or ai.evalb(st, LT(a, b)) == 1 or ai.evalb(st, LT(b, a)) == 0


def body(ctx, p, d, ai, mon, state, gap, r, err, s, where):
    fin = domset(ai, s, fld(ai, s, "connp", CP, d + "_state"), ST)
    closed = domset(ai, s, mk("proj", mk("sym", "connp"), ("f", CP, d + "_status")), SS) == {"CLOSED"}
    k = K.moved(K.pos(s))
    given = [e for e in s.mon if e[0] == "give"]
    hooks = [e for e in s.mon if e[0] == "hook"]
    ends = [e for e in s.mon if e[0] == "end"]
    zero = k.k == "int" and k.a[0] == 0
    if state not in fin or len(fin) > 1:
        left_state = True
        if fin != {NEXT.get(state, "FINALIZE")}:
            mon.bad("next", "%s goes on to %s" % (where, "/".join(sorted(fin))))
    else:
        left_state = False
    if r == {"Ok"} and not left_state:
        mon.bad("stuck", "%s succeeds without leaving the state" % where)
    if "Err" in r and left_state:
        mon.bad("suspend-left", "%s asks for more data after leaving the state" % where)
    if closed and state != "BODY_CHUNKED_DATA" and left_state:
        # the end of the stream ends the body; what is left of the chunk is handed on
        for e in given:
            if K.span(e[1]) is None or K.span(e[1])[0] is not INT(0) or K.span(e[1])[1] is not K.L0:
                mon.bad("closed-data", "%s hands on %s at the end of the stream" % (where, show(e[1])))
        return
    if gap:
        amounts = {e[4] for e in hooks}
        if given:
            mon.bad("gap-data", "%s hands on data for a gap" % where)
        if state == "BODY_IDENTITY_STREAM_CLOSE":
            if amounts != {K.L0} and ai.evalb(s, EQ(K.L0, INT(0))) != 1:
                mon.bad("gap", "%s does not report the gap" % where)
            return
        if {e[2] for e in hooks} not in ({"tx", "cfg"}, set()):
            mon.bad("gap-hooks", "%s does not report the gap to all body-data callbacks" % where)
        if len(amounts) > 1 or any(e[3] not in ("gap", "chunk") for e in hooks):
            mon.bad("gap", "%s reports a gap of %s" % (where, ", ".join(show(x) for x in amounts)))
            return
        n = amounts.pop() if amounts else None
        if n is not None:
            o = "req" if d == "request" else "resp"
            m0 = mk("proj", mk("sym", o), ("f", TX, d + "_message_len"))
            m1 = fld(ai, s, o, TX, d + "_message_len")
            if m1 is not arith("Add", m0, n):
                mon.bad("gap-length", "%s changes the message length to %s for a gap of %s" % (where, show(m1), show(n)))
    else:
        if hooks:
            mon.bad("bypass", "%s runs body-data callbacks itself" % where)
        if len(given) > 1:
            mon.bad("twice", "%s hands on body data twice" % where)
            return
        n = None
        if given:
            x = K.span(given[0][1])
            if x is None or not (x[0].k == "int" and x[0].a[0] == 0):
                mon.bad("which", "%s hands on %s, not the first unread bytes" % (where, show(given[0][1])))
                return
            n = x[1]
    if n is None:
        if not zero:
            mon.bad("lost", "%s marks %s bytes consumed without handing them on" % (where, show(k)))
        if left_state:
            mon.bad("left-early", "%s leaves the state without having seen the body" % where)
        if COUNT[state] is None:
            if ai.evalb(s, EQ(K.L0, INT(0))) != 1:
                mon.bad("ignored", "%s hands nothing on although there is data" % where)
            return
        c0 = mk("proj", mk("sym", "connp"), ("f", CP, COUNT[state] % d))
        left0 = some(c0)
        none = domset(ai, s, c0, OPT) == {"None"}
        if not (none or ai.evalb(s, EQ(K.L0, INT(0))) == 1 or ai.evalb(s, EQ(left0, INT(0))) == 1):
            mon.bad("ignored", "%s asks for more data without having used what is there" % where)
        return
    if k is not n:
        mon.bad("consumed", "%s hands on %s bytes and marks %s consumed" % (where, show(n), show(k)))
    if COUNT[state] is None:
        if n is not K.L0:
            mon.bad("part", "%s hands on %s of the %s bytes present" % (where, show(n), show(K.L0)))
        if left_state and not closed:
            mon.bad("left-early", "%s ends a body that lasts until the stream is closed" % where)
        return
    c0 = mk("proj", mk("sym", "connp"), ("f", CP, COUNT[state] % d))
    left0, c1 = some(c0), fld(ai, s, "connp", CP, COUNT[state] % d)
    left1 = some(c1)
    if left1 is not arith("Sub", left0, n):
        mon.bad("counter", "%s hands on %s bytes and changes the amount still expected from %s to %s" % (
            where, show(n), show(left0), show(left1)))
        return
    if not le(ai, s, n, left0):
        mon.bad("too-much", "%s may hand on more than the %s bytes still expected" % (where, show(left0)))
    if not le(ai, s, n, K.L0):
        mon.bad("overread", "%s may use more bytes than there are" % where)
    if n is not K.L0 and n is not left0:
        mon.bad("part", "%s hands on only %s bytes" % (where, show(n)))
    done = ai.evalb(s, EQ(left1, INT(0)))
    if left_state and done != 1:
        mon.bad("left-early", "%s leaves the state although %s bytes may still be expected" % (where, show(left1)))
    if not left_state and done != 0:
        mon.bad("left-late", "%s stays in the state although the whole body may have been seen" % where)
    if state != "BODY_CHUNKED_DATA" and bool(ends) != left_state:
        mon.bad("end", "%s %s the end of the body" % (where, "announces too early" if ends else "does not announce"))
    if ends and s.mon.index(ends[0]) < max([s.mon.index(e) for e in given + hooks] or [-1]):
        mon.bad("end-order", "%s announces the end of the body before handing on its last bytes" % where)


def finalize(ctx, p, d, ai, mon, state, gap, r, err, s, where):
    """after a message: surplus data becomes body data, or is left for the next message"""
    buf0 = mk("proj", mk("sym", "connp"), ("f", CP, d + "_buf"))
    closed = domset(ai, s, mk("proj", mk("sym", "connp"), ("f", CP, d + "_status")), SS) == {"CLOSED"}
    b1 = K.segs(fld(ai, s, "connp", CP, d + "_buf"))
    b0 = [("v", buf0)]
    k = K.moved(K.pos(s))
    given = [e for e in s.mon if e[0] == "give"]
    comp = any(e[0] == "complete" for e in s.mon)
    empty0 = ai.evalb(s, EQ(mk("app", "len", project(buf0, ("f", "bstr::Bstr", "s"))), INT(0))) == 1
    if len(given) > 1 or given and comp:
        mon.bad("twice", "%s hands on surplus data twice" % where)
        return
    if given:
        sg = K.segs(given[0][1])
        want = b0 + ([("c", INT(0), k)] if not (k.k == "int" and not k.a[0]) else [])
        alt = b0 + [("c", INT(0), K.L0)] if closed else want
        ok = [want, alt] + ([want[1:]] if empty0 else [])
        if sg not in ok:
            mon.bad("surplus", "%s hands on %s although it read %s (and may have buffered data)" % (
                where, segshow(sg), segshow(want)))
        if b1 != []:
            mon.bad("surplus-kept", "%s keeps data in the buffer that it has handed on" % where)
        return
    if comp:
        # read nothing, or put back what was read
        if k.k == "int" and k.a[0] == 0:
            if b1 != b0 and not (b1 == [] and (empty0 or closed or nothing(ai, s, d))):
                mon.bad("dropped", "%s ends the message and changes the buffered data to %s" % (where, segshow(b1)))
        elif not nothing(ai, s, d):
            mon.bad("swallowed", "%s ends the message after consuming %s" % (where, show(k)))
        return
    if "DATA_BUFFER" in err:
        if k is not K.L0 or b1 != b0 + [("c", INT(0), K.L0)]:
            mon.bad("buffered", "%s asks for more data having consumed %s and buffered %s" % (where, show(k), segshow(b1)))
        return
    if not (k.k == "int" and k.a[0] == 0):
        mon.bad("swallowed", "%s consumes %s without using it" % (where, show(k)))


def nothing(ai, s, d):
    """the path has established that buffered and new data together are empty"""
    for t, f in s.facts.items():
        if f[0] == "in" and f[1] == frozenset((0,)) and t.k == "app" and t.a[0] == "len":
            if t.a[1].k == "app" and t.a[1].a[0] == "concat":
                return True
    return False


def segshow(ss):
    return " + ".join("chunk[%s..%s]" % (show(x[1]), show(x[2])) if x[0] == "c" else show(x[1]) for x in ss) or "nothing"


def passing(ctx, p, d, g, cb):
    """request_body_data / response_body_data and the decompressor's output callback"""
    o = "req" if d == "request" else "resp"
    PTR = mk("sym", "body-bytes")
    N = mk("app", "len", mk("proj", PTR, "*"))
    enc = mk("proj", mk("sym", o), ("f", TX, d + "_content_encoding_processing"))
    for fn, kind in ((g, "body"), (cb, "output")):
        mon = Mon(ctx, d, p, "%s:%s" % (d, fn.name))
        mon.stub_bd = False
        for arg in ("data", "end"):
            ai = machine(ctx, p, d, mon, 0, mon.hooks | set(mon.dec))
            outs = ai.run(fn.id, [REF(("o", "connp")), SOME(PTR) if arg == "data" else NONE],
                          St({}, {}, (("pin", mk("proj", mk("sym", o), ("f", TX, d + "_decompressor"))),)))
            ctx.used(ai)
            seen = set()
            for ret, s in outs:
                if domset(ai, s, mk("app", "has", o), None) is None:
                    continue
                bad = any(e[0] == "failed" for e in s.mon)
                ok = "Ok" in domset(ai, s, ret, RES)
                if not ok and not bad and not [e for e in s.mon if e[0] != "pin"]:
                    continue
                m0, m1 = mk("proj", mk("sym", o), ("f", TX, d + "_message_len")), fld(ai, s, o, TX, d + "_message_len")
                e0, e1 = mk("proj", mk("sym", o), ("f", TX, d + "_entity_len")), fld(ai, s, o, TX, d + "_entity_len")
                n = N if arg == "data" else INT(0)
                where = "%s (%s)" % (fn.where(), fn.name)
                mon_len = arith("Add", m0, n) if kind == "body" else m0
                if m1 is not mon_len:
                    mon.bad("message-len", "%s changes the message length from %s to %s for %s" % (
                        where, show(m0), show(m1), arg))
                encs = domset(ai, s, enc, "decompressors::HtpContentEncoding")
                hk = [e for e in s.mon if e[0] == "hook"]
                dc = [e for e in s.mon if e[0] in ("decompress", "finish")]
                plain = kind == "output" or encs == {"NONE"}
                if kind == "body" and "NONE" in encs and len(encs) > 1:
                    mon.bad("mixed", "%s treats compressed and plain bodies alike" % where)
                want = arith("Add", e0, n) if plain else e0
                if e1 is not want:
                    mon.bad("entity-len", "%s changes the entity length from %s to %s for %s" % (where, show(e0), show(e1), arg))
                if plain:
                    if dc:
                        mon.bad("decompress", "%s decompresses a body without content encoding" % where)
                    names = [(e[1], e[2]) for e in hk]
                    h = "hook_%s_body_data" % d
                    full = [(h, "tx"), (h, "cfg")]
                    if not (names == full or bad and names == full[:1] and len(names) == 1):
                        if arg == "data" and ai.evalb(s, EQ(N, INT(0))) != 1:
                            mon.bad("hooks", "%s runs %s for body data instead of the transaction's and then the "
                                    "configuration's callbacks" % (where, names or "no callback"))
                        elif names:
                            mon.bad("hooks-empty", "%s runs only %s" % (where, names))
                    for e in hk:
                        if (e[3], e[4]) != (("data", PTR) if arg == "data" else ("end", INT(0))):
                            mon.bad("what", "%s gives %s %s to the callbacks" % (where, e[3], show(e[4])))
                else:
                    if hk:
                        mon.bad("compressed", "%s gives compressed data to the callbacks" % where)
                    if arg == "data" and [e for e in dc if e[0] == "decompress"] != [("decompress", PTR)]:
                        if not (not ok and not dc):
                            mon.bad("decompress", "%s does not pass the data to the decompressor" % where)
                    if arg == "data" and any(e[0] == "finish" for e in dc):
                        mon.bad("finish", "%s ends decompression with data still coming" % where)
                    if arg == "end" and dc != [("finish",)] and not (not dc and ok) and not (bad and dc[:1] == [("finish",)]):
                        mon.bad("finish", "%s does not end decompression at the end of the body" % where)
                    if arg == "end" and not dc and domset(ai, s, mk("proj", mk("sym", o), ("f", TX, d + "_decompressor")), OPT) != {"None"}:
                        mon.bad("finish", "%s ends the body without ending decompression" % where)
                    if arg == "data" and ok and not bad:
                        if domset(ai, s, fld(ai, s, o, TX, d + "_decompressor"), OPT) != {"Some"}:
                            mon.bad("kept", "%s loses the decompressor" % where)
                seen.add((arg, "plain" if plain else "compressed"))
                ctx.ok("passing on", "%s %s %s" % (fn.name, arg, "plain" if plain else "compressed"))
            for w in (("plain", "compressed") if kind == "body" else ("plain",)):
                if (arg, w) not in seen:
                    mon.bad("none:%s:%s" % (arg, w), "%s has no path for a %s body (%s)" % (fn.where(), w, arg))
