"""Every step that works on a line or on headers is abstractly executed on an
arbitrary chunk with an arbitrary buffered prefix.  On every path on which
nothing failed: what is parsed is exactly the buffered prefix followed by the
next unread bytes up to the end of the line, these bytes are marked consumed
and the buffer is empty afterwards; or the line is incomplete, all of the chunk
is consumed and appended to the buffer; or nothing is touched.  An invalid
chunk length gives all its bytes to the body, in order."""
from absint import AI, St, mk, INT, REF, RES, SOME, NONE, OK, ERR, UNIT, AGG, OPT, show, EQ, LT, project, arith
import parser as P
import chunk as K
import dtable as D
from parser import CP, TX, PD, ST, SS, domset, fld
from props.p08 import segshow, some

LINES = {"request": ("LINE", "BODY_CHUNKED_LENGTH", "BODY_CHUNKED_DATA_END", "CONNECT_PROBE_DATA"),
         "response": ("LINE", "BODY_CHUNKED_LENGTH", "BODY_CHUNKED_DATA_END")}
NOTHING = {"request": ("PROTOCOL", "CONNECT_CHECK", "CONNECT_WAIT_RESPONSE", "BODY_DETERMINE", "IDLE"),
           "response": ("BODY_DETERMINE", "IDLE")}
SINKS = {"request": ("parse_request_line", "is_line_ignorable", "parse_chunked_length", "is_valid_chunked_length_data"),
         "response": ("parse_response_line", "is_line_ignorable", "parse_chunked_length", "is_chunked_ctl_line",
                      "treat_response_line_as_body", "is_valid_chunked_length_data")}
PURE = ("is_valid_chunked_length_data", "is_line_ignorable", "is_chunked_ctl_line", "treat_response_line_as_body")


class Mon(P.Base):
    def __init__(self, ctx, d, p, label):
        P.Base.__init__(self, ctx, label)
        self.d, self.p = d, p
        self.sinks = {}
        for n in SINKS[d]:
            fs = p.method("ConnectionParser", n) or [f for f in p.find(n) if f.kind == "fn"]
            if not fs:
                ctx.violation("anchor:" + n, "the function %s lines are given to is gone" % n)
            for f in fs:
                self.sinks[f.id] = n
        self.bd = {f.id for f in p.method("ConnectionParser", d + "_body_data")}
        self.headers = {f.id for f in p.method("ConnectionParser", "parse_%s_headers" % d)}
        self.chomp = {f.id for f in p.find("chomp")}
        self.probe = {f.id for f in p.find("take_is_space")} if d == "request" else set()
        self.hooks = {f.id for f in p.code() if f.name == "run_all" and f.argc >= 2}
        self.states = {f.id for f in p.code() if f.kind == "fn" and f.argc and "ConnectionParser" in f.id
                       and f.name.startswith("state_%s_" % d)}

    def ev(self, st, *e):
        s = st.clone()
        s.mon = st.mon + (e,)
        f = s.clone()
        f.mon = s.mon + (("failed",),)
        return s, f

    def bytes(self, ai, fr, st, v):
        if v.k == "ref":
            v = ai.deref(fr, st, v)
        while v.k == "app" and v.a[0] == "chomp":
            v = v.a[1]
        return v

    def call(self, ai, fr, st, c):
        t = c.target
        if t in self.sinks:
            n = self.sinks[t]
            a = c.args[-1]
            v = self.bytes(ai, fr, st, a)
            s, f = self.ev(st, "sink", n, tuple(K.segs(v)), K.pos(st))
            if n in PURE:
                return [(INT(x), y) for x, y in ai.branch(s, mk("app", n, v))]
            if n == "parse_chunked_length":
                f = s.clone()
                f.mon = s.mon + (("badlen",),)
                return [(OK(mk("app", "chunklen", v)), s), (ERR(mk("sym", "badlen")), f)]
            return [(OK(UNIT), s), (ERR(mk("sym", "failed")), f)]
        if t in self.bd:
            out = []
            for v, s in ai.cases(st, c.args[1], OPT):
                x = K.segs(self.bytes(ai, fr, s, some(c.args[1]))) if v == "Some" else ()
                s, f = self.ev(s, "body", tuple(x), K.pos(s))
                out += [(OK(UNIT), s), (ERR(mk("sym", "failed")), f)]
            return out
        if t in self.chomp:
            return [(mk("app", "chomp", self.bytes(ai, fr, st, c.args[0])), st)]
        if t in self.headers:
            v = self.bytes(ai, fr, st, c.args[1])
            un = mk("sym", "unparsed")
            s, f = self.ev(st, "headers", tuple(K.segs(v)), K.pos(st), un)
            out = [(ERR(mk("sym", "failed")), f)]
            for x, y in ai.branch(s, mk("app", "eoh")):
                out.append((OK(AGG("tuple", None, un, INT(x))), y))
            return out
        if t in self.states or t in self.hooks:
            s, f = self.ev(st, "event", c.target)
            return [(OK(UNIT), s), (ERR(mk("sym", "failed")), f)]
        if t in self.probe:
            v = self.bytes(ai, fr, st, c.args[0])
            s, f = self.ev(st, "sink", "probe", tuple(K.segs(v)), K.pos(st))
            n = mk("app", "spaces", v)
            return [(OK(AGG("tuple", None, mk("app", "slice", mk("proj", v, "*"), n, K.amount(v)),
                            mk("app", "slice", mk("proj", v, "*"), INT(0), n))), s)]
        return None


def lines(p):
    """first-line splitters; the second line of the same step starts the step afresh (cut)"""
    base = K.lines(p)
    eol = {f.id for f in p.find("take_till_eol")}

    def mkh(old, iseol):
        def h(ai, fr, st, c):
            ptr = c.args[0]
            if ptr.k == "ref":
                ptr = ai.deref(fr, st, ptr)
            if any(e[0] == "line" for e in st.mon):
                k = K.pos(st)
                b = K.segs(fld(ai, st, "connp", CP, ai.dir + "_buf"))
                if ptr is K.rest(k) and b == []:
                    used = [e for e in st.mon if e[0] == "line"][-1]
                    ai.again.append((used, st))
                    return []
            out = []
            for v, s in old(ai, fr, st, c):
                s = s.clone()
                s.mon = s.mon + (("line", K.pos(st), tuple(K.segs(ptr)), iseol),)
                if iseol and v.k == "agg" and v.a[1] == "Ok":
                    tup = v.a[2][0][1]
                    v = OK(AGG("tuple", None, tup.a[2][0][1],
                               AGG("tuple", None, tup.a[2][1][1], mk("app", "eol", ptr))))
                out.append((v, s))
            return out
        return h
    any_h = next(iter(base.values()))
    r = {k: mkh(v, False) for k, v in base.items()}
    for e in eol:
        r[e] = mkh(any_h, True)
    return r


def machine(ctx, p, d, mon):
    ix = P.log_intrinsics(p)
    ix.update(P.tx_intrinsics(p))
    ix.update(D.header_intrinsics(p))
    ix.update(K.intrinsics(p, 0))
    ix.update(lines(p))
    ix["std::cmp::min"] = ix["std::cmp::Ord::min"] = K.min_intrinsic
    for n in ("core::slice::<impl [T]>::starts_with", "std::slice::<impl [T]>::starts_with"):
        ix[n] = startswith
    ai = AI(p, monitor=mon, objtypes=dict(D.objects(), connp=CP, req=TX, resp=TX, data=PD), tracked_all=True,
            relevant=set(mon.sinks) | mon.hooks | mon.bd | mon.headers | set(ix), intrinsics=ix, step_cap=400000, state_cap=2000)
    ai.dir = d
    ai.again = []
    return ai


def run(ctx):
    p = ctx.prog
    for d in P.DIRS:
        f = P.one(ctx, "handle_%s_state" % d)
        if f is None:
            continue
        ctx.each(lambda c, s: step(c, p, d, f, s), LINES[d] + NOTHING[d] + ("HEADERS",))


def zero(k):
    return k.k == "int" and k.a[0] == 0


def step(ctx, p, d, f, state):
    mon = Mon(ctx, d, p, "%s:%s" % (d, state))
    ai = machine(ctx, p, d, mon)
    h0 = mk("proj", mk("sym", "connp"), ("f", CP, d + "_header"))
    st = St({}, {}, (("pin", buf(d), project(buf(d), ("f", "bstr::Bstr", "s")), h0),))
    ai.restrict(st, mk("proj", mk("sym", "connp"), ("f", CP, d + "_state")), "in", frozenset((state,)), ST)
    outs = ai.run(f.id, [REF(("o", "connp")), REF(("o", "data"))], st)
    ctx.used(ai)
    n = 0
    for ret, s in outs:
        if any(e[0] == "failed" for e in s.mon):
            continue
        r = domset(ai, s, ret, RES)
        err = domset(ai, s, P.err_of(ret), P.HS) if "Err" in r else set()
        if r == {"Err"} and not err & {"DATA", "DATA_BUFFER", "DATA_OTHER"}:
            continue
        if r == {"Err"} and any(e[0] == "badlen" for e in s.mon):
            continue
        n += 1
        ctx.ok("path", "%s %s %d" % (d, state, n))
        judge(ctx, p, d, ai, mon, state, r, err, s, f)
    for used, s in ai.again:
        ctx.ok("next line", "%s %s" % (d, state))
        blank(ctx, d, ai, mon, state, s, f)
    ctx.floor("%s %s paths" % (d, state), n, 2)


def buf(d, st=None, ai=None):
    return mk("proj", mk("sym", "connp"), ("f", CP, d + "_buf"))


def shape(d, ss):
    """which bytes a value denotes: ("line", n) the buffered data and the first n unread bytes, or
    ("prefix", t) the first t bytes of buffered and unread data together; None otherwise"""
    b0 = ("v", buf(d))
    ss = list(ss)
    if ss[:1] == [b0] and len(ss) <= 2 and (len(ss) == 1 or ss[1][0] == "c" and zero(ss[1][1])):
        return ("line", ss[1][2] if len(ss) == 2 else INT(0))
    if len(ss) == 1 and ss[0][0] == "c" and zero(ss[0][1]):
        return ("chunk", ss[0][2])
    if len(ss) == 1 and ss[0][0] == "v" and ss[0][1].k == "app" and ss[0][1].a[0] == "slice":
        _, b, lo, hi = ss[0][1].a
        if zero(lo) and shape(d, K.segs(b)) == ("line", K.L0):
            return ("prefix", hi)
    return None


def where(d, state, f):
    return "the %s step of state %s (%s)" % (d, state, f.where())


def noprefix(ai, s, d):
    """the buffer is known to be empty on this path"""
    return ai.evalb(s, EQ(mk("app", "len", project(buf(d), ("f", "bstr::Bstr", "s"))), INT(0))) == 1


def consumed(ai, s, d, x, k):
    """does having consumed k agree with x having been taken?"""
    if x[0] in ("line", "chunk"):
        return x[1] is k
    t = x[1]
    bl = mk("app", "len", project(buf(d), ("f", "bstr::Bstr", "s")))
    return k is arith("Sub", t, bl) or k is INT(0) and ai.evalb(s, LT(bl, t)) == 0


def good(ai, s, d, x, k):
    return x is not None and consumed(ai, s, d, x, k) and (x[0] != "chunk" or noprefix(ai, s, d))


def sinkcheck(d, ai, mon, s, w, k, what):
    """everything the line was given to got exactly the line"""
    for e in s.mon:
        if e[0] == "sink" and e[1] != "probe" or e[0] == "body" and what == "line":
            ss = e[2] if e[0] == "sink" else e[1]
            x = shape(d, ss)
            if e[0] == "sink" and e[1] == "is_valid_chunked_length_data":
                continue
            if not good(ai, s, d, x, k):
                mon.bad(e[1] if e[0] == "sink" else "body", "%s takes %s as the line although it consumed %s bytes after "
                        "the buffered data" % (w, segshow(ss), show(k)))
                return False
    return True


def counted(ai, s, d, k):
    if not zero(k):
        c1 = fld(ai, s, "connp", CP, d + "_bytes_consumed")
        ok = c1.k == "app" and c1.a[0] == "position" and K.moved(c1.a[1]) is k
        return ok, c1
    return True, None


def blank(ctx, d, ai, mon, state, s, f):
    """a line skipped inside a step: it must have been looked at"""
    w = where(d, state, f)
    k = K.pos(s)
    if not sinkcheck(d, ai, mon, s, w, k, "line"):
        return
    seen = any(e[0] == "sink" for e in s.mon)
    for t, v in s.facts.items():
        if seen:
            break
        for y in terms(t):
            x = shape(d, K.segs(y))
            if x and x[0] == "line" and x[1] is k:
                seen = True
                break
    if not seen:
        mon.bad("skipped", "%s skips a line without looking at it" % w)
    msglen(d, ai, mon, state, s, w, k)


def terms(t, n=0):
    yield t
    if n < 12:
        for x in t.a:
            if hasattr(x, "k"):
                yield from terms(x, n + 1)


def msglen(d, ai, mon, state, s, w, k):
    if not state.startswith("BODY_CHUNKED"):
        return
    o = "req" if d == "request" else "resp"
    m0, m1 = mk("proj", mk("sym", o), ("f", TX, d + "_message_len")), fld(ai, s, o, TX, d + "_message_len")
    l = K.total([("v", project(buf(d), ("f", "bstr::Bstr", "s"))), ("c", INT(0), k)])
    want = {arith("Add", m0, l)} if state == "BODY_CHUNKED_LENGTH" else {arith("Add", m0, k)}
    if not any(sums(K.explen(m1)) == sums(x) for x in want):
        mon.bad("message-len", "%s changes the message length to %s for a line of %s bytes" % (w, show(m1), show(l)))


def sums(t):
    """multiset of the terms of a sum"""
    if t.k == "op" and t.a[0] == "Add":
        return sorted(sums(t.a[1]) + sums(t.a[2]))
    if t.k == "app" and t.a[0] == "len":
        x = K.total(K.segs(t.a[1]))
        return sums(x) if x is not t and not (x.k == "app" and x.a[0] == "len") else [show(x)]
    return [show(t)]


def judge(ctx, p, d, ai, mon, state, r, err, s, f):
    w = where(d, state, f)
    k = K.moved(K.pos(s))
    b0 = [("v", buf(d))]
    b1 = K.segs(fld(ai, s, "connp", CP, d + "_buf"))
    if noprefix(ai, s, d):
        # an empty buffer adds nothing
        b1 = [x for x in b1 if x not in b0]
        b0 = []
    ok, c1 = counted(ai, s, d, k)
    if not ok:
        mon.bad("count", "%s consumes %s but reports %s as consumed so far" % (w, show(k), show(c1)))
    for e in s.mon:
        if e[0] == "sink" and e[1] == "is_valid_chunked_length_data":
            x = shape(d, e[2])
            if not (x and x[1] is K.L0 and (x[0] == "line" or noprefix(ai, s, d))):
                mon.bad("valid", "%s judges %s, not everything seen of the chunk length" % (w, segshow(e[2])))
        if e[0] == "line" and e[3]:
            x = shape(d, e[2])
            if not (x and x[1] is K.L0 and (x[0] == "line" or noprefix(ai, s, d))):
                mon.bad("eol-split", "%s looks for an end of line that can be several bytes long in %s only, so that one "
                        "split between data chunks is missed" % (w, segshow(e[2])))
    if state == "HEADERS":
        return headers(ctx, d, ai, mon, s, err, w, k, b0, b1)
    untouched = zero(k) and b1 == b0
    if state in NOTHING[d]:
        if not untouched:
            mon.bad("consumes", "%s consumes %s and leaves %s in the buffer, although it only looks" % (
                w, show(k), segshow(b1)))
        return
    drop = state == "BODY_CHUNKED_DATA_END"
    if "DATA_BUFFER" in err:
        if k is not K.L0 or not (b1 == b0 + [("c", INT(0), K.L0)] or drop and b1 == b0):
            mon.bad("buffer", "%s waits for the end of the line having consumed %s and with %s in the buffer" % (
                w, show(k), segshow(b1)))
        return
    if state == "CONNECT_PROBE_DATA":
        if not untouched:
            mon.bad("consumes", "%s consumes %s and leaves %s in the buffer, although it only looks" % (
                w, show(k), segshow(b1)))
        return
    if drop:
        if zero(k) or b1 not in ([], b0):
            mon.bad("end", "%s ends having consumed %s and with %s in the buffer" % (w, show(k), segshow(b1)))
        msglen(d, ai, mon, state, s, w, k)
        return
    bodies = [e for e in s.mon if e[0] == "body"]
    fin = domset(ai, s, fld(ai, s, "connp", CP, d + "_state"), ST)
    if state == "BODY_CHUNKED_LENGTH" and "BODY_IDENTITY_STREAM_CLOSE" in fin:
        # invalid chunk length: what was buffered goes to the body, the rest is read as body next
        if not zero(k):
            mon.bad("badlen", "%s loses %s bytes of an invalid chunk length" % (w, show(k)))
        if b1:
            mon.bad("badlen", "%s keeps %s in the buffer after an invalid chunk length" % (w, segshow(b1)))
        got = [x for e in bodies for x in e[1]]
        if got != b0 and not (got == [] and noprefix(ai, s, d)):
            mon.bad("badlen", "%s hands on %s of an invalid chunk length, although %s had been buffered" % (
                w, segshow(got), segshow(b0)))
        return
    if "DATA" in err and not any(e[0] in ("sink", "body") for e in s.mon):
        # nothing there at all (end of the stream)
        if not untouched and not nothing(ai, s, d):
            mon.bad("dropped", "%s asks for more data after consuming %s" % (w, show(k)))
        return
    if b1:
        mon.bad("kept", "%s keeps %s in the buffer after the line" % (w, segshow(b1)))
    if not any(e[0] in ("sink", "body") for e in s.mon):
        mon.bad("unused", "%s consumes a line without using it" % w)
    sinkcheck(d, ai, mon, s, w, k, "line")
    if state == "LINE":
        closed = domset(ai, s, mk("proj", mk("sym", "connp"), ("f", CP, d + "_status")), SS) == {"CLOSED"}
        if k is K.L0 and not closed:
            mon.bad("incomplete", "%s takes an incomplete line as complete" % w)
        for e in s.mon:
            if e[0] == "sink" and e[1].startswith("parse_") and any(b[0] == "body" for b in s.mon):
                mon.bad("both", "%s both parses a line and hands it on as body" % w)
        used = any(e[0] == "sink" and e[1].startswith("parse_") or e[0] == "body" for e in s.mon)
        if not used and not ignored(ai, s, d):
            mon.bad("ignored", "%s ignores a line it should parse" % w)
    msglen(d, ai, mon, state, s, w, k)


def ignored(ai, s, d):
    for t, v in s.facts.items():
        if t.k == "app" and t.a[0] in ("is_line_ignorable", "treat_response_line_as_body") and v == ("in", frozenset((1,))):
            return True
        if t.k == "app" and t.a[0] in ("is_line_ignorable", "treat_response_line_as_body") and v[0] == "ni" and 0 in v[1]:
            return True
    return False


def nothing(ai, s, d):
    return noprefix(ai, s, d) and ai.evalb(s, EQ(K.L0, INT(0))) == 1 or any(
        v[0] == "in" and v[1] == frozenset((0,)) and t.k == "app" and t.a[0] == "len" and
        shape(d, K.segs(t.a[1])) == ("line", K.L0) for t, v in s.facts.items())


def headers(ctx, d, ai, mon, s, err, w, k, b0, b1):
    h0 = mk("proj", mk("sym", "connp"), ("f", CP, d + "_header"))
    h1 = fld(ai, s, "connp", CP, d + "_header")
    had, has = domset(ai, s, h0, OPT), domset(ai, s, h1, OPT)
    closed = domset(ai, s, mk("proj", mk("sym", "connp"), ("f", CP, d + "_status")), SS) == {"CLOSED"}
    given = [e for e in s.mon if e[0] == "headers"]
    if b1 not in (b0, []):
        mon.bad("buffer", "%s leaves %s in the line buffer" % (w, segshow(b1)))
    if len(given) > 1:
        mon.bad("twice", "%s parses headers twice" % w)
        return
    kept = [("v", some(h0))]
    if closed and zero(k):
        want = kept if had == {"Some"} else []
        got = list(given[0][1]) if given else []
        if got != want:
            mon.bad("closed", "%s parses %s at the end of the stream, although %s was kept" % (w, segshow(got), segshow(want)))
        if has != {"None"}:
            mon.bad("closed-kept", "%s keeps header data after the end of the stream" % w)
        return
    if not given:
        mon.bad("unused", "%s ends without having parsed any header data" % w)
        return
    if had not in ({"Some"}, {"None"}):
        mon.bad("prefix", "%s does not look whether part of the headers has been seen already" % w)
        return
    want = (kept if had == {"Some"} else []) + [("c", INT(0), K.L0)]
    got = list(given[0][1])
    if got != want:
        mon.bad("what", "%s parses %s instead of %s" % (w, segshow(got), segshow(want)))
        return
    un = given[0][3]
    U = mk("app", "len", mk("proj", un, "*"))
    if "DATA_BUFFER" in err:
        if k is not K.L0:
            mon.bad("rest", "%s waits for more headers having consumed only %s" % (w, show(k)))
        if has != {"Some"} or K.segs(some(h1)) != [("v", un)]:
            mon.bad("keep", "%s keeps %s instead of what has not been parsed yet" % (w, show(h1)))
        return
    if has != {"None"}:
        mon.bad("keep-end", "%s keeps header data although the headers have ended" % w)
    # unread: what was not parsed (or, if nothing was parsed, all but the empty line)
    if k is arith("Sub", K.L0, U):
        return
    if ai.evalb(s, LT(U, K.L0)) == 1:
        mon.bad("consumed", "%s consumes %s although %s bytes are left unparsed" % (w, show(k), show(U)))
        return
    e = eol(ai, s, un)
    if zero(k) and e is None and ai.evalb(s, LT(U, K.L0)) != 1:
        return
    if e is None:
        if not (k is K.L0 and ai.evalb(s, EQ(U, INT(0))) == 1 or k is K.L0 and exact(ai, s, un)):
            mon.bad("consumed", "%s consumes %s although %s bytes are left unparsed" % (w, show(k), show(U)))
        return
    good_ = {arith("Sub", K.L0, arith("Sub", U, INT(n))) for n in e}
    if k is INT(0) and all(ai.evalb(s, LT(arith("Sub", U, INT(n)), K.L0)) == 0 for n in e):
        return
    if exact(ai, s, un):
        good_.add(K.L0)
    if k not in good_:
        mon.bad("eol", "%s consumes %s for an empty line at the start of the %s unparsed bytes" % (w, show(k), show(U)))


def eol(ai, s, un):
    """lengths the empty line at the start of the unparsed bytes may have, as established on the path"""
    v = mk("proj", un, "*")
    r = set()
    for b, n in (((13, 10), 2), ((10,), 1)):
        x = mk("bytes", b)
        if ai.evalb(s, EQ(v, x)) == 1 or ai.evalb(s, mk("app", "startswith", v, x)) == 1:
            r.add(n)
    return r or None


def exact(ai, s, un):
    """the unparsed bytes are just the empty line"""
    v = mk("proj", un, "*")
    return any(ai.evalb(s, EQ(v, mk("bytes", b))) == 1 for b in ((13, 10), (10,)))


def startswith(ai, fr, st, c):
    a, b = (ai.deref(fr, st, x) if x.k == "ref" else mk("proj", x, "*") for x in c.args[:2])
    if b.k == "proj" and b.a[1] == "*" and b.a[0].k == "bytes":
        b = b.a[0]
    return [(INT(x), s) for x, s in ai.branch(st, mk("app", "startswith", a, b))]
