"""How the body of a message is delimited, and the flags raised on the way, as
a decision table over the facts the code may look at (presence and shape of
the framing headers, protocol version, method, status, configuration).  The
deciding functions are abstractly executed with all these facts left open; on
every path the outcome (transfer coding, remaining length, next state,
progress, flags, error) must be the one the table gives for the path's facts."""
from absint import AI, St, mk, INT, REF, RES, SOME, NONE, OK, ERR, UNIT, AGG, OPT, show, EQ, LT, project, BIT
import parser as P
import chunk as K
import dtable as D
from parser import CP, TX, PD, ST, SS, domset, fld

TC, RP, QP, PROTO, METHOD, RN = ("transaction::HtpTransferCoding", "transaction::HtpResponseProgress",
                                 "transaction::HtpRequestProgress", "transaction::HtpProtocol", "HtpMethod",
                                 "transaction::HtpResponseNumber")


def run(ctx):
    p = ctx.prog
    METHODS = [k for k in p.adts if k.split("::")[-1] == "HtpMethod"]
    globals()["METHOD"] = METHODS[0]
    request_determine(ctx, p)
    connect_states(ctx, p)
    process_headers(ctx, p)
    response_determine(ctx, p)


def initial(o, ty, f):
    return mk("proj", mk("sym", o), ("f", ty, f))


def payload(v):
    return v.a[2][0][1] if v.k == "agg" else project(v, ("v", "Some", "0"))


class Mon(P.Base):
    pass


def machine(ctx, p, mon, extra=None, objs=None):
    ix = P.log_intrinsics(p)
    ix.update(P.tx_intrinsics(p))
    ix.update(D.header_intrinsics(p))
    ix.update(K.bstr_ops(p))
    ix.update(extra or {})
    ot = {"connp": CP, "req": TX, "resp": TX, "data": PD}
    ot.update(D.objects())
    return AI(p, monitor=mon, objtypes=ot, tracked_all=True, relevant={x for x in ix if x in p.fns}, intrinsics=ix,
              step_cap=4000000, state_cap=60000)


def compare(ctx, mon, ai, s, where, exp, got, trace):
    for k, w in exp.items():
        g = got[k](w)
        if g is not None:
            mon.bad(k, "%s: %s; when %s" % (where, g, "; ".join("%s=%s" % (n if isinstance(n, str) else show(n)[:60], v)
                                                             for n, v in trace)))


def variant_is(ai, s, t, adt, what):
    def h(w):
        d = domset(ai, s, t, adt)
        return None if d == {w} else "%s is %s, not %s" % (what, "/".join(sorted(d)), w)
    return h


def same(v, what):
    return lambda w: None if v is w else "%s is %s, not %s" % (what, show(v)[:80], show(w)[:80])


def request_determine(ctx, p):
    f = P.one(ctx, "handle_request_state")
    if f is None:
        return
    mon = Mon(ctx, "request_body_determine")
    ai = machine(ctx, p, mon)
    outs = dispatch(ctx, ai, f, "request", "BODY_DETERMINE")
    n = 0
    tc0, cl0 = initial("req", TX, "request_transfer_coding"), initial("req", TX, "request_content_length")
    pr0, st0 = initial("req", TX, "request_progress"), initial("connp", CP, "request_state")

    def oracle(e):
        if not e.true(mk("app", "has", "req"), "a current request"):
            return {"ret": "ERROR"}
        c = e.variant(tc0, TC, "coding")
        if c == "CHUNKED":
            return {"ret": None, "state": "BODY_CHUNKED_LENGTH", "progress": "BODY"}
        if c == "IDENTITY":
            pos = e.some(cl0, "length known") and e.true(LT(INT(0), payload(cl0)), "length > 0")
            return {"ret": None, "state": "BODY_IDENTITY" if pos else "FINALIZE", "progress": "BODY" if pos else pr0,
                    "left": cl0, "length": cl0}
        if c == "NO_BODY":
            return {"ret": None, "state": "FINALIZE", "progress": pr0}
        return {"ret": "ERROR"}
    for ret, s in outs:
        for s2, exp, trace in D.explore(ai, s, oracle):
            n += 1
            got = {"ret": lambda w: result(ai, s2, ret, w),
                   "state": variant_is(ai, s2, fld(ai, s2, "connp", CP, "request_state"), ST, "the next state"),
                   "progress": lambda w: prog(ai, s2, "req", "request_progress", QP, w),
                   "left": same(fld(ai, s2, "connp", CP, "request_body_data_left"), "the body length still expected"),
                   "length": same(fld(ai, s2, "connp", CP, "request_content_length"), "the body length")}
            compare(ctx, mon, ai, s2, f.where(), exp, got, trace)
            ctx.ok("row", "request_body_determine %s" % n)
    ctx.floor("request_body_determine rows", n, 5)


def dispatch(ctx, ai, f, d, state, st=None):
    """the processing step of a state"""
    st = st or St({}, {}, ())
    ai.restrict(st, initial("connp", CP, d + "_state"), "in", frozenset((state,)), ST)
    outs = ai.run(f.id, [REF(("o", "connp")), REF(("o", "data"))], st)
    ctx.used(ai)
    return outs


def status_values(p, f, spec):
    nums = set()
    for c in set(spec) | constants(p, f):
        nums |= {max(c - 1, 0), c, min(c + 1, 65535)}
    return sorted(nums) + ["UNKNOWN", "INVALID"]


def status(num):
    return mk("agg", RN, "VALID", ((("v", "VALID", "0"), INT(num)),)) if isinstance(num, int) else mk("agg", RN, num, ())


def connect_states(ctx, p):
    """CONNECT requests: wait for the response, then tunnel (2xx) or go on"""
    f = P.one(ctx, "handle_request_state")
    if f is None:
        return
    method, prog0 = initial("req", TX, "request_method_number"), initial("req", TX, "response_progress")
    status0, state0 = initial("connp", CP, "request_status"), initial("connp", CP, "request_state")

    def check(e):
        if not e.true(mk("app", "has", "req"), "a current request"):
            return {"ret": "ERROR"}
        if e.oneof(method, METHOD, ("CONNECT",), "CONNECT"):
            return {"ret": "DATA_OTHER", "state": "CONNECT_WAIT_RESPONSE", "status": "DATA_OTHER"}
        return {"ret": None, "state": "BODY_DETERMINE", "status": status0}

    def wait(num):
        def h(e):
            if not e.true(mk("app", "has", "req"), "a current request"):
                return {"ret": "ERROR"}
            if e.oneof(prog0, RP, ("NOT_STARTED", "LINE"), "response line not seen"):
                return {"ret": "DATA_OTHER", "state": state0, "status": status0}
            return {"ret": None, "status": status0,
                    "state": "CONNECT_PROBE_DATA" if isinstance(num, int) and 200 <= num <= 299 else "FINALIZE"}
        return h
    n = 0
    for state, num, oracle in [("CONNECT_CHECK", None, check)] + [
            ("CONNECT_WAIT_RESPONSE", x, wait(x)) for x in status_values(p, f, (100, 200, 299, 999))]:
        mon = Mon(ctx, state.lower())
        ai = machine(ctx, p, mon)
        st = St({}, {}, (("pin", status0, state0),))
        if num is not None:
            ai.write(None, st, ("o", "req"), (("f", TX, "response_status_number"),), status(num))
        for ret, s in dispatch(ctx, ai, f, "request", state, st):
            for s2, exp, trace in D.explore(ai, s, oracle):
                n += 1

                def is_(name, adt, what):
                    v = fld(ai, s2, "connp", CP, name)
                    return lambda w: (variant_is(ai, s2, v, adt, what) if isinstance(w, str) else same(v, what))(w)
                got = {"ret": lambda w: result(ai, s2, ret, w), "state": is_("request_state", ST, "the next state"),
                       "status": is_("request_status", SS, "the request stream's status")}
                compare(ctx, mon, ai, s2, f.where(), exp, got, [("state", state), ("status", num)] + trace)
                ctx.ok("row", "%s %s" % (state, n))
    ctx.floor("connect rows", n, 20)


def result(ai, s, ret, w):
    r = domset(ai, s, ret, RES)
    if w == "any":
        return None if r == {"Err"} else "the result is %s, not an error" % "/".join(r)
    if w is None:
        return None if r == {"Ok"} else "the result is %s, not Ok" % "/".join(r)
    if r != {"Err"}:
        return "the result is %s, not Err(%s)" % ("/".join(r), w)
    d = domset(ai, s, P.err_of(ret), P.HS)
    return None if d == {w} else "the result is Err(%s), not Err(%s)" % ("/".join(sorted(d))[:60], w)


def prog(ai, s, o, f, adt, w):
    v = fld(ai, s, o, TX, f)
    if isinstance(w, str):
        return variant_is(ai, s, v, adt, "the progress")(w)
    return same(v, "the progress")(w)


# ------------------------------------------------------------------ request headers
FLAG = {"SMUGGLING": 0x100, "INVALID_T_E": 0x400, "INVALID": 0x1_0000_0000, "INVALID_C_L": 0x2_0000_0000,
        "HOST_MISSING": 0x1000, "HOST_AMBIGUOUS": 0x2000, "HOSTH_INVALID": 0x400_0000, "AUTH_INVALID": 0x4_0000_0000}
FOLDED, REPEATED = 0x10, 0x20


def process_headers(ctx, p):
    f = P.one(ctx, "process_request_headers", "Transaction")
    if f is None:
        return
    hp = mk("app", "hostport")
    auth = mk("app", "authresult")

    def hostport(ai, fr, st, c):
        return [(hp, st)]

    def authorize(ai, fr, st, c):
        return [(auth, st)]

    def ctype(ai, fr, st, c):
        return [(mk("app", "ctype"), st)]

    def cmpn(ai, fr, st, c):
        return [(mk("app", "hostcmp"), st)]
    ix = {}
    for n, h in (("parsers::parse_hostport", hostport), ("parsers::parse_authorization", authorize),
                 ("parsers::parse_content_type", ctype)):
        for g in p.find(n):
            ix[g.id] = h
    for g in p.method("Bstr", "cmp_nocase"):
        ix[g.id] = cmpn
    wr = p.touches()
    kept = {"flags", "request_transfer_coding", "request_content_length", "request_hostname", "request_port_number"}
    for g in ix:
        for x in p.reach([g]):
            for adt, name in (wr[x][1] if x in wr else ()):
                if adt == TX and name in kept:
                    ctx.violation("aside:%s:%s" % (p.fns[g].name, name), "%s (%s), called while the request headers are "
                                  "examined, changes %s itself" % (g, p.fns[x].where(), name))
    ctx.each(lambda c, proto: headers_with(c, p, f, ix, proto), p.variants(PROTO))
    ctx.floor("process_request_headers rows", ctx.counts.get("process_request_headers rows", 0), 1000)


def headers_with(ctx, p, f, ix, proto):
    mon = Mon(ctx, "process_request_headers")
    ai = machine(ctx, p, mon, ix)
    st = St({}, {}, ())
    ai.restrict(st, initial("req", TX, "request_protocol_number"), "in", frozenset((proto,)), PROTO)
    for x in ("request_hostname", "request_port_number"):
        ai.restrict(st, initial("req", TX, x), "in", frozenset(("None",)), OPT)
    outs = ai.run(f.id, [REF(("o", "req"))], st)
    ctx.used(ai)
    old = proto != "V1_1"
    te, cl = D.hdr("request", "transfer-encoding"), D.hdr("request", "content-length")
    cobj = D.hobj("request", "content-length")
    clen = mk("app", "clen", cobj)
    chunked = mk("app", "find", project(D.hobj("request", "transfer-encoding"), ("f", D.HDR, "value")),
                 mk("bytes", tuple(b"chunked")))
    cflags = project(cobj, ("f", D.HDR, "flags"))
    hp = mk("app", "hostport")
    tup = project(project(hp, ("v", "Ok", "0")), ("t", 1))
    host, pport, valid = (project(tup, ("t", i)) for i in range(3))
    auth = mk("app", "authresult")
    uri = initial("req", TX, "parsed_uri")
    cl0 = initial("req", TX, "request_content_length")

    def oracle(e):
        fl = 0
        length = cl0
        if e.true(te, "T-E"):
            if e.some(chunked, "T-E has chunked"):
                coding = "CHUNKED"
                if old:
                    fl |= FLAG["INVALID_T_E"] | FLAG["SMUGGLING"]
                if e.true(cl, "C-L"):
                    fl |= FLAG["SMUGGLING"]
            else:
                coding = "INVALID"
                fl |= FLAG["INVALID_T_E"] | FLAG["INVALID"]
        elif e.true(cl, "C-L"):
            if e.true(BIT(cflags, 4), "C-L folded") or e.true(BIT(cflags, 5), "C-L repeated"):
                fl |= FLAG["SMUGGLING"]
            length = clen
            if e.some(clen, "C-L valid"):
                coding = "IDENTITY"
            else:
                coding = "INVALID"
                fl |= FLAG["INVALID_C_L"] | FLAG["INVALID"]
        else:
            coding = "NO_BODY"
        uhost = uport = None
        if e.some(uri, "URI"):
            u = project(uri, ("v", "Some", "0"))
            uhost = project(u, ("f", "uri::Uri", "hostname"))
            uport = project(u, ("f", "uri::Uri", "port_number"))
            uhost = uhost if e.some(uhost, "URI host") else None
            uport = uport if e.some(uport, "URI port") else None
        hostname = ("uri",) if uhost is not None else ("none",)
        portno = ("uri",) if uport is not None else ("none",)
        if e.true(D.hdr("request", "host"), "Host"):
            if e.variant(hp, RES, "Host parses") == "Ok":
                if not e.true(valid, "Host valid"):
                    fl |= FLAG["HOSTH_INVALID"]
                hasport = e.some(pport, "Host has a port")
                if uhost is None:
                    hostname = ("header",)
                    if hasport:
                        portno = ("header",)
                else:
                    if not e.oneof(mk("app", "hostcmp"), "std::cmp::Ordering", ("Equal",), "Host matches the URI's"):
                        fl |= FLAG["HOST_AMBIGUOUS"]
                    if hasport and uport is not None:
                        hport = project(project(pport, ("v", "Some", "0")), ("t", 1))
                        if not e.some(hport, "Host port is a number") or not e.true(
                                EQ(payload(hport), payload(uport)), "Host port is the URI's"):
                            fl |= FLAG["HOST_AMBIGUOUS"]
            elif uhost is not None:
                fl |= FLAG["HOST_AMBIGUOUS"]
        elif not old:
            fl |= FLAG["HOST_MISSING"]
        r = {"flags": fl, "coding": coding, "length": length, "host": hostname, "port": portno, "ret": None}
        if e.true(D.hdr("request", "content-type"), "C-T") and e.variant(mk("app", "ctype"), RES, "C-T parses") == "Err":
            r["ret"] = "any"
            return r
        if e.true(project(initial("req", TX, "cfg"), ("f", P.CFG, "parse_request_auth")), "parse auth") and \
                e.variant(auth, RES, "authorization") == "Err":
            if e.oneof(project(auth, ("v", "Err", "0")), P.HS, ("DECLINED",), "declined"):
                r["flags"] |= FLAG["AUTH_INVALID"]
            else:
                r["ret"] = "any"
        return r
    n = 0
    f0 = initial("req", TX, "flags")
    for ret, s in outs:
        fl = D.bits(fld(ai, s, "req", TX, "flags"), f0)
        for s2, exp, trace in D.explore(ai, s, oracle):
            n += 1
            got = {"ret": lambda w: result(ai, s2, ret, w),
                   "flags": lambda w: flagdiff(fl, w),
                   "coding": variant_is(ai, s2, fld(ai, s2, "req", TX, "request_transfer_coding"), TC, "the transfer coding"),
                   "length": same(fld(ai, s2, "req", TX, "request_content_length"), "the content length"),
                   "host": lambda w: source(ai, s2, fld(ai, s2, "req", TX, "request_hostname"), w, host, "host name"),
                   "port": lambda w: source(ai, s2, fld(ai, s2, "req", TX, "request_port_number"), w, pport, "port")}
            compare(ctx, mon, ai, s2, f.where(), exp, got, [("protocol", proto)] + trace)
            ctx.ok("row", "process_request_headers %s %s" % (proto, n))
    ctx.count("process_request_headers rows", n)


def flagdiff(g, w):
    if g is None:
        return "the flags are not the ones before plus what was found"
    names = {v: k for k, v in FLAG.items()}

    def ns(x):
        return ",".join(sorted(names.get(1 << i, hex(1 << i)) for i in range(64) if x >> i & 1)) or "none"
    return None if g == w else "the flags raised are %s, not %s" % (ns(g), ns(w))


def has(v, pred):
    if not hasattr(v, "k"):
        return isinstance(v, tuple) and any(has(x, pred) for x in v)
    return pred(v) or any(has(x, pred) for x in v.a)


def source(ai, s, v, w, parsed, what):
    """does the value come from where it should?"""
    if w == ("none",):
        return None if domset(ai, s, v, OPT) == {"None"} else "a %s is set though there is none" % what
    if domset(ai, s, v, OPT) == {"None"}:
        return "no %s is set" % what
    t = show(v)
    field = {"host name": "hostname", "port": "port_number"}[what]
    u = has(v, lambda x: x.k == "proj" and x.a[1] == ("f", "uri::Uri", field))
    h = has(v, lambda x: x is parsed)
    if w == ("uri",) and (not u or h):
        return "the %s is %s, not the one of the request URI" % (what, t[:60])
    if w == ("header",) and what == "host name" and not has(v, lambda x: x.k == "app" and x.a[0] == "lower"):
        return "the host name of the Host header is not stored in lower case"
    if w == ("header",) and (u or not h):
        return "the %s is %s, not the one of the Host header" % (what, t[:60])
    return None


# ------------------------------------------------------------------ responses
SPEC = (100, 101, 199, 200, 204, 299, 304, 400, 407, 499)


def constants(p, f):
    """numbers the function (or a helper of the status type) compares with"""
    seen = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get("ty") == "u16" and isinstance(x.get("int"), int):
                seen.add(x["int"])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    fns = [p.fns[g] for g in p.reach([f.id])] if p is not None else []
    for g in fns:
        walk(g.blocks)
    return seen


def response_determine(ctx, p):
    f = P.one(ctx, "handle_response_state")
    if f is None:
        return
    ctx.each(lambda c, n: response_with(c, p, f, n), status_values(p, f, SPEC))
    ctx.floor("response_body_determine rows", ctx.counts.get("response_body_determine rows", 0), 1000)


def response_with(ctx, p, f, num):
    srh = mk("app", "headers_done")

    def done(ai, fr, st, c):
        s = st.clone()
        s.mon = s.mon + (("headers",),)
        return [(srh, s)]
    ix = {g.id: done for g in p.method("ConnectionParser", "state_response_headers")}
    for g in p.method("Bstr", "cmp_nocase"):
        ix[g.id] = lambda ai, fr, st, c: [(mk("app", "tecmp"), st)]
    exp100 = mk("app", "expect100")
    for g in p.method("Bstr", "eq_slice"):
        ix[g.id] = lambda ai, fr, st, c: [(INT(v), s) for v, s in ai.branch(st, exp100)] \
            if D.text(ai, fr, st, c.args[1]) == b"100-continue" else None
    hf = D.header_intrinsics(p)
    multi = mk("app", "multipart")

    def find(ai, fr, st, c):
        if D.text(ai, fr, st, c.args[1]) == b"multipart/byteranges":
            return [(multi, st)]
        return hf[c.target](ai, fr, st, c)
    for m in ("index_of_nocase_nozero", "index_of_nocase"):
        for g in p.method("Bstr", m):
            ix[g.id] = find
    mon = Mon(ctx, "response_body_determine")
    ai = machine(ctx, p, mon, ix)
    st = St({}, {}, (("pin", initial("connp", CP, "request_status")),))
    ai.write(None, st, ("o", "resp"), (("f", TX, "response_status_number"),), status(num))
    outs = dispatch(ctx, ai, f, "response", "BODY_DETERMINE", st)
    te, cl = D.hdr("response", "transfer-encoding"), D.hdr("response", "content-length")
    cobj = D.hobj("response", "content-length")
    clen = mk("app", "clen", cobj)
    cflags = project(cobj, ("f", D.HDR, "flags"))
    chunked = mk("app", "find", project(D.hobj("response", "transfer-encoding"), ("f", D.HDR, "value")),
                 mk("bytes", tuple(b"chunked")))
    method = initial("resp", TX, "request_method_number")
    rs0, qs0, qst0 = (initial("connp", CP, x) for x in ("response_status", "request_status", "request_state"))
    qcl, qleft = initial("connp", CP, "request_content_length"), initial("connp", CP, "request_body_data_left")
    pr0, tc0 = initial("resp", TX, "response_progress"), initial("resp", TX, "response_transfer_coding")
    h20 = initial("resp", TX, "is_http_2_upgrade")
    h2c = mk("app", "find", project(D.hobj("response", "upgrade"), ("f", D.HDR, "value")), mk("bytes", tuple(b"h2c")))
    other0 = initial("connp", CP, "response_data_other_at_tx_end")

    def within(a, b):
        return isinstance(num, int) and a <= num <= b

    def unblock(e, to):
        return qs0 if e.oneof(qs0, SS, ("ERROR", "STOP"), "request failed or stopped") else to

    def oracle(e):
        if not e.true(mk("app", "has", "resp"), "a current response"):
            return {"ret": "ERROR"}
        r = {"ret": "done", "flags": 0, "progress": pr0, "other": other0, "qstatus": qs0, "rstatus": rs0,
             "qstate": qst0, "coding": tc0, "h2": h20}
        connect = e.oneof(method, METHOD, ("CONNECT",), "CONNECT")
        if connect:
            if within(200, 299):
                r["state"] = "FINALIZE"
                return r
            r["qstatus"] = unblock(e, "DATA")
            if num != 407:
                r["other"] = 1
        has_te, has_cl = e.true(te, "T-E"), e.true(cl, "C-L")
        if num == 101 and e.true(D.hdr("response", "upgrade"), "Upgrade") and e.some(h2c, "Upgrade: h2c"):
            r["h2"] = 1
        if num == 101 and not has_te and not has_cl:
            r["state"] = "FINALIZE"
            r["qstatus"] = unblock(e, "TUNNEL")
            r["rstatus"] = "TUNNEL"
            return r
        if num == 100 and not has_te and not (
                has_cl and e.some(clen, "C-L valid") and e.true(LT(INT(0), payload(clen)), "C-L > 0")):
            r.update(ret=None, state="LINE", progress="LINE", seen=1, headers="cleared")
            return r
        if within(400, 499) and e.some(qcl, "request length known") and \
                e.true(LT(INT(0), payload(qcl)), "request length > 0") and \
                e.some(qleft, "request body expected") and e.true(EQ(payload(qcl), payload(qleft)), "no request body yet") \
                and e.true(D.hdr("request", "expect"), "Expect") and e.true(exp100, "Expect: 100-continue"):
            r["qstate"] = "FINALIZE"
        if e.oneof(method, METHOD, ("HEAD",), "HEAD") or \
                (within(100, 199) or num in (204, 304)) and not has_te and not has_cl:
            r.update(coding="NO_BODY", state="FINALIZE")
            return r
        mp = e.true(D.hdr("response", "content-type"), "C-T") and e.some(multi, "multipart/byteranges")
        if has_te and e.some(chunked, "T-E has chunked"):
            r.update(coding="CHUNKED", state="BODY_CHUNKED_LENGTH", progress="BODY")
            if has_cl:
                r["flags"] = FLAG["SMUGGLING"]
        elif has_cl:
            r.update(coding="IDENTITY", length=clen, left=clen)
            if e.true(BIT(cflags, 5), "C-L repeated"):
                r["flags"] = FLAG["SMUGGLING"]
            if not e.some(clen, "C-L valid"):
                r["ret"] = "ERROR"
            elif e.true(EQ(payload(clen), INT(0)), "C-L is 0"):
                r["state"] = "FINALIZE"
            else:
                r.update(state="BODY_IDENTITY_CL_KNOWN", progress="BODY")
        elif mp:
            r["ret"] = "ERROR"
        else:
            r.update(coding="IDENTITY", state="BODY_IDENTITY_STREAM_CLOSE", progress="BODY", left=NONE)
        return r
    n = 0
    f0 = initial("resp", TX, "flags")
    for ret, s in outs:
        fl = D.bits(fld(ai, s, "resp", TX, "flags"), f0)
        for s2, exp, trace in D.explore(ai, s, oracle):
            n += 1

            def is_(o, ty, name, adt, what):
                return lambda w: (variant_is(ai, s2, fld(ai, s2, o, ty, name), adt, what) if isinstance(w, str) else
                                  same(fld(ai, s2, o, ty, name), what))(w)

            def bool_(o, ty, name, what):
                return lambda w: (None if (ai.evalb(s2, fld(ai, s2, o, ty, name)) == 1 if w == 1 else
                                           fld(ai, s2, o, ty, name) is w) else "%s is %s" % (
                    what, show(fld(ai, s2, o, ty, name))))
            got = {"ret": lambda w: finish(ai, s2, ret, w, srh),
                   "flags": lambda w: flagdiff(fl, w),
                   "state": is_("connp", CP, "response_state", ST, "the next state"),
                   "progress": is_("resp", TX, "response_progress", RP, "the progress"),
                   "coding": is_("resp", TX, "response_transfer_coding", TC, "the transfer coding"),
                   "qstatus": is_("connp", CP, "request_status", SS, "the request stream's status"),
                   "rstatus": is_("connp", CP, "response_status", SS, "the response stream's status"),
                   "qstate": is_("connp", CP, "request_state", ST, "the request state"),
                   "left": lambda w: optsame(ai, s2, fld(ai, s2, "connp", CP, "response_body_data_left"), w,
                                             "the body length still expected"),
                   "length": lambda w: optsame(ai, s2, fld(ai, s2, "connp", CP, "response_content_length"), w,
                                               "the body length") or
                   optsame(ai, s2, fld(ai, s2, "resp", TX, "response_content_length"), w, "the content length"),
                   "seen": bool_("resp", TX, "seen_100continue", "seen_100continue"),
                   "other": bool_("connp", CP, "response_data_other_at_tx_end", "response_data_other_at_tx_end"),
                   "h2": bool_("resp", TX, "is_http_2_upgrade", "the HTTP/2 upgrade mark"),
                   "headers": lambda w: cleared(ai, s2)}
            compare(ctx, mon, ai, s2, f.where(), exp, got, [("status", num)] + trace)
            ctx.ok("row", "response_body_determine %s %s" % (num, n))
    ctx.count("response_body_determine rows", n)


def optsame(ai, s, v, w, what):
    if v is w:
        return None
    dv, dw = domset(ai, s, v, OPT), domset(ai, s, w, OPT)
    if dv == dw == {"None"} or dv == dw == {"Some"} and payload(v) is payload(w):
        return None
    return "%s is %s, not %s" % (what, show(v)[:80], show(w)[:80])


def cleared(ai, s):
    v = ai.read(None, s, ("o", "resp"), (("f", TX, "response_headers"), ("f", "transaction::Headers", "elements")))
    return None if v.k == "sym" or v.k != "proj" else "the headers of the interim response are kept (%s)" % show(v)[:60]


def finish(ai, s, ret, w, srh):
    if w == "done":
        ok = ret is srh or ("headers",) in s.mon and domset(ai, s, ret, RES) == {
            "Ok"} and domset(ai, s, srh, RES) == {"Ok"} or ("headers",) in s.mon and domset(ai, s, ret, RES) == {"Err"} \
            and domset(ai, s, srh, RES) == {"Err"}
        return None if ok else "the result is %s, not that of completing the headers" % show(ret)[:60]
    if ("headers",) in s.mon:
        return "the headers are completed though the response goes no further"
    return result(ai, s, ret, w)
