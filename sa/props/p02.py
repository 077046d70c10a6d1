"""For every read accessor of the C interface the analysis computes, on every
path, the abstract value it returns for a non-NULL object and compares it with
the attribute the accessor is named after (a pointer into the object, the
scalar itself, or the documented code for `absent` / `does not fit`).  No
accessor may modify the object.  The data entry points must hand their
buffer to the parser of their own direction and return its status."""
import capi
import expect as X
from absint import mk, INT, NULL, REF, LT, NOT, EQ, OPT, show, Budget, SOME, NONE
from models import cmp_variants

T, H, HS, U, CP, C, D, L = ("transaction::Transaction", "transaction::Header", "transaction::Headers", "uri::Uri",
                            "connection_parser::ConnectionParser", "connection::Connection", "transaction::Data",
                            "log::Log")


def spec(p):
    t, h, hs, u, cp, c, d, lg = (X.Obj(p, n, ty) for n, ty in (
        ("tx", T), ("header", H), ("headers", HS), ("uri", U), ("connp", CP), ("conn", C), ("data", D), ("log", L)))
    S = {}
    for f in ("request_line", "request_method", "request_uri", "request_protocol", "parsed_uri",
              "request_content_type", "request_hostname", "response_line", "response_protocol", "response_status",
              "response_message", "response_content_type"):
        S["htp_tx_" + f] = X.optref(t, f)
    for f in ("request_method_number", "request_protocol_number", "request_transfer_coding",
              "request_content_encoding", "request_auth_type", "response_protocol_number", "flags",
              "request_progress", "response_progress", "is_protocol_0_9", "is_http_2_upgrade"):
        S["htp_tx_" + f] = X.val(t, f)
    for f in ("request_headers", "response_headers", "cfg"):
        S["htp_tx_" + f] = X.ref(t, f)
    for f in ("request_content_length", "response_content_length"):
        S["htp_tx_" + f] = X.optfits(t, f, "i64")
    for f in ("request_message_len", "request_entity_len", "response_message_len", "response_entity_len"):
        S["htp_tx_" + f] = X.fits(t.val(f), "i64")
    S["htp_tx_request_port_number"] = X.optint(t, "request_port_number")
    S["htp_tx_index"] = X.fits(t.val("index"), "isize")
    for d_ in ("request", "response"):
        el = t.val(d_ + "_headers.elements")
        S["htp_tx_%s_headers_size" % d_] = X.fits(mk("app", "len", el), "isize")
        ix = mk("sym", "arg:index")
        inr = LT(ix, mk("app", "len", el))
        r = t.ref(d_ + "_headers.elements")
        S["htp_tx_%s_header_index" % d_] = [([(inr, 1)], REF(r.a[0], r.a[1] + (("i", ix),))), ([(inr, 0)], NULL)]
        S["htp_tx_%s_header" % d_] = X.optref_term(mk("app", "lookup", t.ref(d_ + "_headers"), REF(("o", "ckey"))))
    sn = t.val("response_status_number")
    RN = "transaction::HtpResponseNumber"
    S["htp_tx_response_status_number"] = [
        ([(sn, "UNKNOWN", RN)], INT(0)), ([(sn, "INVALID", RN)], INT(-1)),
        ([(sn, "VALID", RN)], t.val("response_status_number.#VALID"))]
    HU = "config::HtpUnwanted"
    en = t.val("response_status_expected_number")
    S["htp_tx_response_status_expected_number"] = [([], mk("discr", en, HU))]
    inc = t.val("cfg.decoder_cfg.normalized_uri_include_all")
    S["htp_tx_normalized_uri"] = [([(inc, b)] + a, v) for b, f in ((1, "complete_normalized_uri"),
                                                                    (0, "partial_normalized_uri"))
                                  for a, v in X.optref(t, f)]
    for f in ("scheme", "username", "password", "hostname", "port", "path", "query", "fragment"):
        S["htp_uri_" + f] = X.optref(u, f)
    S["htp_uri_port_number"] = X.optint(u, "port_number")
    for f in ("name", "value"):
        S["htp_header_" + f] = X.ref(h, f)
        S["htp_header_%s_ptr" % f] = [([], mk("app", "as_ptr", h.val(f + ".s")))]
        S["htp_header_%s_len" % f] = X.fits(mk("app", "len", h.val(f + ".s")), "isize")
    S["htp_header_flags"] = X.val(h, "flags")
    el = hs.val("elements")
    ix = mk("sym", "arg:index")
    inr = LT(ix, mk("app", "len", el))
    r = hs.ref("elements")
    S["htp_headers_get_index"] = [([(inr, 1)], REF(r.a[0], r.a[1] + (("i", ix),))), ([(inr, 0)], NULL)]
    S["htp_headers_size"] = X.fits(mk("app", "len", el), "isize")
    S["htp_headers_get"] = X.optref_term(mk("app", "lookup", REF(("o", "headers")), REF(("o", "ckey"))))
    S["htp_conn_request_data_counter"] = X.val(c, "request_data_counter")
    S["htp_conn_response_data_counter"] = X.val(c, "response_data_counter")
    S["htp_connp_connection"] = X.ref(cp, "conn")
    S["htp_connp_request_data_consumed"] = X.fits(cp.val("request_bytes_consumed"), "i64")
    S["htp_connp_response_data_consumed"] = X.fits(cp.val("response_bytes_consumed"), "i64")
    # a transaction is visible once its request or its response has begun
    txs = cp.val("transactions.transactions")
    k = mk("sym", "arg:tx_id")
    has = mk("app", "has", txs, k)
    e = cp.ref("transactions.transactions")
    tx = mk("proj", txs, ("i", k))
    rp = mk("proj", tx, ("f", T, "request_progress"))
    sp = mk("proj", tx, ("f", T, "response_progress"))
    RP, SP = "transaction::HtpRequestProgress", "transaction::HtpResponseProgress"
    started = REF(e.a[0], e.a[1] + (("i", k),))
    nr = mk("is", rp, frozenset(("NOT_STARTED",)), RP)
    ns = mk("is", sp, frozenset(("NOT_STARTED",)), SP)
    S["htp_connp_tx"] = [([(has, 0)], NULL), ([(has, 1), (nr, 0)], started), ([(has, 1), (nr, 1), (ns, 0)], started),
                         ([(has, 1), (nr, 1), (ns, 1)], NULL)]
    for d_ in ("request", "response"):
        b = mk("app", "active-" + d_, REF(("o", "connp")))
        S["htp_connp_get_%s_tx" % d_] = X.optref_term(b)
        S["htp_connp_%s_data" % d_] = [([], mk("app", d_ + "_data", REF(("o", "connp")),
                                               mk("sym", "buffer"), mk("sym", "stamp")))]
    # what is left of a data chunk: the gap length, or the bytes behind the read position
    PD = "connection_parser::ParserData"
    pd = mk("proj", d.val("data"), "*")
    f = lambda n: mk("proj", pd, ("f", PD, n))
    gap, dat, pos = f("gap_len"), f("data"), f("position")
    gl = mk("proj", gap, ("v", "Some", "0"))
    buf = mk("proj", dat, ("v", "Some", "0"))
    n = mk("app", "len", buf)
    from absint import arith
    rest = arith("Sub", n, pos)
    S["htp_tx_data_data"] = [([(dat, "None", OPT)], NULL), ([(dat, "Some", OPT), (LT(n, pos), 1)], NULL),
                             ([(dat, "Some", OPT), (LT(n, pos), 0)],
                              mk("app", "as_ptr", mk("proj", mk("app", "slice", buf, pos, n), "*")))]
    G = (gap, "Some", OPT)
    N = (gap, "None", OPT)
    S["htp_tx_data_len"] = [([G, (LT(pos, gl), 0)], INT(0))] + \
        [([G, (LT(pos, gl), 1)] + a, v) for a, v in X.fits(arith("Sub", gl, pos), "isize")] + \
        [([N, (dat, "None", OPT)], INT(0)), ([N, (dat, "Some", OPT), (LT(n, pos), 1)], INT(0))] + \
        [([N, (dat, "Some", OPT), (LT(n, pos), 0)] + a, v) for a, v in X.fits(rest, "isize")]
    S["htp_tx_data_is_empty"] = [
        ([G, (LT(pos, gl), 0)], INT(1)), ([G, (LT(pos, gl), 1)], EQ(arith("Sub", gl, pos), INT(0))),
        ([N, (dat, "None", OPT)], INT(1)), ([N, (dat, "Some", OPT), (LT(n, pos), 1)], INT(1)),
        ([N, (dat, "Some", OPT), (LT(n, pos), 0)], EQ(rest, INT(0)))]
    S["htp_tx_data_tx"] = X.val(d, "tx")
    S["htp_log_code"] = X.val(lg, "msg.code")
    return S


def intrinsics(prog):
    """callees below the accessor level whose own behaviour is another property's business"""
    I = {}

    def opt(term):
        def h(ai, fr, st, c):
            from absint import SOME, NONE
            t = term(ai, fr, st, c)
            return [((SOME(mk("proj", t, ("v", "Some", "0"))) if v == "Some" else NONE), s)
                    for v, s in ai.cases(st, t, OPT)]
        return h
    for f in prog.method("Headers", "get_nocase_nozero") + prog.method("Table", "get_nocase_nozero"):
        I[f.id] = opt(lambda ai, fr, st, c: mk("app", "lookup", c.args[0], key_of(ai, fr, st, c.args[1])))
    for d in ("request", "response"):
        for f in prog.method("ConnectionParser", d):
            I[f.id] = opt(lambda ai, fr, st, c, d=d: mk("app", "active-" + d, c.args[0]))
        for f in prog.method("ConnectionParser", d + "_data"):
            I[f.id] = lambda ai, fr, st, c, d=d: [(mk("app", d + "_data", c.args[0], data_of(ai, st, c.args[1]),
                                                      stamp_of(c.args[2])), st)]
    return I


def key_of(ai, fr, st, v):
    """the C string a lookup key was made from"""
    seen = 0
    while seen < 8:
        seen += 1
        if v.k == "ref" and v.a[0][0] == "o":
            return v
        if v.k == "ref" and v.a[0][0] == "d" and not v.a[1]:
            v = v.a[0][1]
        elif v.k == "ref":
            v = ai.deref(fr, st, v)
        elif v.k == "app" and v.a[0] in ("cstr", "cstr_bytes"):
            v = v.a[1]
        elif v.k == "proj" and v.a[1] == "*":
            v = v.a[0]
        else:
            break
    return v


def data_of(ai, st, v):
    return mk("sym", "buffer") if uses(v, "data") and uses(v, "arg:len") else v


def stamp_of(v):
    return mk("sym", "stamp")


def uses(v, name):
    from absint import atoms, refs
    return any(a.a[0] == name for a in atoms(v)) or any(r == ("o", name) for r in refs(v)) or \
        any(uses(x, name) for x in _subs(v) if x is not v)


def _subs(v):
    from absint import V
    out = []

    def w(x):
        if isinstance(x, V):
            out.append(x)
            for y in x.a:
                w(y)
        elif isinstance(x, tuple):
            for y in x:
                w(y)
    for y in v.a:
        w(y)
    return out


def run(ctx):
    p = ctx.prog
    ex = capi.exported(p)
    S = spec(p)
    I = intrinsics(p)
    ctx.floor("accessors", len([n for n in S if n in ex]), len(S))
    for name in sorted(S):
        f = ex.get(name)
        if f is None:
            ctx.violation("missing:" + name, "the C accessor %s no longer exists" % name)
            continue
        r = capi.Run(p, f, (), intrinsics=I)
        ctx.used(r.ai)
        bad = X.compare(r.ai, r.outs, S[name], f.locals[0]["ty"])
        for b in bad:
            ctx.violation("value:" + name, "%s (%s): %s" % (name, f.where(), b))
        w = [x for x in capi.writes_desc(r)]
        if w and not name.endswith("_data") or (w and name == "htp_tx_data_data"):
            ctx.violation("write:" + name, "%s modifies %s" % (f.where(), ", ".join(w)))
        for kind, msg in r.mon.ev:
            ctx.violation("%s:%s" % (kind, name), "%s: %s" % (name, msg))
        ctx.ok("accessor", name)
        ctx.count("cases", len(S[name]))
    # user data: what is set is what is read back
    for get, set_, obj, ty in (("htp_tx_get_user_data", "htp_tx_set_user_data", "tx", T),
                               ("htp_connp_user_data", "htp_connp_set_user_data", "connp", CP)):
        if get not in ex or set_ not in ex:
            ctx.violation("missing:" + get, "user data accessors are gone")
            continue
        r = capi.Run(p, ex[set_])
        o = X.Obj(p, obj, ty)
        for ret, st in r.outs:
            v = r.ai.read(None, st, ("o", obj), o.path("user_data"))
            if not (v.k == "agg" and v.a[1] == "Some" and v.a[2][0][1] is REF(("o", "user_data"))):
                ctx.violation("value:" + set_, "%s stores %s instead of the given pointer" % (ex[set_].where(), show(v)))
        g = capi.Run(p, ex[get])
        ud = o.val("user_data")
        for ret, st in g.outs:
            d = g.ai.dom(st, ud, OPT)
            if ret is NULL:
                continue
            if d != ("in", frozenset(("Some",))) or ret is not o.val("user_data.#Some"):
                ctx.violation("value:" + get, "%s returns %s instead of the stored pointer" % (ex[get].where(), show(ret)))
        if all(ret is NULL for ret, st in g.outs):
            ctx.violation("value:" + get, "%s never returns the stored pointer" % ex[get].where())
        ctx.used(r.ai)
        ctx.used(g.ai)
        ctx.ok("accessor", get)
        ctx.ok("accessor", set_)
    # the transaction count follows the larger of the two active indices
