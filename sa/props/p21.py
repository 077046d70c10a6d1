"""How request and response lines are taken apart."""
from absint import mk, INT, REF, SOME, NONE, UNIT, AGG, EQ, LT, project, show, RES
import bset as B
from bset import ALL, lit, variations
import parser as P
from parser import CP, TX, CFG
from nom import BS, span
from props.p20 import SPACE, WS
import dtable as D

RULE = ("for every line and configuration the parts stored in the transaction are exactly the bytes the rules of the line format assign to "
        "them, and nothing else of the transaction changes")
PERS, UNW, DCF = "config::HtpServerPersonality", "config::HtpUnwanted", "config::DecoderConfig"
CFGV = mk("proj", mk("sym", "connp"), ("f", CP, "cfg"))
Q = ["request_line", "request_method", "request_method_number", "request_uri", "request_protocol", "request_protocol_number",
     "is_protocol_0_9", "response_status_expected_number"]
R = ["response_line", "response_protocol", "response_protocol_number", "response_status", "response_status_number", "response_message"]


def cfgf(name):
    return project(CFGV, ("f", CFG, name))


def initial(o, f):
    return mk("proj", mk("sym", o), ("f", TX, f))


def prims(p, mon):
    """protocol, status and method recognition are decided by P20"""
    r = P.tx_intrinsics(p, live=True)

    def prim(tag):
        def h(ai, fr, st, c):
            s = mon.inp(ai, fr, st, c.args[0])
            if s is None:
                v = c.args[0]
                for _ in range(3):
                    if v.k == "ref":
                        v = ai.deref(fr, st, v)
                el = mon.list(ai, fr, st, v)
                ix = [int(x.a[0][1:]) for x in el or [] if x.k == "sym"]
                if el is None or len(ix) != len(el) or ix != list(range(ix[0], ix[0] + len(ix)) if ix else []):
                    return None
                s = (ix[0], ix[-1] + 1) if ix else (0, 0)
            return [(mk("app", tag, BS(*(s if s[0] < s[1] else (0, 0)))), st)]
        return h
    for f in p.fns.values():
        if f.kind != "fn" or not f.argc or not f.locals[1]["ty"].endswith("[u8]"):
            continue
        rt = f.locals[0]["ty"].split("::")[-1]
        if rt == "HtpProtocol":
            r[f.id] = prim("protocol")
        elif rt == "HtpResponseNumber":
            r[f.id] = prim("status")
        elif rt == "HtpMethod" and f.argc == 1:
            r[f.id] = prim("method")
    return r


def read(ai, st, o, fields):
    out = {}
    for f in fields:
        v = ai.read(None, st, ("o", o), (("f", TX, f),))
        if v is initial(o, f):
            out[f] = "init"
        elif v.k == "app" and v.a[0] in ("protocol", "status", "method"):
            out[f] = (v.a[0],) + span(v.a[1])
        else:
            out[f] = B.val(ai, st, v)
            if isinstance(out[f], tuple) and out[f][0] == "Some" and isinstance(out[f][1], tuple) and out[f][1][:1] == ("l",):
                ix = [int(x.a[0][1:]) for x in out[f][1][1:] if x.k == "sym" and x.a[0][0] == "b"]
                if len(ix) == len(out[f][1]) - 1 and ix == list(range(ix[0], ix[0] + len(ix)) if ix else []):
                    out[f] = ("Some", ("s", ix[0], ix[-1] + 1) if ix else ("s", 0, 0))
            if out[f] == ("?", show(v)[:80]):
                for adt in (UNW,):
                    if f == "response_status_expected_number":
                        out[f] = show(v)
    return out


def sp(tag, s):
    return (tag,) + s[1:]


def o_request(s):
    n = s.n
    w = dict.fromkeys(Q, "init")
    w["request_line"] = ("Some", s.span(0, n))
    end = n
    if s.e.oneof(cfgf("server_personality"), PERS, ("APACHE_2",)):
        end = s.whil(0, ALL - frozenset((0,)))
    i = s.whil(0, SPACE, end)
    k = s.whil(i, ALL - frozenset(SPACE), end)
    m = s.whil(k, SPACE, end)
    start = i
    if i > 0 and not s.e.oneof(cfgf("requestline_leading_whitespace_unwanted"), UNW, ("IGNORE",)):
        start = 0
        w["response_status_expected_number"] = show(cfgf("requestline_leading_whitespace_unwanted"))
    w["request_method"] = ("Some", s.span(start, k))
    w["request_method_number"] = sp("method", s.span(start, k))
    if m == end:
        w["is_protocol_0_9"] = 1
        w["request_protocol_number"] = "V0_9"
        return ("Ok", w)
    while s.isin(end - 1, SPACE):
        end -= 1
    last = s.e.true(project(cfgf("decoder_cfg"), ("f", DCF, "allow_space_uri")), "allow_space_uri")
    order = list(range(m, end))
    if last:
        order.reverse()
    cut = next((x for x in order if s.is_(x, 32)), None)
    if cut is None:
        cut = next((x for x in order if s.isin(x, SPACE)), None)
    if cut is None:
        uri, proto = (m, end), (end, end)
    else:
        a, b = cut, cut + 1
        while a > m and s.isin(a - 1, SPACE):
            a -= 1
        while b < end and s.isin(b, SPACE):
            b += 1
        uri, proto = (m, a), (b, end)
    w["request_uri"] = ("Some", s.span(*uri))
    if proto[0] == proto[1]:
        w["is_protocol_0_9"] = 1
        w["request_protocol_number"] = "V0_9"
    else:
        w["request_protocol"] = ("Some", s.span(*proto))
        w["request_protocol_number"] = sp("protocol", s.span(*proto))
    return ("Ok", w)


def o_response(s):
    n = s.n
    w = dict(response_line=("Some", s.span(0, n)), response_protocol="init", response_protocol_number="INVALID", response_status="None",
             response_status_number="INVALID", response_message="None")
    i = s.whil(0, SPACE + b"\0")
    k = s.whil(i, ALL - frozenset(SPACE))
    if i == k:
        return ("Ok", w)
    w["response_protocol"] = ("Some", s.span(i, k))
    w["response_protocol_number"] = sp("protocol", s.span(i, k))
    a = s.whil(k, SPACE)
    b = s.whil(a, ALL - frozenset(SPACE))
    if a == k or a == b:
        return ("Ok", w)
    w["response_status"] = ("Some", s.span(a, b))
    w["response_status_number"] = sp("status", s.span(a, b))
    m = s.whil(b, WS)
    if m == b:
        return ("Ok", w)
    e = n
    while e > m and s.isin(e - 1, b"\r\n"):
        e -= 1
    w["response_message"] = ("Some", s.span(m, e))
    return ("Ok", w)


def judge(o, fields):
    def f(ai, st, ret):
        v = ret.a[1] if ret.k == "agg" else "?"
        return (v, read(ai, st, o, fields))
    return f


ONE = frozenset(b"Gg/1")


def words(ws):
    out = []
    for w in ws:
        out += [[ALL if x == 0x3f else frozenset((x,)) for x in w]]
    return out


REQ = [[ALL] * k for k in range(6)] + words([b"?G?/", b"G?/?H", b"G /?H?", b"G /??H", b"G??/?H", b"G /a?b?H", b"G /?a H?", b"G\t/a?H", b"\0?G /",
                                           b"G /\x0bH?1", b"?? G /", b"G  /a? \n", b"G /\t?\tH"])
RSP = [[ALL] * k for k in range(6)] + words([b"H?2?m", b"?H 2?", b"H ??m", b"H?\0?2", b"\0?H 2", b"H 2 ???", b"H 2?m?\n", b"H 2 m??", b"H  2??m",
                                           b"H\x0b2\x0b?", b"??H?2 "])


def run(ctx):
    ctx.rule = RULE
    ctx.each(lambda c, w: w[0](c, *w[1:]),
             [(line, "request", sc) for sc in REQ] + [(line, "response", sc) for sc in RSP] + [(validate,)])
    ctx.floor("rows", ctx.counts.get("rows", 0), 500)


def entry(ctx, d):
    p = ctx.prog
    fs = p.method("ConnectionParser", "parse_%s_line" % d)
    if len(fs) != 1:
        ctx.violation("anchor:" + d, "the parser of %s lines (ConnectionParser::parse_%s_line) is gone" % (d, d))
        return None
    return fs[0]


def line(ctx, d, sc):
    f = entry(ctx, d)
    if f is None:
        return
    o, fields, oracle = ("req", Q, o_request) if d == "request" else ("resp", R, o_response)
    B.decide(ctx, d + " line", f, [sc], lambda n: [REF(("o", "connp")), BS(0, n)], oracle, judge(o, fields),
             objtypes={"connp": CP, "req": TX, "resp": TX, "logger": "log::Logger"}, extra=lambda mon: prims(ctx.prog, mon))


def validate(ctx):
    """the sanity check of a response line"""
    p = ctx.prog
    f = P.one(ctx, "validate_response_line", "Transaction")
    if f is None:
        return
    flag = STATUS_LINE_INVALID
    fl0 = initial("resp", "flags")
    num, pro = initial("resp", "response_status_number"), initial("resp", "response_protocol_number")
    RN, PR = "transaction::HtpResponseNumber", "transaction::HtpProtocol"
    code = project(num, ("v", "VALID", "0"))

    def oracle(s):
        e = s.e
        bad = e.variant(pro, PR) == "INVALID"
        v = e.variant(num, RN)
        ok = v == "VALID" and not e.true(LT(code, INT(100))) and not e.true(LT(INT(999), code))
        return (flag if bad or not ok else 0, "init" if ok or v == "INVALID" else "INVALID")

    def jd(ai, st, ret):
        v = ai.read(None, st, ("o", "resp"), (("f", TX, "response_status_number"),))
        b = D.bits(ai.read(None, st, ("o", "resp"), (("f", TX, "flags"),)), fl0)
        st_ = "init" if v is num or (v.k == "agg" and v.a[1] == "INVALID" and P.domset(ai, st, num, RN) == {"INVALID"}) else B.val(ai, st, v)
        return (b, st_)
    B.decide(ctx, "response line check", f, [[]], lambda n: [REF(("o", "resp"))], oracle, jd, objtypes={"resp": TX}, pins=(num, pro, code))


STATUS_LINE_INVALID = 0x1000000
