"""Credentials in an Authorization header."""
from absint import mk, INT, REF, SOME, NONE, OK, ERR, AGG, EQ, project, show, RES, ty_base
import bset as B
from bset import ALL
import dtable as D
from parser import TX
from nom import BS, byte
import nom as NM
import props.p15 as U

RULE = ("for every Authorization header the type, user name, password and token are exactly the ones the header states, nothing else of the "
        "transaction changes, and a header that lacks them is declined")
F = ["request_auth_type", "request_auth_username", "request_auth_password", "request_auth_token"]
HDR = "transaction::Header"
WS = frozenset((9, 10, 12, 13, 32))
D0 = 300
LOW = {c: frozenset((c, c - 32)) for c in range(97, 123)}


def b64ok(o, e):
    return mk("app", "b64ok", INT(o), INT(e))


class Mon(B.Mon):
    dec = 0

    def call(self, ai, fr, st, c):
        d = c.decl or ""
        last = d.split("::")[-1]
        if "base64" in d + (c.target or "") and last.startswith("decode") and c.args:
            a = c.args[-1] if last == "decode" else None
            s = self.inp(ai, fr, st, a) if a is not None else None
            if s is None:
                raise NM.Unsupported("decoding " + show(c.args[-1])[:60])
            return [((OK(BS(D0, D0 + self.dec)) if v else ERR(mk("app", "b64error"))), s1) for v, s1 in ai.branch(st, b64ok(*s))]
        return B.Mon.call(self, ai, fr, st, c)


def lookups(p, mon):
    """header lookup by name: the Authorization header, or not there"""
    r = {}

    def h(ai, fr, st, c):
        t = D.text(ai, fr, st, c.args[1])
        if t is None or bytes(t).lower() != b"authorization":
            raise NM.Unsupported("lookup of %s" % show(c.args[1])[:60])
        nm = mk("app", "has", "authorization")
        return [((SOME(REF(("o", "hdr"))) if v else NONE), s) for v, s in ai.branch(st, nm)]
    for m in ("get_nocase_nozero",):
        for f in p.method("Table", m) + p.method("Headers", m):
            r[f.id] = h
    return r


def word(s, i, w):
    """the word in any case at i"""
    for k, c in enumerate(w):
        if i + k >= s.n or not s.isin(i + k, LOW[c]):
            return False
    return True


def at(s, i, lit, end):
    return i + len(lit) <= end and all(s.is_(i + k, c) for k, c in enumerate(lit))


def find(s, i, lit, end):
    while i + len(lit) <= end:
        if at(s, i, lit, end):
            return i
        i += 1
    return None


def oracle(dec):
    def f(s):
        w = dict.fromkeys(F, "init")
        if not s.e.true(mk("app", "has", "authorization"), "header present"):
            w["request_auth_type"] = "NONE"
            return ("Ok", w)
        n = s.n
        if word(s, 0, b"basic"):
            w["request_auth_type"] = "BASIC"
            i = s.whil(5, WS)
            if not s.e.true(b64ok(i, n), "valid base64 at %d..%d" % (i, n)):
                return ("DECLINED", w)
            c = find(s, D0, b":", D0 + dec)
            if c is None:
                return ("DECLINED", w)
            w["request_auth_username"] = ("Some", tuple(range(D0, c)))
            w["request_auth_password"] = ("Some", tuple(range(c + 1, D0 + dec)))
        elif word(s, 0, b"digest"):
            w["request_auth_type"] = "DIGEST"
            i = find(s, 0, b"username=", n)
            if i is None:
                return ("DECLINED", w)
            i = s.whil(i + 9, WS)
            if not at(s, i, b'"', n):
                return ("DECLINED", w)
            i += 1
            name = []
            while True:
                if i == n:
                    return ("DECLINED", w)
                if s.is_(i, 34):
                    if name and name[-1] != '"' and s.is_(name[-1], 92):
                        name[-1] = '"'
                    else:
                        break
                else:
                    name.append(i)
                i += 1
            w["request_auth_username"] = ("Some", tuple(34 + 1000 if x == '"' else x for x in name))
        elif word(s, 0, b"bearer"):
            w["request_auth_type"] = "BEARER"
            w["request_auth_token"] = ("Some", tuple(range(s.whil(6, WS), n)))
        else:
            w["request_auth_type"] = "UNRECOGNIZED"
        return ("Ok", w)
    return f


def field(ai, st, f):
    v = ai.read(None, st, ("o", "req"), (("f", TX, f),))
    init = mk("proj", mk("sym", "req"), ("f", TX, f))
    if v is init:
        return "init"
    if v.k == "agg" and v.a[1] in ("Some", "None") and f != "request_auth_type":
        if v.a[1] == "None":
            return "None"
        x = v.a[2][0][1]
    elif f != "request_auth_type":
        # the stored string was changed in place
        x = project(v, ("v", "Some", "0"))
    else:
        return v.a[1] if v.k == "agg" else show(v)[:60]
    for _ in range(3):
        if x.k == "ref":
            x = ai.deref(None, st, x)
    y = project(x, ("f", U.BST, "s"))
    s = NM.span(y) or NM.span(x)
    if s is not None:
        return ("Some", tuple(range(*s)))
    el = U.elements(ai, st, x)
    if el is None:
        el = B.items(y)
    if el is None:
        return "?" + show(x)[:80]
    return ("Some", tuple(int(b.a[0][1:]) if b.k == "sym" and NM.is_byte(b) else b.a[0] + 1000 if b.k == "int" else "?" + show(b)[:40] for b in el))


def judge(ai, st, ret):
    got = {f: field(ai, st, f) for f in F}
    if ret.k == "agg" and ret.a[0] == RES:
        v = ret.a[1]
        if v == "Err":
            x = ret.a[2][0][1]
            v = x.a[1] if x.k == "agg" else show(x)[:60]
    else:
        v = show(ret)[:60]
    return (v, got)


def words(ws):
    return [[ALL if x == 0xff else frozenset((x,)) for x in w] for w in ws]


W = b"\xff"


def variations(w):
    return [w[:i] + W + w[i + 1:] for i in range(len(w))] + [w[:i] + w[i + 1:] for i in range(len(w))]


SHAPES = words([b""] + [W * k for k in range(1, 4)] + sum([variations(x) for x in (b"Basic", b"dIgest", b"beareR")], []) +
               [b"basic" + W * k for k in range(0, 5)] + [b"basic \t" + W * 2 + b"=" , b"Basic x" + W + b"y"] +
               [b"bearer" + W * k for k in range(0, 5)] + [b"Bearer  a" + W + b"b", b"bearer\x0b" + W] +
               [b"digest" + W * k for k in range(0, 3)] +
               [b'digest username="' + W * k for k in range(0, 5)] + [b"digest username=" + W * k for k in range(1, 4)] +
               [b"digest," + x + b'"u"' for x in variations(b"username=")] +
               [b'digest username="a' + W * 3 + b'"', b'digest username="a\\' + W * 3, b'digest username="\\"' + W * 3, b'digest username="a\\\\' + W * 2 + b'"',
                b'digest username="a"' + W * 2 + b'"', b'digest n="x",username= \t' + W + b'"u"', b'digest username="a" username="b' + W,
                b'username="u" digest', b"digest xusername=" + W + b'u"', b'digestusername="' + W + b'"', b'digest username="a\\"b\\"' + W * 2 + b'"'])


def run(ctx):
    ctx.rule = RULE
    p = ctx.prog
    fs = [f for f in p.fns.values() if f.kind == "fn" and f.name == "parse_authorization" and f.argc == 1 and ty_base(f.locals[1]["ty"]) == TX]
    if len(fs) != 1:
        ctx.violation("anchor:parse_authorization", "the parser of the Authorization header (parsers::parse_authorization) is gone")
        return
    work = [(sc, 2) for sc in SHAPES] + [(x, k) for x in words([b"basic", b"basic YQ"]) for k in range(0, 6)]
    ctx.each(lambda c, w: one(c, fs[0], *w), work)
    ctx.floor("rows", ctx.counts.get("rows", 0), 300)


def one(ctx, f, sc, dec):
    mon = Mon(ctx, f.name)
    mon.dec = dec

    def setup(ai, st, n):
        for i in range(dec):
            st.facts[byte(D0 + i)] = ("in", ALL)
        ai.write(None, st, ("o", "hdr"), (("f", HDR, "value"), ("f", U.BST, "s")), BS(0, n))
    B.decide(ctx, "authorization", f, [sc], lambda n: [REF(("o", "req"))], oracle(dec), judge, objtypes={"req": TX, "hdr": HDR, "logger": "log::Logger"},
             mon=mon, setup=setup, extra=lambda m: lookups(ctx.prog, m), pins=tuple(byte(D0 + i) for i in range(dec)))
