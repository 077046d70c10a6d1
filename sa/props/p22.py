"""URIs: taking apart, normalising and putting together."""
from absint import mk, INT, REF, SOME, NONE, OK, ERR, UNIT, AGG, EQ, LT, project, show, RES, OPT
import bset as B
from bset import ALL, lit
import parser as P
from parser import TX
from nom import BS, byte, inset, span
import dtable as D
import props.p15 as U

RULE = ("for every URI the parts are exactly the bytes the URI syntax assigns to them, and normalising and rebuilding change exactly what "
        "the rules say")
URI = "uri::Uri"
DCF = "config::DecoderConfig"
PARTS = ["scheme", "username", "password", "hostname", "port", "port_number", "path", "query", "fragment"]
SL, QM, HA, CO, AT, SP, LB, RB, DOT = b"/?#:@ []."
HOSTU_INVALID = 0x2000000
ALNUM = frozenset(c for c in range(256) if chr(c).isalnum())


def words(ws):
    return [[ALL if x == 0xff else frozenset((x,)) for x in w] for w in ws]


def has(s, i, c):
    return i < s.n and s.is_(i, c)


# ---- the syntax
def host_at(s, i):
    """(start, end of the name, position after it) or None"""
    if has(s, i, SL) and has(s, i + 1, SL):
        i += 2
    if has(s, i, SL):
        return None
    while has(s, i, SP):
        i += 1
    k = i
    if has(s, i, LB) and i + 1 < s.n and not s.isin(i + 1, b"/?#]"):
        k = i + 1
        while k < s.n and not s.isin(k, b"/?#]"):
            k += 1
        if has(s, k, RB):
            k += 1
    else:
        while k < s.n and not s.isin(k, b"/?#:"):
            k += 1
        if k == i:
            return None
    e = k
    while e > i and s.is_(e - 1, SP):
        e -= 1
    return i, e, k


def port_at(s, i):
    """(start, end of the digits, position after it) or None"""
    if not has(s, i, CO):
        return None
    i += 1
    while has(s, i, SP):
        i += 1
    k = i
    while k < s.n and not s.isin(k, b"/?#"):
        k += 1
    if k == i:
        return None
    e = i
    while e < k and not s.is_(e, SP):
        e += 1
    return i, e, k


def o_uri(s):
    w = dict.fromkeys(PARTS, "init")

    def put(name, a, b):
        w[name] = ("Some", s.span(a, b))
    i = 0
    if s.n and not s.is_(0, SL):
        c = next((k for k in range(s.n) if s.is_(k, CO)), None)
        if c is not None:
            put("scheme", 0, c)
            i = c + 1
            if has(s, i, SL) and has(s, i + 1, SL) and not has(s, i + 2, SL):
                k = i + 2
                while k < s.n and not s.isin(k, b"/?#@"):
                    k += 1
                if has(s, k, AT):
                    m = next((x for x in range(i + 2, k) if s.is_(x, CO)), None)
                    put("username", i + 2, k if m is None else m)
                    if m is not None:
                        put("password", m + 1, k)
                    i = k + 1
            h = host_at(s, i)
            if h is not None:
                put("hostname", h[0], h[1])
                i = h[2]
                q = port_at(s, i)
                if q is not None:
                    put("port", q[0], q[1])
                    i = q[2]
                while i < s.n and not s.isin(i, b"/?#"):
                    i += 1
    k = i
    while k < s.n and not s.isin(k, b"?#"):
        k += 1
    if k > i:
        put("path", i, k)
    if has(s, k, QM):
        i = k + 1
        k = i
        while k < s.n and not s.is_(k, HA):
            k += 1
        put("query", i, k)
    if has(s, k, HA):
        put("fragment", k + 1, s.n)
    return w


def prims(p, mon, host=True, dec=True):
    """host name validity, port numbers and decoding are decided elsewhere (here and P20, P15)"""
    r = {}

    def prim(tag, wrap):
        def h(ai, fr, st, c):
            s = mon.inp(ai, fr, st, c.args[0])
            if s is None:
                return None
            return wrap(ai, st, mk("app", tag, BS(*(s if s[0] < s[1] else (0, 0)))))
        return h

    def vh(ai, fr, st, c):
        el = mon.list(ai, fr, st, c.args[0])
        return None if el is None else [(mk("app", "validhost", *el), st)]
    for f in p.fns.values():
        if f.kind != "fn":
            continue
        a, rt = [f.locals[i + 1]["ty"] for i in range(f.argc)], f.locals[0]["ty"]
        if host and a == ["&[u8]"] and rt == "std::option::Option<u16>":
            r[f.id] = prim("portnum", lambda ai, st, t: [((SOME(t) if v else NONE), s) for v, s in ai.branch(st, mk("app", "isport", t))])
        if host and f.name == "validate_hostname" and rt == "bool":
            r[f.id] = vh
    return r


def plain(ai, st, v):
    if v.k == "app" and v.a[0] == "portnum":
        return ("portnum",) + span(v.a[1])
    if v.k == "agg" and v.a[0] == OPT and v.a[1] == "Some":
        return ("Some", plain(ai, st, v.a[2][0][1]))
    if v.k == "agg" and v.a[0] == "tuple":
        return ("t",) + tuple(plain(ai, st, x) for k, x in v.a[2])
    if v.k == "agg" and v.a[0] == RES and v.a[1] == "Ok":
        return ("Ok", plain(ai, st, v.a[2][0][1]))
    return B.val(ai, st, v)


def parts(ai, st, o="uri"):
    out = {}
    for f in PARTS:
        v = ai.read(None, st, ("o", o), (("f", URI, f),))
        out[f] = "init" if v is mk("proj", mk("sym", o), ("f", URI, f)) else plain(ai, st, v)
    return out


def isport(s, a, b):
    t = mk("app", "portnum", BS(*((a, b) if a < b else (0, 0))))
    return s.e.true(mk("app", "isport", t), "port number at %d..%d" % (a, b))


def valid(s, a, b):
    return s.e.true(mk("app", "validhost", *[byte(i) for i in range(a, b)]), "valid host name at %d..%d" % (a, b))


def o_hostport(s):
    h = host_at(s, 0)
    if h is None:
        return "Err"
    q = port_at(s, h[2])
    ok = valid(s, h[0], h[1])
    if q is None:
        port = "None"
        ok = ok and h[2] == s.n
    elif isport(s, q[0], q[1]):
        port = ("Some", ("t", s.span(q[0], q[1]), ("Some", ("portnum",) + s.span(q[0], q[1])[1:])))
    else:
        port, ok = ("Some", ("t", s.span(q[0], q[1]), "None")), False
    return ("Ok", ("t", s.span(h[2], s.n), ("t", s.span(h[0], h[1]), port, int(ok))))


def o_urihostport(s):
    w = dict.fromkeys(PARTS, "init")
    r = o_hostport(s)
    if r == "Err":
        return w, 0
    _, host, port, ok = r[1][1:][1]
    w["hostname"] = ("Some", ("low",) + tuple(range(*host[1:])) if host != ("s", 0, 0) else ("s", 0, 0))
    if port != "None":
        w["port"] = ("Some", port[1][1])
        if port[1][2] != "None":
            w["port_number"] = port[1][2]
    return w, 0 if ok else HOSTU_INVALID


def o_valid(s):
    if s.n == 0 or s.n > 255:
        return 0
    if s.is_(0, LB):
        k = 1
        while k < s.n and not s.isin(k, b"#?/]"):
            k += 1
        if k > 1 and has(s, k, RB):
            if s.whil(1, frozenset(range(128)), k) < k:
                return 0
            return int(s.e.true(mk("app", "isipv6", BS(1, k)), "IPv6 address"))
        return 0
    lab = 0
    for i in range(s.n):
        if s.is_(i, DOT):
            if lab == 0 and (i == 0 or s.is_(i - 1, DOT)):
                return 0
            lab = 0
        elif s.isin(i, ALNUM | frozenset(b"_-")):
            lab += 1
            if lab > 63:
                return 0
        else:
            return 0
    return 1


def o_dots(s):
    out, i = [], 0
    segs = []
    for k in range(s.n + 1):
        if k == s.n or s.is_(k, SL):
            segs.append((i, k))
            i = k + 1
    for a, b in segs:
        if b - a == 1 and s.is_(a, DOT):
            continue
        if b - a == 2 and s.is_(a, DOT) and s.is_(a + 1, DOT):
            if not (len(out) == 1 and out[0][0] == out[0][1]):
                out = out[:-1]
            continue
        out.append((a, b))
    r = []
    for k, (a, b) in enumerate(out):
        r += ([47] if k else []) + ["b%d" % x for x in range(a, b)]
    return tuple(r)


def low(el):
    v = mk("app", "empty")
    for x in el:
        v = mk("app", "push", v, mk("app", "to_ascii_lowercase", x) if x.k == "sym" else x)
    return v


class Mon(B.Mon):
    def call(self, ai, fr, st, c):
        d = c.decl or ""
        last = d.split("::")[-1]
        if last in ("from_str", "parse") and "Ipv6Addr" in str(c.gargs) + str(c.target) + d + str(c.res):
            s = self.inp(ai, fr, st, c.args[0])
            if s is not None:
                out, work = [], [(st, s[0])]
                while work:
                    s0, i = work.pop()
                    if i == s[1]:
                        out += [((OK(mk("app", "ipv6")) if v else ERR(mk("app", "addrerror"))), s1)
                                for v, s1 in ai.branch(s0, mk("app", "isipv6", BS(*s)))]
                        continue
                    for v, s1 in ai.branch(s0, inset(byte(i), frozenset(range(128)))):
                        if v:
                            work.append((s1, i + 1))
                        else:
                            out.append((ERR(mk("app", "addrerror")), s1))
                return out
        if last in ("to_ascii_lowercase", "to_lowercase") and c.args:
            el = self.list(ai, fr, st, c.args[0])
            if el is not None:
                return [(low(el), st)]
        if last == "make_ascii_lowercase" and c.args and c.args[0].k == "ref":
            el = U.elements(ai, st, ai.deref(fr, st, c.args[0]))
            if el is not None:
                s0 = st.clone()
                v = ai.deref(fr, st, c.args[0])
                root, path = ai.target(c.args[0])
                if v.k == "agg" and v.a[0] == U.BST:
                    path += (("f", U.BST, "s"),)
                ai.write(fr, s0, root, path, low(el))
                return [(UNIT, s0)]
        if "char::methods" in d and last in ("is_alphanumeric", "is_alphabetic", "is_numeric") and c.args:
            f = {"is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric}[last]
            t = c.args[0]
            while t.k in ("op", "app") and isinstance(t.a[0], str) and t.a[0].startswith("cast:"):
                t = t.a[1]
            if t.k == "sym" and t.a[0][0] == "b":
                return [(inset(t, frozenset(x for x in range(256) if f(chr(x)))), st)]
        return B.Mon.call(self, ai, fr, st, c)


def flagset(v, fl0):
    try:
        return D.bits(v, fl0)
    except Exception:
        return "?" + show(v)[:60]


FREE = [[ALL] * k for k in range(5)]
W = b"\xff"
URIS = FREE + words([b"h:" + W * 3, b"h://" + W * 3, b"h://u" + W + b"@" + W * 2, b"h://u" + W + b"p" + W + b"h" + W, b"h://h" + W * 3, b"h://h:" + W * 3, b"h://h:8" + W * 2,
                     b"h://[" + W * 3, b"h://[:]" + W * 2, b"h:///" + W * 2, b"h://h/" + W * 3, b"h://u@h" + W + b"8" + W, b"h://h /" + W, b"h:// h" + W + b" 8 " + W,
                     b"/" + W * 4, b"/p?" + W * 3, b"/p#" + W * 2, b"h://" + W + b"/a@b:c", b"h:" + W + b"/h/p" + W + b"q", b"h://h:8/p?q" + W + b"f"])
HP = FREE + words([b"h:" + W * 3, b"[:]" + W * 3, b"[" + W * 4, b"//" + W * 2, b" h " + W * 2, b"h : 8" + W, b"h:8 " + W, b"[:]:8" + W, b"h:8" + W + b"8"])
L63 = [frozenset(b"a")] * 63
DT = [frozenset(b".")]
VH = FREE + words([b"[" + W * 3 + b"]", b"[::1]" + W, b"a." + W * 3, b"[:" + W, b"[" + W + b"\xe9]", b"[]" + W]) + \
    [L63, L63 + [ALL], L63 + DT + [ALL], DT[:0] + [frozenset(b"b")] + DT + L63 + [ALL], (L63 + DT) * 3 + L63, (L63 + DT) * 4, [ALL] * 1]
PATHS = [[ALL] * k for k in range(8)]


def fn(ctx, ty, name):
    p = ctx.prog
    fs = p.method(ty, name) if ty else [f for f in p.find(name) if f.kind == "fn"]
    if len(fs) != 1:
        ctx.violation("anchor:" + name, "%s is gone" % name)
        return None
    return fs[0]


def run(ctx):
    ctx.rule = RULE
    work = [("uri", sc) for sc in URIS] + [("hostport", sc) for sc in HP] + [("urihostport", sc) for sc in HP] + [("valid", VH)] + [("path", sc) for sc in PATHS] + \
        [("line", sc, pre) for sc in LINES for pre in (0, 1)] + [("build", k) for k in range(16)] + [("store",)]
    ctx.each(lambda c, w: globals()["do_" + w[0]](c, *w[1:]), work)
    ctx.floor("rows", ctx.counts.get("rows", 0), 500)


def do_uri(ctx, sc):
    f = fn(ctx, "Uri", "parse_uri")
    if f:
        B.decide(ctx, "uri", f, [sc], lambda n: [REF(("o", "uri")), BS(0, n)], o_uri, lambda ai, st, ret: parts(ai, st),
                 objtypes={"uri": URI}, mon=Mon(ctx, f.name))


def do_hostport(ctx, sc):
    f = fn(ctx, None, "parse_hostport")
    if f:
        B.decide(ctx, "host and port", f, [sc], lambda n: [BS(0, n)], o_hostport, lambda ai, st, ret: flat(ai, st, ret),
                 objtypes={}, mon=Mon(ctx, f.name), extra=lambda mon: prims(ctx.prog, mon))


def flat(ai, st, ret):
    r = plain(ai, st, ret)
    if isinstance(r, tuple) and r[0] == "Ok" and isinstance(r[1][2], tuple) and len(r[1][2]) == 4:
        ok = r[1][2][3]
        if isinstance(ok, tuple):
            v = ret.a[2][0][1].a[2][1][1].a[2][2][1]
            b = [x for x, s in ai.branch(st, v)]
            ok = b[0] if len(b) == 1 else ok
        r = ("Ok", ("t", r[1][1], r[1][2][:3] + (ok,)))
    return r


def do_urihostport(ctx, sc):
    f = fn(ctx, "Uri", "parse_uri_hostport")
    if not f:
        return
    fl0 = mk("sym", "flags0")

    def setup(ai, st, n):
        st.heap[("o", "flags")] = fl0
        ai.write(None, st, ("o", "hp"), (("f", U.BST, "s"),), BS(0, n))

    def jd(ai, st, ret):
        v = ai.read(None, st, ("o", "flags"), ())
        return parts(ai, st), flagset(v, mk("sym", "flags"))
    B.decide(ctx, "host and port of a CONNECT", f, [sc], lambda n: [REF(("o", "uri")), REF(("o", "hp")), REF(("o", "flags"))], o_urihostport, jd,
             objtypes={"uri": URI, "hp": U.BST, "flags": "u64"}, mon=Mon(ctx, f.name), extra=lambda mon: prims(ctx.prog, mon),
             setup=lambda ai, st, n: ai.write(None, st, ("o", "hp"), (("f", U.BST, "s"),), BS(0, n)))


def do_valid(ctx, scs):
    f = fn(ctx, None, "validate_hostname")
    if f:
        B.decide(ctx, "host name check", f, scs, lambda n: [BS(0, n)], o_valid, None, objtypes={}, mon=Mon(ctx, f.name))


def do_path(ctx, sc):
    """normalising a path: decoded, checked as UTF-8, dot segments removed"""
    p = ctx.prog
    f = fn(ctx, "Uri", "normalized_path")
    if not f:
        return
    ev = mk("sym", "stage")

    def stage(name):
        """decoding yields arbitrary other bytes"""
        def h(ai, fr, st, c):
            s = st.clone()
            old = ai.read(None, s, ("o", "log"), ())
            ai.write(None, s, ("o", "log"), (), mk("app", "then", old, mk("str", name)))
            for i, t in enumerate(c.aty):
                if t.startswith("&mut") and ty(t):
                    root, path = ai.target(c.args[i])
                    path += (("f", U.BST, "s"),)
                    el = U.elements(ai, s, ai.read(fr, s, root, path))
                    if el is None:
                        return None
                    at = 100 + 100 * (old.k == "app")
                    ai.write(fr, s, root, path, BS(at, at + len(el)) if el else BS(0, 0))
                    for k in range(len(el)):
                        s.facts[byte(at + k)] = ("in", ALL)
            return [(UNIT, s)]
        return h

    def extra(mon):
        r = {}
        for nm in ("path_decode_uri_inplace", "decode_and_validate_inplace"):
            for g in p.find(nm):
                if g.kind == "fn":
                    r[g.id] = stage(nm)
        return r

    def setup(ai, st, n):
        ai.write(None, st, ("o", "uri"), (("f", URI, "path"),), SOME(AGG(U.BST, None, BS(0, n))) if False else SOME(mk("agg", U.BST, None, ((("f", U.BST, "s"), BS(0, n)),))))

    def jd(ai, st, ret):
        log = []
        v = ai.read(None, st, ("o", "log"), ())
        while v.k == "app" and v.a[0] == "then":
            log.insert(0, v.a[2].a[0])
            v = v.a[1]
        if ret.k == "agg" and ret.a[1] == "Some":
            el = U.elements(ai, st, ret.a[2][0][1])
            if el is not None:
                return tuple(x.a[0] for x in el), log
        return show(ret)[:100], log
    B.decide(ctx, "path", f, [sc], lambda n: [REF(("o", "uri")), REF(("o", "flags")), REF(("o", "status"))],
             lambda s: (tuple("b%d" % (int(x[1:]) + 200) if isinstance(x, str) else x for x in _dots(Later(s))), ["path_decode_uri_inplace", "decode_and_validate_inplace"]), jd,
             objtypes={"uri": URI, "flags": "u64", "status": "config::HtpUnwanted", "log": "u64"}, mon=Mon(ctx, f.name), extra=extra, setup=setup,
             pins=tuple(byte(200 + i) for i in range(len(sc))))


# ---- from the request URI to the normalised URI and the parameters
CFGV = mk("proj", mk("sym", "tx"), ("f", TX, "cfg"))
PLAIN = ALL - frozenset(b"/?#:@[]. ")
N = b"\xfe"


def shape(w):
    return [PLAIN if x == 0xfe else frozenset((x,)) for x in w]


LINES = [shape(w) for w in (
    N + b"://" + N + b":" + N + b"@" + N + b".." + b":" + N + b"/" + N + b"?" + N + b"#" + N,
    b"/" + N + b"?" + N, b"/" + N, N, b"", b"?" + N, b"#" + N, N + b"://" + N + b"." + N + b"/./" + N, N + b"://" + N + b"@" + N, N + b":" + N + b":" + N,
    b"/" + N + b"/../" + N + b"?" + N + N + b"#" + N, N + b":" + N, b"/?" )]
BITOF = {"username": 32, "password": 33, "hostname": 34, "fragment": 35, "path": 36, "utf8": 37}


def shift(ai, st, el, by):
    """decoded forms of bytes"""
    out = []
    for x in el:
        if x.k == "sym" and x.a[0][0] == "b":
            y = byte(int(x.a[0][1:]) + by)
            st.facts[y] = ("in", ai.bdom(st, x))
            x = y
        elif x.k == "app" and x.a[0] == "to_ascii_lowercase":
            x = mk("app", "to_ascii_lowercase", shift(ai, st, [x.a[1]], by)[0])
        out.append(x)
    return out


def vecof(el):
    ix = [int(x.a[0][1:]) if x.k == "sym" and x.a[0][0] == "b" else -9 for x in el]
    if ix and ix[0] >= 0 and ix == list(range(ix[0], ix[0] + len(ix))):
        return BS(ix[0], ix[-1] + 1)
    v = mk("app", "empty")
    for x in el:
        v = mk("app", "push", v, x)
    return v


def bst(v):
    return mk("agg", U.BST, None, ((("f", U.BST, "s"), v),))


def setbit(ai, fr, st, ref, n):
    old = ai.deref(fr, st, ref)
    ai.store_to(fr, st, ref, mk("op", "BitOr", old, INT(1 << n)) if old.k != "int" else INT(old.a[0] | 1 << n))


class Line(Mon):
    def indirect(self, ai, fr, st, c, fv, args):
        """the parameter processor of the configuration"""
        s = st.clone()
        log = ai.read(None, s, ("o", "log"), ())
        v = ai.deref(fr, s, args[0])
        ai.write(None, s, ("o", "log"), (), mk("app", "then", log, v))
        n = 0
        while log.k == "app" and log.a[0] == "then":
            n, log = n + 1, log.a[1]
        return [((OK(UNIT) if b else ERR(mk("sym", "refusal"))), s1) for b, s1 in ai.branch(s, mk("app", "accepts", INT(n)))]


def decoders(p, mon):
    r = prims(p, mon)

    def with_flags(ai, fr, st, c):
        fl = next(i for i, t in enumerate(c.aty) if t.startswith("&mut u64"))
        i = next(i for i, t in enumerate(c.aty) if t.endswith("[u8]") or ty(t))
        el = mon.list(ai, fr, st, c.args[i])
        if el is None:
            return None
        s = st.clone()
        setbit(ai, fr, s, c.args[fl], 32 + (int(el[0].a[0][1:]) % 24 if el and el[0].k == "sym" else 0))
        return [(OK(bst(vecof(shift(ai, s, el, 100)))), s)]

    def inplace(bit):
        def h(ai, fr, st, c):
            s = st.clone()
            for i, t in enumerate(c.aty):
                if t.startswith("&mut u64"):
                    setbit(ai, fr, s, c.args[i], bit)
                elif t.startswith("&mut") and t.endswith("HtpUnwanted"):
                    ai.store_to(fr, s, c.args[i], mk("app", "react", INT(bit), ai.deref(fr, s, c.args[i])))
                elif t.startswith("&mut") and ty(t):
                    root, path = ai.target(c.args[i])
                    path += (("f", U.BST, "s"),)
                    el = U.elements(ai, s, ai.read(fr, s, root, path))
                    if el is None:
                        return None
                    ai.write(fr, s, root, path, vecof(shift(ai, s, el, 100)))
            rt = p.fns[c.res].locals[0]["ty"]
            return [(UNIT if rt == "()" else OK(UNIT), s)]
        return h

    def complete(ai, fr, st, c):
        el = mon.list(ai, fr, st, c.args[1])
        if el is None:
            return None
        s = st.clone()
        root, path = ai.target(c.args[0])
        v = mk("app", "empty")
        for x in shift(ai, s, el, 1000):
            v = mk("app", "push", v, AGG("tuple", None, bst(vecof([x])), bst(vecof(shift(ai, s, [x], 1000)))))
        ai.write(fr, s, root, path + (("f", "urlencoded::Parser", "params"), ("f", "table::Table", "elements")), v)
        return [(UNIT, s)]
    for nm, h in (("decode_uri_with_flags", with_flags), ("decode_uri_inplace", inplace(60)), ("path_decode_uri_inplace", inplace(61)), ("decode_and_validate_inplace", inplace(62))):
        for f in p.find(nm):
            if f.kind == "fn":
                r[f.id] = h
    for f in p.method("Parser", "parse_complete"):
        r[f.id] = complete
    return r


def ty(t):
    return t.endswith("bstr::Bstr")


def uri_of(ai, st, v):
    """fields of a URI value"""
    if v.k == "agg" and v.a[0] == OPT:
        if v.a[1] == "None":
            return "None"
        v = v.a[2][0][1]
    out = {}
    for f in PARTS:
        x = project(v, ("f", URI, f))
        if x.k == "agg" and x.a[1] == "Some" and x.a[2][0][1].k == "agg":
            el = U.elements(ai, st, x.a[2][0][1])
            if el is not None:
                x = tuple(name(e) for e in el)
                out[f] = ("Some", x)
                continue
        out[f] = plain(ai, st, x)
    return out


def name(e):
    if e.k == "app" and e.a[0] == "to_ascii_lowercase":
        return "low " + name(e.a[1])
    return e.a[0] if e.k == "sym" else "=%d" % e.a[0] if e.k == "int" else show(e)


def o_line(pre):
    def f(s):
        e = s.e
        tx = mk("sym", "tx")
        conn = e.variant(mk("proj", tx, ("f", TX, "request_method_number")), "request::HtpMethod") == "CONNECT"
        flags, react = 0, ()
        if conn:
            w, flags = o_urihostport(s)
        else:
            w = o_uri(s)
        raw, nrm = dict.fromkeys(PARTS, "None"), dict.fromkeys(PARTS, "None")
        for k, v in w.items():
            if v == "init":
                continue
            v = v[1]
            if v[0] == "s":
                raw[k] = ("Some", tuple("b%d" % i for i in range(v[1], v[2])))
            elif v[0] == "low":
                raw[k] = ("Some", tuple("low b%d" % i for i in v[1:]))
            else:
                raw[k] = ("Some", v)

        def dec(x, by=100):
            out = []
            for y in x:
                lowd = y.startswith("low ")
                y = y[4:] if lowd else y
                y = "b%d" % (int(y[1:]) + by)
                out.append(("low " if lowd else "") + y)
            return out
        if pre:
            nrm = "preset"
        else:
            for k in ("username", "password", "hostname", "fragment"):
                if raw[k] != "None":
                    x = raw[k][1]
                    flags |= 1 << 32 + (int(x[0].split("b")[-1]) % 24 if x and not (x[0].startswith("low ")) else 0)
                    y = x if k != "hostname" or not conn else x
                    y = dec(y)
                    nrm[k] = ("Some", tuple(y))
            if raw["scheme"] != "None":
                nrm["scheme"] = ("Some", tuple("low " + y for y in raw["scheme"][1]))
            if nrm["hostname"] != "None":
                y = ["low " + z if not z.startswith("low ") else z for z in nrm["hostname"][1]]
                idx = w["hostname"][1]
                pos = list(range(idx[1], idx[2])) if idx[0] == "s" else list(idx[1:])
                while y and s.is_(pos[len(y) - 1], DOT):
                    y = y[:-1]
                nrm["hostname"] = ("Some", tuple(y))
            if raw["port"] != "None":
                a = w["port"][1]
                if isport(s, a[1], a[2]):
                    nrm["port_number"] = ("Some", ("portnum",) + a[1:])
                else:
                    flags |= HOSTU_INVALID
            nrm["query"] = raw["query"]
            if raw["path"] != "None":
                flags |= 1 << 61 | 1 << 62
                react = (61, 62)
                nrm["path"] = ("Some", tuple("b%d" % (int(x[1:]) + 200) if isinstance(x, str) else "=%d" % x for x in
                                             o_dots(Part(s, w["path"][1]))))
        params = []
        res = "Ok"
        if not pre and e.true(project(CFGV, ("f", "config::Config", "parse_urlencoded")), "parse_urlencoded") and nrm["query"] != "None":
            proc = e.variant(project(CFGV, ("f", "config::Config", "parameter_processor")), OPT) == "Some"
            for x in nrm["query"][1]:
                if proc:
                    b = "b%d" % (int(x[1:]) + 1000)
                    params.append((b, "b%d" % (int(x[1:]) + 2000), "QUERY_STRING"))
                    if not e.true(mk("app", "accepts", INT(len(params) - 1)), "processor accepts"):
                        res = "Err"
                        break
        if res == "Ok" and not pre and nrm["hostname"] != "None":
            el = [term(x) for x in nrm["hostname"][1]]
            if not e.true(mk("app", "validhost", *el), "valid normalised host name"):
                flags |= HOSTU_INVALID
        return raw, nrm, flags, react, params, res
    return f


def term(x):
    if x.startswith("low "):
        return mk("app", "to_ascii_lowercase", term(x[4:]))
    return mk("sym", x)


class Part:
    """a part of the input as the input of another specification"""

    def __init__(self, s, v):
        self.s, self.o, self.n = s, v[1], v[2] - v[1]

    def is_(self, i, c):
        return self.s.is_(self.o + i, c)


class Later:
    """the bytes after both decoding stages"""

    def __init__(self, s):
        self.s, self.n = s, s.n

    def is_(self, i, c):
        return self.s.is_(200 + i, c)


_dots = o_dots


def o_dots(s):
    if isinstance(s, Part):
        return tuple(("b%d" % (int(x[1:]) + s.o) if isinstance(x, str) else x) for x in _dots(s))
    return _dots(s)


def do_line(ctx, sc, pre):
    p = ctx.prog
    f = fn(ctx, "Transaction", "parse_request_line")
    if not f:
        return
    pu = mk("agg", URI, None, tuple((("f", URI, k), NONE) for k in PARTS))

    def setup(ai, st, n):
        ai.write(None, st, ("o", "tx"), (("f", TX, "request_uri"),), SOME(bst(BS(0, n))))
        ai.write(None, st, ("o", "tx"), (("f", TX, "parsed_uri"),), SOME(pu) if pre else NONE)

    def jd(ai, st, ret):
        g = lambda x: ai.read(None, st, ("o", "tx"), (("f", TX, x),))
        v = g("parsed_uri")
        nrm = "preset" if v is SOME(pu) else uri_of(ai, st, v)
        fl = flagset(g("flags"), mk("proj", mk("sym", "tx"), ("f", TX, "flags")))
        r, react = g("response_status_expected_number"), ()
        while r.k == "app" and r.a[0] == "react":
            react, r = (r.a[1].a[0],) + react, r.a[2]
        if r is not mk("proj", mk("sym", "tx"), ("f", TX, "response_status_expected_number")):
            react = show(r)[:60]
        params = []
        v = ai.read(None, st, ("o", "log"), ())
        while v.k == "app" and v.a[0] == "then":
            x = v.a[2]
            one = []
            for k in ("name", "value"):
                el = U.elements(ai, st, project(x, ("f", "transaction::Param", k)))
                one.append(" ".join(name(y) for y in el) if el is not None else show(x)[:60])
            src = project(x, ("f", "transaction::Param", "source"))
            params.insert(0, tuple(one) + (src.a[1] if src.k == "agg" else show(src)[:40],))
            v = v.a[1]
        return uri_of(ai, st, g("parsed_uri_raw")), nrm, fl, react, params, ret.a[1] if ret.k == "agg" else show(ret)[:60]
    B.decide(ctx, "request URI", f, [sc], lambda n: [REF(("o", "tx"))], o_line(pre), jd,
             objtypes={"tx": TX, "log": "u64"}, mon=Line(ctx, f.name), extra=lambda mon: decoders(p, mon), setup=setup,
             pins=(project(CFGV, ("f", "config::Config", "parameter_processor")), project(CFGV, ("f", "config::Config", "parse_urlencoded")),
                   mk("proj", mk("sym", "tx"), ("f", TX, "request_method_number"))) + tuple(mk("app", "accepts", INT(i)) for i in range(4)))


BUILD = ["scheme", "username", "password", "hostname", "port", "path", "query", "fragment"]


def o_build(have):
    def f(s):
        e = s.e
        d = lambda n: e.true(project(mk("proj", mk("sym", "uri"), ("f", URI, "cfg")), ("f", DCF, n)), n)
        part, full = [], []

        def put(l, *xs):
            for x in xs:
                if isinstance(x, bytes):
                    l += ["=%d" % c for c in x]
                else:
                    k, by = x
                    if have.get(k):
                        l.append("b%d" % (BUILD.index(k) + by))
        if "scheme" in have:
            put(full, ("scheme", 0), b"://")
        if "username" in have or "password" in have:
            put(full, ("username", 0), b":", ("password", 0), b"@")
        put(full, ("hostname", 0))
        if "port" in have:
            put(full, b":", ("port", 0))
        if "path" in have:
            put(part, ("path", 100 if d("double_decode_normalized_path") else 0))
        if "query" in have:
            put(part, b"?", ("query", 200 if d("double_decode_normalized_query") else 100))
        if "fragment" in have:
            put(part, b"#", ("fragment", 0))
        full += part
        return tuple(part) or "None", tuple(full) or "None"
    return f


def do_build(ctx, k):
    p = ctx.prog
    f = fn(ctx, "Uri", "generate_normalized_uri")
    if not f:
        return
    for m in range(k * 16, k * 16 + 16):
        have = {c: 1 for i, c in enumerate(BUILD) if m >> i & 1}
        for em in [None] + [c for c in have if k in (0, 15)]:
            hv = dict(have, **({em: 0} if em else {}))

            def setup(ai, st, n):
                for i, c in enumerate(BUILD):
                    v = NONE if c not in hv else SOME(bst(BS(i, i + 1) if hv[c] else BS(0, 0)))
                    ai.write(None, st, ("o", "uri"), (("f", URI, c),), v)

            def jd(ai, st, ret):
                out = []
                for j in (0, 1):
                    v = project(ret, ("t", j))
                    if v.k == "agg" and v.a[1] == "Some":
                        el = U.elements(ai, st, v.a[2][0][1])
                        out.append(tuple(name(x) for x in el) if el is not None else show(v)[:80])
                    else:
                        out.append("None" if v is NONE else show(v)[:80])
                return tuple(out)
            B.decide(ctx, "rebuilt URI", f, [[ALL] * 8], lambda n: [REF(("o", "uri")), NONE], o_build(hv), jd,
                     objtypes={"uri": URI}, mon=Mon(ctx, f.name), extra=lambda mon: decoders(p, mon), setup=setup)


def do_store(ctx):
    """what the transaction keeps of the rebuilt URI"""
    p = ctx.prog
    fs = [f for f in p.method("Uri", "generate_normalized_uri")]
    use = [g for g in p.code() for b in g.blocks if not b["c"] and b["t"]["t"] == "call" and (b["t"]["f"].get("res") or b["t"]["f"].get("fn")) in {f.id for f in fs}
           and not g.file.endswith("uri.rs") and "c_api" not in g.file]
    use = [g for g in use if g.kind == "fn"]
    if not use:
        ctx.violation("anchor:store", "no operation of the parser rebuilds the normalised URI")
        return
    P_, C_ = mk("sym", "partial"), mk("sym", "complete")
    for g in {g.id: g for g in use}.values():
        def gen(ai, fr, st, c):
            s = st.clone()
            return [(AGG("tuple", None, P_, C_), s)]

        def extra(mon):
            r = P.tx_intrinsics(p, live=True)
            for f in fs:
                r[f.id] = gen
            for f in p.fns.values():
                if f.kind == "fn" and f.name in ("run_all", "parse_request_line"):
                    r[f.id] = lambda ai, fr, st, c: [((OK(UNIT) if b else ERR(mk("sym", "status"))), s) for b, s in ai.branch(st, mk("app", "step", INT(fr.blk)))]
            return r

        def jd(ai, st, ret):
            a, b = (ai.read(None, st, ("o", "req"), (("f", TX, x),)) for x in ("partial_normalized_uri", "complete_normalized_uri"))
            init = [mk("proj", mk("sym", "req"), ("f", TX, x)) for x in ("partial_normalized_uri", "complete_normalized_uri")]
            if a is P_ and b is C_ or a is init[0] and b is init[1]:
                return "stored" if a is P_ else "kept"
            return show(a)[:60], show(b)[:60]

        def oracle(s):
            return None

        def judge(ai, st, ret):
            r = jd(ai, st, ret)
            if r == "kept" and ret.k == "agg" and ret.a[1] == "Ok":
                pv = mk("proj", mk("sym", "req"), ("f", TX, "parsed_uri"))
                return None if P.domset(ai, st, pv, OPT) == {"None"} else "not stored"
            return None if r in ("stored", "kept") else r
        B.decide(ctx, "stored URI", g, [[]], lambda n: [REF(("o", "connp"))] if g.argc == 1 else [mk("sym", "a%d" % i) for i in range(g.argc)], oracle, judge,
                 objtypes={"connp": P.CP, "req": TX}, mon=Mon(ctx, g.name), extra=extra,
                 pins=(mk("proj", mk("sym", "req"), ("f", TX, "parsed_uri")),))
