"""Decoding of URI paths and parameters.  The decoders are abstractly executed
on inputs whose bytes range over all 256 values (an exact byte domain), with
every configuration option open; on every path the decoded bytes, the flags
and the expected status must be those of the specification."""
from absint import St, mk, INT, REF, SOME, NONE, OK, ERR, UNIT, AGG, OPT, RES, ORD, show, EQ, LT, project, arith, ty_base, V
import parser as P
import chunk as K
import dtable as D
import nom as NM
from nom import byte, BS
from parser import domset

CFGT = "config::DecoderConfig"
UNW, HAND = "config::HtpUnwanted", "config::HtpUrlEncodingHandling"
BST = "bstr::Bstr"
PATH = {"NUL": 0x4000, "INVALID": 0x10000, "OVERLONG": 0x40000, "SEP": 0x80000, "HALF": 0x800000}
PAR = {"NUL": 0x8000000, "INVALID": 0x10000000, "OVERLONG": 0x20000000, "HALF": 0x40000000, "RAW": 0x80000000}


class Mon(P.Base, NM.Nom):
    def call(self, ai, fr, st, c):
        return self.handle(ai, fr, st, c)


def cfg(name):
    return mk("proj", mk("sym", "cfg"), ("f", CFGT, name))


def X(a, b):
    """the byte two characters stand for"""
    return mk("sym", "x0:%s:%s" % (a.a[0] if a.k == "sym" else a.a[0], b.a[0]))


def FIT(a, b):
    return mk("sym", "fit:%s:%s" % (show(a), show(b)))


def x2c_fn(p):
    return [f for f in p.find("x2c") if f.kind == "fn" and f.file.endswith("urlencoded.rs")]


def machine(p, mon, extra=None):
    ix = P.log_intrinsics(p)
    ix.update(K.bstr_ops(p))
    x2c = x2c_fn(p)

    def hx(ai, fr, st, c):
        s = mon.inp(ai, fr, st, c.args[0])
        if s is None:
            return None
        o, e = s
        if e - o < 2:
            return [(ERR(mk("app", "nomerr")), st)]
        return [(OK(AGG("tuple", None, BS(o + 2, e), X(byte(o), byte(o + 1)))), st)]
    for f in x2c:
        ix[f.id] = hx

    def fit(ai, fr, st, c):
        k = c.args[1]
        ks = sorted((s for s in NM.atoms(k)), key=lambda s: s.a[0])
        hi = lo = None
        for s in ks:
            v = coeff(k, s)
            if v == 256:
                hi = s
            elif v == 1:
                lo = s
        if len(ks) != 2 or hi is None or lo is None:
            hi, lo = k, INT(0)
        return [(FIT(hi, lo), st)]
    for f in p.method("UnicodeBestfitMap", "get"):
        ix[f.id] = fit
    ix.update(extra or {})
    ot = {"cfg": CFGT, "path": BST, "parser": "urlencoded::Parser"}
    return NM.ByteAI(p, monitor=mon, objtypes=ot, tracked_all=True, relevant={x for x in ix if x in p.fns}, intrinsics=ix,
                     step_cap=600000, state_cap=20000)


def coeff(k, s):
    """multiplier of a byte in a key built from two bytes by shifting/multiplying and adding/or-ing"""
    def f(t, x):
        if t is s:
            return x
        if t.k == "int":
            return t.a[0]
        if t.k == "sym":
            return 0
        if t.k in ("op", "app") and isinstance(t.a[0], str) and t.a[0].startswith("cast:"):
            return f(t.a[1], x)
        if t.k == "op":
            a, b = f(t.a[1], x), f(t.a[2], x)
            g = {"Add": lambda: a + b, "BitOr": lambda: a | b, "Shl": lambda: a << b, "Mul": lambda: a * b, "BitXor": lambda: a ^ b}.get(t.a[0])
            if g is not None:
                return g()
        raise ValueError
    try:
        base = f(k, 0)
        m = f(k, 1) - base
        if all(f(k, x) == base + m * x for x in range(256)):
            return m
    except (ValueError, TypeError):
        pass
    return None


def run(ctx):
    p = ctx.prog
    hexpairs(ctx, p)
    path(ctx, p)
    params(ctx, p)


# ------------------------------------------------------------------ two characters to a byte
def digit(c):
    return ((c & 0xdf) - 0x41 + 10 if c >= 0x41 else c - 0x30) & 0xff


def hexpairs(ctx, p):
    fs = x2c_fn(p)
    if len(fs) != 1:
        ctx.violation("anchor:x2c", "the function turning two characters into a byte (x2c) is gone")
        return
    f = fs[0]
    mon = Mon(ctx, f.name)
    ai = NM.ByteAI(p, monitor=mon, objtypes={}, tracked_all=True, relevant=set(), intrinsics={}, step_cap=100000, state_cap=4000)
    bad = []
    n = 0
    for a in range(256):
        st = St({}, {}, (("pin", byte(0), byte(1)),))
        st.facts[byte(0)] = ("in", frozenset((a,)))
        outs = ai.run(f.id, [BS(0, 2)], st)
        for b in range(256):
            want = (digit(a) * 16 + digit(b)) & 0xff
            hit = 0
            for ret, s in outs:
                if b not in ai.bdom(s, byte(1)):
                    continue
                hit += 1
                r = project(project(ret, ("v", "Ok", "0")), ("t", 1))
                v = NM.vec(subst0(r, a)) if r.k != "int" else None
                got = r.a[0] if r.k == "int" else v[1][b] if v else None
                if got is None or got & 0xff != want:
                    bad.append((a, b))
            n += 1
            if hit != 1:
                bad.append((a, b))
    ctx.used(ai)
    if bad:
        ctx.violation("x2c:value", "%s: '\\x%02x\\x%02x' does not give the byte of two hexadecimal digits (%d of 65536 pairs differ)" % (
            f.where(), bad[0][0], bad[0][1], len(bad)))
    ctx.floor("character pairs", n, 65536)
    ctx.ok("pairs", "65536")
    for m in (0, 1):
        for ret, s in ai.run(f.id, [BS(0, m)], St({}, {}, ())):
            if domset(ai, s, ret, RES) != {"Err"}:
                ctx.violation("x2c:short", "%s takes a byte from %d characters" % (f.where(), m))


def subst0(t, a):
    from absint import subst
    return subst(t, {byte(0): INT(a)})


# ------------------------------------------------------------------ the specification
class Spec:
    def __init__(self, e, n, mode):
        self.e, self.n, self.mode = e, n, mode
        self.out, self.flags, self.code = [], 0, None
        self.F = PATH if mode == "path" else PAR

    def react(self, name):
        if not self.e.oneof(cfg(name), UNW, ("IGNORE",), name + " ignored"):
            self.code = cfg(name)

    def opt(self, name):
        return self.e.true(cfg(name), name)

    def is_(self, b, c):
        return self.e.true(EQ(b, INT(c)))

    def put(self, x):
        if self.mode == "path":
            if self.e.true(LT(x, INT(0x20))):
                self.react("control_chars_unwanted")
            if self.is_(x, 0x5c) and self.opt("backslash_convert_slashes"):
                x = INT(0x2f)
            if self.opt("convert_lowercase"):
                x = mk("app", "to_ascii_lowercase", x) if x.k != "int" else x
            if self.is_(x, 0x2f) and self.out and self.opt("path_separators_compress") and self.is_(self.out[-1], 0x2f):
                return
        self.out.append(x)

    def hex(self, i):
        return self.e.true(mk("app", "is_ascii_hexdigit", byte(i)))

    def u(self, i):
        """decode the four characters at i"""
        c1, c2 = X(byte(i), byte(i + 1)), X(byte(i + 2), byte(i + 3))
        if self.is_(c1, 0):
            self.flags |= self.F["OVERLONG"]
            return c2, False
        if self.is_(c1, 0xff) and (self.mode == "path" or self.e.true(LT(c2, INT(0xf0)))):
            self.flags |= self.F["HALF"]
        return FIT(c1, c2), True

    def sep(self, r):
        return self.is_(r, 0x2f) or (self.is_(r, 0x5c) and self.opt("backslash_convert_slashes"))

    def handling(self):
        return self.e.variant(cfg("url_encoding_invalid_handling"), HAND, "handling")

    def run(self):
        i = 0
        while i < self.n:
            i = self.step(i)
            if i is None:
                break
        return self.out, self.flags, self.code

    def step(self, i):
        n = self.n
        if self.mode == "params" and self.is_(byte(i), 0x2b):
            self.put(INT(0x20) if self.opt("plusspace_decode") else INT(0x2b))
            return i + 1
        if not self.is_(byte(i), 0x25):
            if self.is_(byte(i), 0):
                self.react("nul_raw_unwanted")
                if self.mode == "params":
                    self.flags |= self.F["RAW"]
                if self.opt("nul_raw_terminates"):
                    return None
            self.put(byte(i))
            return i + 1
        return self.path_escape(i) if self.mode == "path" else self.param_escape(i)

    def invalid(self):
        self.flags |= self.F["INVALID"]
        self.react("url_encoding_invalid_unwanted")

    def path_escape(self, i):
        n = self.n
        if i + 1 < n and (self.is_(byte(i + 1), 0x75) or self.is_(byte(i + 1), 0x55)):
            if not self.opt("u_encoding_decode"):
                self.put(INT(0x25))
                return i + 1
            if i + 6 > n:
                self.invalid()
                if self.handling() != "REMOVE_PERCENT":
                    self.put(INT(0x25))
                return i + 1
            valid = all(self.hex(i + k) for k in (2, 3, 4, 5))
            if valid:
                self.react("u_encoding_unwanted")
                r, full = self.u(i + 2)
            else:
                self.invalid()
                h = self.handling()
                if h == "REMOVE_PERCENT":
                    return i + 1
                if h != "PROCESS_INVALID":
                    self.put(INT(0x25))
                    return i + 1
                r, full = self.u(i + 2)
                if full:
                    self.react("u_encoding_unwanted")
            if self.sep(r):
                self.flags |= self.F["SEP"]
            if valid and self.is_(r, 0):
                self.flags |= self.F["NUL"]
                self.react("nul_encoded_unwanted")
                if self.opt("nul_encoded_terminates"):
                    return None
            self.put(r)
            return i + 6
        if i + 3 > n:
            self.invalid()
            if self.handling() != "REMOVE_PERCENT":
                self.put(INT(0x25))
            return i + 1
        r = X(byte(i + 1), byte(i + 2))
        if self.hex(i + 1) and self.hex(i + 2):
            if self.is_(r, 0):
                self.flags |= self.F["NUL"]
                self.react("nul_encoded_unwanted")
                if self.opt("nul_encoded_terminates"):
                    return None
            if self.sep(r):
                self.flags |= self.F["SEP"]
                self.react("path_separators_encoded_unwanted")
                if not self.opt("path_separators_decode"):
                    self.put(INT(0x25))
                    return i + 1
            self.put(r)
            return i + 3
        self.invalid()
        h = self.handling()
        if h == "REMOVE_PERCENT":
            return i + 1
        if h == "PROCESS_INVALID":
            self.put(r)
            return i + 3
        self.put(INT(0x25))
        return i + 1


    def param_escape(self, i):
        n = self.n
        if i + 1 < n and (self.is_(byte(i + 1), 0x75) or self.is_(byte(i + 1), 0x55)):
            if not self.opt("u_encoding_decode"):
                self.put(INT(0x25))
                return i + 1
            if i + 6 > n:
                self.invalid()
                if self.handling() != "REMOVE_PERCENT":
                    self.put(INT(0x25))
                return i + 1
            self.react("u_encoding_unwanted")
            if not all(self.hex(i + k) for k in (2, 3, 4, 5)):
                self.invalid()
                h = self.handling()
                if h == "REMOVE_PERCENT":
                    return i + 1
                if h != "PROCESS_INVALID":
                    self.put(INT(0x25))
                    return i + 1
            r, full = self.u(i + 2)
            nxt = i + 6
        else:
            if i + 3 > n:
                self.invalid()
                if self.handling() != "REMOVE_PERCENT":
                    self.put(INT(0x25))
                return i + 1
            r, nxt = X(byte(i + 1), byte(i + 2)), i + 3
            if not (self.hex(i + 1) and self.hex(i + 2)):
                self.invalid()
                h = self.handling()
                if h == "REMOVE_PERCENT":
                    return i + 1
                if h != "PROCESS_INVALID":
                    self.put(INT(0x25))
                    return i + 1
        if self.is_(r, 0):
            self.flags |= self.F["NUL"]
            self.react("nul_encoded_unwanted")
            if self.opt("nul_encoded_terminates"):
                return None
        self.put(r)
        return nxt


def elements(ai, st, v):
    """bytes of a vector/byte-string value, in order, or None"""
    for _ in range(8):
        if v.k == "agg" and v.a[0] == BST:
            v = v.a[2][0][1]
        elif v.k == "upd" and v.a[0].k != "app":
            v = v.a[1][0][1]
        elif v.k == "app" and v.a[0] in ("slice_of", "as_slice"):
            v = v.a[1]
        elif v.k == "proj" and v.a[1] == "*":
            v = v.a[0]
        elif v.k == "ref":
            v = ai.deref(None, st, v)
        else:
            break
    if v.k == "app" and v.a[0] == "empty":
        return []
    if v.k == "app" and v.a[0] == "push":
        l = elements(ai, st, v.a[1])
        return None if l is None else l + [v.a[2]]
    if v.k == "app" and v.a[0] == "concat":
        l, r = elements(ai, st, v.a[1]), elements(ai, st, v.a[2])
        return None if l is None or r is None else l + r
    if v.k == "app" and v.a[0] == "slice" and v.a[2].k == v.a[3].k == "int":
        l = elements(ai, st, v.a[1])
        return None if l is None or v.a[3].a[0] > len(l) else l[v.a[2].a[0]:v.a[3].a[0]]
    if v.k == "bytes":
        return [INT(x) for x in v.a[0]]
    s = NM.span(v)
    if s is not None:
        return [byte(i) for i in range(*s)]
    return None


ORDINARY = frozenset(x for x in range(256) if x >= 0x20 and x not in (0x25, 0x2f, 0x5c, 0x2b))
PLAIN = frozenset(x for x in range(256) if x != 0x25)
PCT = frozenset((0x25,))
SCEN = [[], [PLAIN], [PLAIN, PLAIN]] + [[PCT] + [ORDINARY] * k for k in range(0, 6)] + \
       [[PLAIN, PCT, ORDINARY, ORDINARY], [PCT, ORDINARY, ORDINARY, PLAIN]]


def pins(n):
    r = ["pin"] + [byte(i) for i in range(n)]
    xs = [X(byte(i), byte(i + 1)) for i in range(n - 1)]
    return tuple(r + xs + [FIT(a, b) for a, b in zip(xs, xs[2:])])


def compare(ai, mon, f, s2, w, wout, wflags, out, flags, flag0):
    el = elements(ai, s2, out)
    if el is None or len(el) != len(wout) or not all(ai.same_byte(s2, a, b) for a, b in zip(el, wout)):
        mon.bad("bytes", "%s decodes to %s instead of %s; when %s" % (
            f.where(), [show(x)[:30] for x in el] if el is not None else show(out)[:80], [show(x)[:30] for x in wout], w))
    b = D.bits(flags, flag0)
    if b != wflags:
        mon.bad("flags", "%s sets the flags %s instead of 0x%x; when %s" % (f.where(), show(flags)[:60] if b is None else hex(b), wflags, w))


def decoder(ctx, p, name, mode, args, setup, result, rows_min):
    """run one public decoder over every scenario and compare it with the specification"""
    fs = [f for f in p.find(name) if f.kind == "fn" and f.file.endswith("urlencoded.rs")]
    if len(fs) != 1:
        ctx.violation("anchor:" + name, name + " is gone")
        return
    f = fs[0]
    mon = Mon(ctx, f.name)
    rows = 0
    for sc in SCEN:
        ai = machine(p, mon)
        n = len(sc)
        st = St({}, {}, (pins(n),))
        for i, d in enumerate(sc):
            st.facts[byte(i)] = ("in", d)
        setup(st, n)
        try:
            outs = ai.run(f.id, args(n), st)
        except NM.Unsupported as e:
            mon.bad("form", "%s uses a construct this analysis does not know: %s" % (f.where(), e))
            return
        ctx.used(ai)
        for ret, s in outs:
            for s2, x, trace in D.explore(ai, s, lambda e: Spec(e, n, mode).run(), 20000):
                rows += 1
                w = "%d bytes; " % n + "; ".join("%s=%s" % (t if isinstance(t, str) else show(t)[:60], v) for t, v in trace)
                result(ai, mon, f, s2, ret, w, x)
                ctx.ok(mode + " row", w)
    ctx.floor(name + " rows", rows, rows_min)


def status_is(ai, mon, f, st, w, got, want, st0):
    if want is None:
        good = got is st0 or (st0 is None and domset(ai, st, got, UNW) == {"IGNORE"})
    else:
        good = got is want or (len(domset(ai, st, got, UNW)) == 1 and domset(ai, st, got, UNW) == domset(ai, st, want, UNW))
    if not good:
        mon.bad("status", "%s: the expected status becomes %s instead of %s; when %s" % (
            f.where(), show(got)[:60], "staying as it was" if want is None else show(want), w))


FL0, ST0 = mk("sym", "flags0"), mk("sym", "status0")


def path(ctx, p):
    def setup(st, n):
        st.store[("o", "path")] = AGG0(p, BS(0, n))
        st.store[("o", "fl")] = FL0
        st.store[("o", "stt")] = ST0

    def result(ai, mon, f, s2, ret, w, x):
        compare(ai, mon, f, s2, w, x[0], x[1], s2.store[("o", "path")], s2.store[("o", "fl")], FL0)
        status_is(ai, mon, f, s2, w, s2.store[("o", "stt")], x[2], ST0)
    decoder(ctx, p, "path_decode_uri_inplace", "path",
            lambda n: [REF(("o", "cfg")), REF(("o", "fl")), REF(("o", "stt")), REF(("o", "path"))], setup, result, 100)


MAP = ((PAR["INVALID"], PATH["INVALID"]), (PAR["NUL"], PATH["NUL"]), (PAR["RAW"], 0x8000))


def params(ctx, p):
    def setup(st, n):
        st.store[("o", "path")] = AGG0(p, BS(0, n))
        st.store[("o", "fl")] = FL0

    def withflags(ai, mon, f, s2, ret, w, x):
        if domset(ai, s2, ret, RES) != {"Ok"}:
            mon.bad("result", "%s fails; when %s" % (f.where(), w))
            return
        fl = 0
        for a, b in MAP:
            fl |= b if x[1] & a else 0
        compare(ai, mon, f, s2, w, x[0], fl, project(ret, ("v", "Ok", "0")), s2.store[("o", "fl")], FL0)

    def inplace(ai, mon, f, s2, ret, w, x):
        if domset(ai, s2, ret, RES) != {"Ok"}:
            mon.bad("result", "%s fails; when %s" % (f.where(), w))
            return
        compare(ai, mon, f, s2, w, x[0], 0, s2.store[("o", "path")], FL0, FL0)
    decoder(ctx, p, "decode_uri_with_flags", "params", lambda n: [REF(("o", "cfg")), REF(("o", "fl")), BS(0, n)], setup, withflags, 100)
    decoder(ctx, p, "decode_uri_inplace", "params", lambda n: [REF(("o", "cfg")), REF(("o", "path"))], setup, inplace, 100)


def AGG0(p, v):
    fld = p.adts[BST]
    return mk("agg", BST, None, ((("f", BST, "s"), v),))
