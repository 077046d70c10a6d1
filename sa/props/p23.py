"""Header blocks: which bytes are names and values, where headers end, which irregularities are marked."""
from absint import mk, INT, REF, AGG, project, show, RES
import bset as B
from bset import ALL
from nom import BS, byte
import nom as NM
import props.p15 as U

RULE = ("every header block is cut into headers, names and values exactly as the header grammar says; what is not complete is left unread "
        "and every irregularity is marked")
PA = "headers::Parser"
SIDE = "headers::Side"
SPACE = frozenset(b" \t\n\x0b\x0c\r")
BLANK = frozenset(b" \t")
TOKEN = frozenset(c for c in range(33, 127) if c not in b'()<>@,;:\\"/[]?={}')
FOLD, NAME_EMPTY, VALUE_EMPTY, NON_TOKEN, TRAIL, LEAD, NUL, NOCOLON, DEFORMED = 1, 4, 8, 16, 64, 128, 256, 0x204, 0x400
CR, LF, CO = 13, 10, 58


class Inc(Exception):
    """more input is needed"""


class Grammar:
    def __init__(self, s, side, complete):
        self.s, self.n, self.resp, self.complete = s, s.n, side == "Response", complete

    # each method: the position after it (and flags), or None
    def tag(self, i, t):
        for k, c in enumerate(t):
            if i + k >= self.n or not self.s.is_(i + k, c):
                return None
        return i + len(t)

    def first(self, i, *ts):
        for t in ts:
            r = self.tag(i, t)
            if r is not None:
                return r
        return None

    def run(self, i, S):
        """end of the run of S from i: needs to see what ends it"""
        while True:
            if i == self.n:
                raise Inc()
            if not self.s.isin(i, S):
                return i
            i += 1

    def eol(self, i):
        """one plain line end"""
        return self.first(i, b"\r\n", b"\n\r", b"\n", b"\r") if self.resp else self.first(i, b"\r\n", b"\n")

    def eol_any(self, i):
        """a line end, possibly deformed: (position, flags)"""
        r = self.tag(i, b"\n\r\r\n")
        if r is not None and self.first(r, b"\n", b"\r\n") is not None:
            return r, DEFORMED
        if not self.resp:
            r = self.tag(i, b"\n\r")
            if r is not None and self.tag(r, b"\r\n") is not None:
                return r, DEFORMED
        else:
            a = self.eol(i)
            if a is not None and a < self.n and self.s.isin(a, BLANK):
                b = self.eol(a + 1)
                if b is not None:
                    return b, 0
            r = self.tag(i, b"\r\n\r")
            if r is not None:
                e = self.run(r, b"\r \t")
                if e > r:
                    e = self.tag(e, b"\n") or e
                    if self.first(e, b"\n", b"\r\n") is None:
                        return e, DEFORMED
        r = self.eol(i)
        return None if r is None else (r, 0)

    def fold_byte(self, i):
        if i == self.n:
            raise Inc()
        return self.s.isin(i, b" \t\0")

    def folding(self, i):
        """a line end and a blank: (position, flags, index of the blank)"""
        r = (self.eol(i), 0) if self.resp else self.eol_any(i)
        if r is None or r[0] is None or not self.fold_byte(r[0]):
            return None
        return r[0] + 1, r[1] | FOLD, r[0]

    def ending(self, i):
        """folding or the end of a value: (position, flags, fold index or None, length of the line end)"""
        if self.complete:
            try:
                r = self.folding(i)
            except Inc:
                r = None
        else:
            r = self.folding(i)
        if r is not None:
            return r[0], r[1], r[2], r[2] - i
        r = self.tag(i, b"\0")
        if r is not None:
            return r, NUL, None, 1
        r = self.eol_any(i)
        if r is None:
            return None
        if not self.complete and self.fold_byte(r[0]):
            return None
        return r[0], r[1], None, r[0] - i

    def line(self, i):
        """a piece of a value and how it ends: (end of the piece, ending) or None"""
        k = i
        while True:
            if k == self.n:
                raise Inc()
            if self.s.is_(k, LF) or self.resp and self.s.is_(k, CR):
                break
            k += 1
        if k > i and self.s.is_(k - 1, CR):
            k -= 1
        r = self.ending(k)
        return None if r is None else (k, r)

    def starts_header(self, i):
        """(in a response) does a name and a colon follow"""
        a = self.run(i, BLANK)
        b = self.run(a, TOKEN)
        c = self.run(b, BLANK)
        if self.tag(c, b":") is None:
            return False
        self.run(c + 1, BLANK)
        return b > a

    def value(self, i):
        """(position, elements, flags) or None"""
        r = self.line(i)
        if r is None:
            return None
        end, (pos, flags, fold, _) = r
        v = list(range(i, end))
        if fold is None:
            return pos, v, flags | (0 if v else VALUE_EMPTY)
        i = pos
        while True:
            if self.resp and self.starts_header(i):
                return i, v, flags & ~3 | (0 if v else VALUE_EMPTY)
            r = self.line(i)
            if r is None:
                return None
            end, (nxt, fl, nfold, eoll) = r
            flags |= fl
            if v:
                v.append(fold)
            if end > i or eoll > 1:
                pos = nxt
                v += range(i, end)
            elif nxt < self.n and self.s.is_(nxt, LF):
                pos = nxt
            i = nxt
            if nfold is None:
                return pos, v, flags
            fold = nfold

    def trim(self, v):
        while v and self.s.isin(v[0], SPACE):
            v = v[1:]
        while v and self.s.isin(v[-1], SPACE):
            v = v[:-1]
        return tuple(v)

    def name(self, i):
        """(position after it, elements, flags)"""
        k, end, off = i, False, i
        while k < self.n:
            if not end:
                if self.s.is_(k, CO):
                    off = k
                    break
                if self.s.is_(k, LF):
                    end = True
            elif self.s.is_(k, 32):
                end = False
            else:
                off = k - 1
                break
            k += 1
        if off == i:
            return off, (), NAME_EMPTY
        fl = (LEAD if self.s.isin(i, BLANK) else 0) | (TRAIL if self.s.isin(off - 1, BLANK) else 0)
        a = self.s.whil(i, BLANK, off)
        b = self.s.whil(a, TOKEN, off)
        if self.s.whil(b, BLANK, off) < off:
            fl |= NON_TOKEN
        return off, self.trim(list(range(i, off))), fl

    def header(self, i):
        try:
            pos, nm, nf = self.name(i)
            c = self.tag(pos, b":")
            if c is not None:
                v = self.value(self.run(c, BLANK))
                if v is not None:
                    return v[0], (nm, nf, self.trim(v[1]), v[2])
        except Inc:
            pass
        if self.tag(i, b"\r\n") is not None:
            return None
        v = self.value(i)
        if v is None:
            return None
        f = v[2] | NOCOLON
        return v[0], ((), f, self.trim(self.trim(v[1])), f)

    def headers(self):
        i, out = 0, []
        while True:
            try:
                r = self.header(i)
            except Inc:
                return ("Ok", i, tuple(out), 0) if out else "Incomplete"
            if r is None:
                return "Err"
            i = r[0]
            out.append(r[1])
            if r[1][3] & NUL:
                return "Ok", i, tuple(out), 1
            try:
                e = self.eol_any(i)
            except Inc:
                e = None
            if e is not None:
                return "Ok", e[0], tuple(out), 1


def bytes_of(ai, st, v):
    """indexes of the input bytes a byte vector consists of"""
    s = NM.span(v)
    if s is not None:
        return tuple(range(*s))
    el = U.elements(ai, st, v)
    if el is None:
        return "?" + show(v)[:80]
    r = []
    for x in el:
        if x.k == "sym" and NM.is_byte(x):
            r.append(int(x.a[0][1:]))
        else:
            r.append(x.a[0] + 1000 if x.k == "int" else "?" + show(x)[:40])
    return tuple(r)


def result(ai, st, ret):
    if ret.k == "agg" and ret.a[1] == "Err":
        e = ret.a[2][0][1]
        return "Incomplete" if e.k == "agg" and e.a[1] == "Incomplete" else "Err"
    if not (ret.k == "agg" and ret.a[1] == "Ok"):
        return "?" + show(ret)[:80]
    t = ret.a[2][0][1]
    rest = NM.span(project(t, ("t", 0)))
    hs = B.items(project(project(t, ("t", 1)), ("t", 0)))
    end = project(project(t, ("t", 1)), ("t", 1))
    if hs is None or rest is None:
        return "?" + show(t)[:120]
    out = []
    for h in hs:
        nm, va = project(h, ("f", "headers::Header", "name")), project(h, ("f", "headers::Header", "value"))
        nf, vf = project(nm, ("f", "headers::Name", "flags")), project(va, ("f", "headers::Value", "flags"))
        out.append((bytes_of(ai, st, project(nm, ("f", "headers::Name", "name"))), nf.a[0] if nf.k == "int" else show(nf)[:60],
                    bytes_of(ai, st, project(va, ("f", "headers::Value", "value"))), vf.a[0] if vf.k == "int" else show(vf)[:60]))
    return "Ok", rest[0], tuple(out), end.a[0] if end.k == "int" else show(end)[:40]


def words(ws):
    return [[ALL if x == 0xff else frozenset((x,)) for x in w] for w in ws]


W = b"\xff"
SHAPES = words([b""] + [W * k for k in range(1, 4)] + [
    W + b":v\n\n", b"k" + W + b":v\n\n", W + b"k:v\n\n", b"k:" + W * 2 + b"\n\n", b"k:" + W * 2 + b"v\n\n", b"k:v" + W * 2 + b"\n\n", b"k:v" + W * 3,
    b"k:v\r\n" + W * 3, b"k:v\n" + W * 3, b"k:v\r" + W * 3, b"k:v\n\r" + W * 2, b"k:v\r\n\r" + W * 2, b"k:v\n\r\r" + W * 2, b"k:v\r\n\r\r" + W * 2,
    b"k:v\r\n " + W * 3, b"k:v\r\n\t" + W * 2, b"k:\r\n " + W + b"\r\n\r\n", b"k:v\r\n w" + W * 2 + b"\r\n", b"k:v\n w:" + W * 2, b"k:v\n " + W + b":" + W + b"\n",
    b"k:v\r\nl" + W * 2 + b"\r\n\r\n", b"k" + W * 2 + b"\n\n", b"k v" + W + b"\n" + W + b"\n", b"k:v\r\n \r\n" + W * 2, b"k:v\n \n" + W * 2, b"k" + W + b" :v\n\n",
    b"k:v\r\n x\r\n" + W + b"y\r\n\r\n", b"k:v\r\n x\n" + W * 2, b"k:v\r\n l:w\r\n" + W + b"\r\n", b"k:\n" + W + b"l:w\n\n", b"a\n b" + W + b"c\n\n", b"\n" + W * 2, b"\r\n" + W * 2,
    b"k:v\n\n" + W, b"k:v\r\n\r\n" + W, b"k:v\nl:w\nm" + W + b"x\n\n", b"k:v\0" + W + b"\n\n", b"k:v\n\0" + W * 2,
])


def run(ctx):
    ctx.rule = RULE
    p = ctx.prog
    fs = p.method("Parser", "headers")
    fs = [f for f in fs if f.file.endswith("headers.rs")]
    tys = sorted(fd["ty"] for fd in p.adts[PA]["variants"][0]["fields"]) if PA in p.adts else None
    if len(fs) != 1 or tys != ["bool", SIDE]:
        ctx.violation("anchor:headers", "the operation that parses header blocks is gone")
        return
    ctx.each(lambda c, w: scenario(c, fs[0], *w), [(sc, side, cm) for sc in SHAPES for side in ("Request", "Response") for cm in (0, 1)])
    ctx.floor("rows", ctx.counts.get("rows", 0), 3000)


def scenario(ctx, f, sc, side, cm):
    p = ctx.prog

    def setup(ai, st, n):
        for fd in p.adts[PA]["variants"][0]["fields"]:
            if fd["ty"] == SIDE:
                ai.write(None, st, ("o", "parser"), (("f", PA, fd["name"]),), AGG(SIDE, side))
            elif fd["ty"] == "bool":
                ai.write(None, st, ("o", "parser"), (("f", PA, fd["name"]),), INT(cm))

    def call(ai, st, n):
        if f.argc == 2:
            return ai.run(f.id, [REF(("o", "parser")), BS(0, n)], st)
        out = []
        for v, s in ai.run(f.id, [REF(("o", "parser"))], st):
            g = p.fns.get(v.a[0]) if v.k == "clo" else None
            if g is None:
                raise NM.Unsupported("the header parser " + show(v)[:60])
            a = v
            if g.locals[1]["ty"].startswith("&"):
                s.store[("o", "theparser")] = v
                a = REF(("o", "theparser"))
            out += ai.run(g.id, [a, BS(0, n)], s)
        return out
    B.decide(ctx, "header block", f, [sc], None, lambda s: Grammar(s, side, cm).headers(), result, objtypes={"parser": PA, "theparser": "?"},
             mon=Mon(ctx, f.name), setup=setup, call=call)


class Mon(B.Mon):
    pass
