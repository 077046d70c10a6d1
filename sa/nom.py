"""Meaning of the nom combinators over an input of known length whose bytes
are abstract values: the slice of the input from offset o to the end (or to
e) is the term ("bs", o, e); the byte at i is the symbol b<i>."""
from absint import mk, INT, REF, SOME, NONE, OK, ERR, UNIT, AGG, OPT, RES, EQ, LT, NOT, project
import dtable as D

MAKERS = {
    "nom::bytes::complete::take": "take", "nom::bytes::complete::tag": "tag", "nom::bytes::complete::tag_no_case": "tagi",
    "nom::bytes::complete::take_while_m_n": "twmn", "nom::bytes::complete::take_till": "till", "nom::bytes::complete::take_while": "while",
    "nom::bytes::complete::take_while1": "while1", "nom::bytes::complete::take_till1": "till1",
    "nom::bytes::complete::take_until": "until",
    "nom::character::complete::char": "char", "nom::combinator::map": "map", "nom::combinator::not": "not",
    "nom::combinator::opt": "opt", "nom::combinator::peek": "peek", "nom::branch::alt": "alt", "nom::sequence::tuple": "tuple",
    "nom::sequence::preceded": "preceded", "nom::sequence::terminated": "terminated", "nom::sequence::pair": "tuple2",
    "nom::multi::fold_many0": "fold0", "nom::multi::many0": "many0", "nom::combinator::value": "value", "nom::combinator::verify": "verify",
    "nom::bytes::streaming::take": "s:take", "nom::bytes::streaming::tag": "s:tag", "nom::bytes::streaming::take_till": "s:till",
    "nom::bytes::streaming::take_while": "s:while", "nom::bytes::streaming::take_until": "s:until",
    "nom::combinator::complete": "complete", "nom::combinator::rest": "rest", "nom::combinator::eof": "eof",
    "nom::sequence::delimited": "delimited", "nom::sequence::separated_pair": "seppair", "nom::combinator::map_res": "mapres",
    "nom::bytes::complete::is_not": "isnot", "nom::bytes::complete::is_a": "isa", "nom::bytes::streaming::is_not": "s:isnot",
    "nom::bytes::streaming::take_while1": "s:while1", "nom::bytes::streaming::take_till1": "s:till1", "nom::bytes::streaming::tag_no_case": "s:tagi",
    "nom::character::streaming::char": "s:char", "nom::character::complete::one_of": "oneof", "nom::character::complete::none_of": "noneof",
    "nom::character::streaming::one_of": "s:oneof", "nom::character::streaming::none_of": "s:noneof",
    "nom::combinator::map_opt": "mapopt", "nom::combinator::recognize": "recognize", "nom::combinator::cond": "cond",
}
DIRECT = {"nom::number::complete::be_u8": "u8", "nom::number::complete::le_u8": "u8", "nom::combinator::rest": "rest",
          "nom::combinator::eof": "eof", "nom::number::complete::u8": "u8"}
DIRECT.update({"nom::character::complete::" + k: v for k, v in (
    ("digit1", "digit1"), ("digit0", "digit0"), ("space0", "space0"), ("space1", "space1"), ("multispace0", "multispace0"),
    ("multispace1", "multispace1"), ("alpha1", "alpha1"), ("hex_digit1", "hex1"), ("hex_digit0", "hex0"))})
DIRECT.update({k.replace("complete", "streaming"): "s:" + v for k, v in list(DIRECT.items()) if k.startswith("nom::character")})
CHARS = {"digit": frozenset(b"0123456789"), "space": frozenset(b" \t"), "multispace": frozenset(b" \t\r\n"),
         "alpha": frozenset(range(65, 91)) | frozenset(range(97, 123)), "hex": frozenset(b"0123456789abcdefABCDEF")}

PREDS = {"nom::character::" + k: v for k, v in (
    ("is_space", CHARS["space"]), ("is_newline", frozenset(b"\n")), ("is_digit", CHARS["digit"]), ("is_hex_digit", CHARS["hex"]),
    ("is_alphabetic", CHARS["alpha"]), ("is_alphanumeric", CHARS["alpha"] | CHARS["digit"]))}


def BS(o, e):
    return mk("app", "bs", INT(o), INT(e))


def byte(i):
    return mk("sym", "b%d" % i)


def span(v):
    """(start, end) of an input slice, or None"""
    for _ in range(8):
        if v.k == "app" and v.a[0] == "bs":
            return v.a[1].a[0], v.a[2].a[0]
        if v.k == "proj" and (v.a[1] == "*" or (isinstance(v.a[1], tuple) and v.a[1][0] == "f")):
            v = v.a[0]
        elif v.k == "app" and v.a[0] in ("slice_of", "as_slice") and len(v.a) > 1 and hasattr(v.a[1], "k"):
            v = v.a[1]
        elif v.k == "agg" and v.a[0] == "bstr::Bstr":
            v = v.a[2][0][1]
        elif v.k == "bytes" and not v.a[0] or v.k == "app" and v.a[0] == "empty":
            return (0, 0)
        elif v.k == "app" and v.a[0] == "concat":
            a, b = span(v.a[1]), span(v.a[2])
            if a is None or b is None:
                return None
            if a[0] == a[1]:
                return b
            return a if b[0] == b[1] else (a[0], b[1]) if a[1] == b[0] else None
        elif v.k == "ref" and v.a[0][0] == "d":
            v = v.a[0][1]
        else:
            return None
    return None


def span_of_bs(v):
    return span(v) if v.k == "app" and v.a[0] == "bs" else None


class Unsupported(Exception):
    pass


class _Fail:
    """a failed parser, as opposed to the outcome (rest, value)"""

    def __init__(self, n):
        self.n = n


INC = _Fail("incomplete")       # a streaming parser needs more input: not recoverable by alt/opt/not/many0


NOMINC = AGG("nom::Err", "Incomplete", mk("app", "needed"))
NOMERR = AGG("nom::Err", "Error", mk("app", "nomerr"))


def failed(r):
    return r is None or r is INC


class Nom:
    """mixed into a monitor's call()"""

    def handle(self, ai, fr, st, c):
        d = c.decl or ""
        if d in DIRECT and len(c.args) == 1:
            s = self.inp(ai, fr, st, c.args[0])
            if s is not None:
                return self.wrap(self.prim(ai, fr, st, c, DIRECT[d], (), s))
        if d in MAKERS:
            return [(mk("app", "nom", mk("str", MAKERS[d]), *c.args), st)]
        last = d.split("::")[-1]
        if last in ("call", "call_mut", "call_once", "parse") and c.args:
            f = self.value(ai, fr, st, c.args[0])
            if f is not None and f.k == "app" and f.a[0] == "nom":
                a = c.args[1]
                if last != "parse" and a.k == "agg":
                    a = a.a[2][0][1]
                s = self.inp(ai, fr, st, a)
                if s is None:
                    raise Unsupported("combinator applied to " + repr(a)[:80])
                return self.wrap(self.run(ai, fr, st, c, f, s))
            if f is not None and f.k == "fn" and f.a[1] in DIRECT:
                a = c.args[1]
                if last != "parse" and a.k == "agg":
                    a = a.a[2][0][1]
                return self.wrap(self.prim(ai, fr, st, c, DIRECT[f.a[1]], (), self.inp(ai, fr, st, a)))
        return self.slices(ai, fr, st, c, d, last)

    def value(self, ai, fr, st, v):
        for _ in range(4):
            if v.k == "ref":
                v = ai.deref(fr, st, v)
        return v

    def inp(self, ai, fr, st, v):
        for _ in range(4):
            s = span(v)
            if s is not None:
                return s
            if v.k == "ref":
                v = ai.deref(fr, st, v)
        return span(v)

    def wrap(self, outs):
        return [((OK(AGG("tuple", None, BS(*r[0]), r[1])) if not failed(r) else ERR(NOMINC if r is INC else NOMERR)), s)
                for r, s in outs]

    def slices(self, ai, fr, st, c, d, last):
        """plain slice operations on the input"""
        if not c.args or not (d.startswith("std::slice") or d.startswith("std::ops::Index") or d.startswith("core::slice") or
                              d in ("std::iter::IntoIterator::into_iter", "std::borrow::ToOwned::to_owned")):
            return None
        if last in ("into_iter", "to_owned") and not (c.aty and "[u8]" in c.aty[0] or span_of_bs(c.args[0])):
            return None
        s = self.inp(ai, fr, st, c.args[0])
        if s is None or (s == (0, 0) and last == "index" and span_of_bs(c.args[0]) is None):
            return None
        o, e = s
        if last == "len":
            return [(INT(e - o), st)]
        if last == "is_empty":
            return [(INT(1 if e == o else 0), st)]
        if last in ("first", "last"):
            return [((SOME(ai.refto(byte(o if last == "first" else e - 1))) if e > o else NONE), st)]
        if last == "split_first":
            return [((SOME(AGG("tuple", None, ai.refto(byte(o)), BS(o + 1, e))) if e > o else NONE), st)]
        if last == "split_last":
            return [((SOME(AGG("tuple", None, ai.refto(byte(e - 1)), BS(o, e - 1))) if e > o else NONE), st)]
        if last in ("windows", "chunks", "chunks_exact") and c.args[1].k == "int" and c.args[1].a[0] > 0:
            w = c.args[1].a[0]
            if last == "windows":
                return [(mk("app", "cseq", *[BS(i, i + w) for i in range(o, e - w + 1)]), st)]
            return [(mk("app", "cseq", *[BS(i, min(i + w, e)) for i in range(o, e, w) if last == "chunks" or i + w <= e]), st)]
        if last in ("strip_prefix", "strip_suffix"):
            t = D.text(ai, fr, st, c.args[1])
            if t is not None:
                if len(t) > e - o:
                    return [(NONE, st)]
                at = o if last == "strip_prefix" else e - len(t)
                r, work = [], [(st, 0)]
                while work:
                    s0, i = work.pop()
                    if i == len(t):
                        r.append((SOME(BS(o + len(t), e) if last == "strip_prefix" else BS(o, at)), s0))
                        continue
                    for b, s1 in ai.branch(s0, EQ(byte(at + i), INT(t[i]))):
                        if b:
                            work.append((s1, i + 1))
                        else:
                            r.append((NONE, s1))
                return r
        if last == "get" and c.args[1].k == "int":
            i = c.args[1].a[0]
            return [((SOME(ai.refto(byte(o + i))) if o + i < e else NONE), st)]
        if last == "get" and c.args[1].k == "agg":
            f = {k[2]: v for k, v in c.args[1].a[2] if k[0] == "f"}
            lo, hi = f.get("start", INT(0)), f.get("end", INT(e - o))
            if lo.k == "int" and hi.k == "int" and "Inclusive" not in str(c.args[1].a[0]):
                return [((SOME(BS(o + lo.a[0], o + hi.a[0])) if lo.a[0] <= hi.a[0] <= e - o else NONE), st)]
        if last == "index":
            ix = c.args[1]
            if ix.k == "int" and o + ix.a[0] < e:
                return [(ai.refto(byte(o + ix.a[0])), st)]
            if ix.k == "agg":
                f = {k[2]: v for k, v in ix.a[2] if k[0] == "f"}
                lo, hi = f.get("start", INT(0)), f.get("end", INT(e - o))
                if lo.k == "int" and hi.k == "int" and lo.a[0] <= hi.a[0] <= e - o:
                    return [(BS(o + lo.a[0], o + hi.a[0]), st)]
        if last in ("split", "rsplit", "splitn", "rsplitn", "split_inclusive"):
            return self.split(ai, fr, st, c, last, o, e)
        if last in ("split_at",) and c.args[1].k == "int" and c.args[1].a[0] <= e - o:
            return [(AGG("tuple", None, BS(o, o + c.args[1].a[0]), BS(o + c.args[1].a[0], e)), st)]
        if last in ("starts_with", "ends_with"):
            t = D.text(ai, fr, st, c.args[1])
            if t is not None:
                if len(t) > e - o:
                    return [(INT(0), st)]
                at = o if last == "starts_with" else e - len(t)
                r = [(INT(1), st)]
                for i, x in enumerate(t):
                    nx = []
                    for v, s0 in r:
                        if v.a[0]:
                            nx += [(INT(b), s1) for b, s1 in ai.branch(s0, EQ(byte(at + i), INT(x)))]
                        else:
                            nx.append((v, s0))
                    r = nx
                return r
        if last in ("iter", "into_iter"):
            return [(mk("app", "cseq", *[ai.refto(byte(i)) for i in range(o, e)]), st)]
        if last in ("to_vec", "into_vec", "to_owned"):
            v = mk("app", "empty")
            for i in range(o, e):
                v = mk("app", "push", v, byte(i))
            return [(v, st)]
        return None

    def split(self, ai, fr, st, c, how, o, e):
        n = None
        if how.endswith("n"):
            if c.args[1].k != "int":
                return None
            n = c.args[1].a[0]
        rev = how.startswith("r")
        work, out = [(st, e - 1 if rev else o, ())], []
        while work:
            s0, i, cuts = work.pop()
            if i == (o - 1 if rev else e) or (n is not None and len(cuts) >= n - 1):
                parts, lo = [], o
                for k in sorted(cuts):
                    parts.append(BS(lo, k + (how == "split_inclusive")))
                    lo = k + 1
                if how != "split_inclusive" or lo < e:
                    parts.append(BS(lo, e))
                out.append((mk("app", "cseq", *(parts[::-1] if rev else parts)), s0))
                continue
            for v, s1 in self.pred(ai, fr, s0, c, c.args[-1], ai.refto(byte(i))):
                work.append((s1, i + (-1 if rev else 1), cuts + (i,) if v else cuts))
        return out

    # ---- running a parser: list of (((start, end) of the rest, value) | None, state)
    def run(self, ai, fr, st, c, f, s):
        f = self.value(ai, fr, st, f)
        if f.k == "app" and f.a[0] == "nom":
            return self.prim(ai, fr, st, c, f.a[1].a[0], f.a[2:], s)
        if f.k == "fn" and f.a[1] in DIRECT:
            return self.prim(ai, fr, st, c, DIRECT[f.a[1]], (), s)
        out = []
        for r, s2 in ai.call_value(fr, st, c, f, [BS(*s)]):
            for v, s3 in ai.cases(s2, r, RES):
                if v == "Err":
                    out.append((INC if self.value(ai, fr, s3, project(r, ("v", "Err", "0"))) .a[1:2] == ("Incomplete",) else None, s3))
                    continue
                t = project(r, ("v", "Ok", "0"))
                rest, val = project(t, ("t", 0)), project(t, ("t", 1))
                sp = self.inp(ai, fr, s3, rest)
                if sp is None:
                    raise Unsupported("rest " + repr(rest)[:80])
                if sp == (0, 0):
                    sp = (s[1], s[1])
                out.append(((sp, val), s3))
        return out

    def pred(self, ai, fr, st, c, f, b):
        out = []
        f = self.value(ai, fr, st, f)
        if f.k == "fn" and f.a[1] in PREDS:
            b = self.value(ai, fr, st, b)
            return ai.branch(st, inset(b, PREDS[f.a[1]]))
        for r, s in ai.call_value(fr, st, c, f, [b]):
            out += ai.branch(s, r)
        return out

    def lit(self, ai, fr, st, v):
        t = D.text(ai, fr, st, v)
        if t is None and v.k == "int":
            t = bytes([v.a[0]])
        if t is None:
            raise Unsupported("literal " + repr(v)[:60])
        return t

    def elems(self, v):
        return [x for k, x in v.a[2]] if v.k == "agg" else [v]

    def prim(self, ai, fr, st, c, kind, a, s):
        o, e = s
        short = None
        if kind.startswith("s:"):
            kind, short = kind[2:], INC
        if kind == "rest":
            return [(((e, e), BS(o, e)), st)]
        if kind == "eof":
            return [((((e, e), BS(o, e)) if o == e else None), st)]
        if kind == "u8":
            return [((((o + 1, e), byte(o)) if o < e else None), st)]
        if kind in ("oneof", "noneof"):
            if o == e:
                return [(short, st)]
            return [((((o + 1, e), byte(o)) if bool(v) == (kind == "oneof") else None), s1)
                    for v, s1 in ai.branch(st, inset(byte(o), frozenset(self.lit(ai, fr, st, a[0]))))]
        if kind == "take":
            n = a[0].a[0]
            return [((((o + n, e), BS(o, o + n)) if e - o >= n else short), st)]
        if kind in ("char", "tag", "tagi"):
            t = self.lit(ai, fr, st, a[0])
            if e - o < len(t) and short is None:
                return [(None, st)]
            work = [(st, 0)]
            out = []
            while work:
                s0, i = work.pop()
                if o + i == e and i < len(t):
                    out.append((short, s0))
                    continue
                if i == len(t):
                    out.append((((o + i, e), INT(t[0]) if kind == "char" else BS(o, o + i)), s0))
                    continue
                alts = [t[i]]
                if kind == "tagi" and chr(t[i]).isalpha():
                    alts = sorted({ord(chr(t[i]).lower()), ord(chr(t[i]).upper())}, reverse=True)
                for x in alts:
                    nxt = None
                    for v, s1 in ai.branch(s0, EQ(byte(o + i), INT(x))):
                        if v:
                            work.append((s1, i + 1))
                        else:
                            nxt = s1
                    s0 = nxt
                    if s0 is None:
                        break
                if s0 is not None:
                    out.append((None, s0))
            return out
        if kind in ("till", "while", "while1", "till1", "twmn"):
            m_, n_ = (a[0].a[0], a[1].a[0]) if kind == "twmn" else (1 if kind.endswith("1") else 0, 1 << 30)
            f = a[-1]
            neg = kind.startswith("till")
            work, out = [(st, o)], []
            while work:
                s0, i = work.pop()
                if i == e and i - o < n_ and short is not None:
                    out.append((INC, s0))
                    continue
                if i == e or i - o == n_:
                    out.append(((((i, e), BS(o, i)) if i - o >= m_ else None), s0))
                    continue
                for v, s1 in self.pred(ai, fr, s0, c, f, byte(i)):
                    if bool(v) != neg:
                        work.append((s1, i + 1))
                    else:
                        out.append(((((i, e), BS(o, i)) if i - o >= m_ else None), s1))
            return out
        if kind == "map":
            out = []
            for r, s1 in self.run(ai, fr, st, c, a[0], s):
                if failed(r):
                    out.append((r, s1))
                else:
                    out += [((r[0], v), s2) for v, s2 in ai.call_value(fr, s1, c, self.value(ai, fr, s1, a[1]), [r[1]])]
            return out
        if kind == "value":
            return [((r if failed(r) else (r[0], a[0])), s1) for r, s1 in self.run(ai, fr, st, c, a[1], s)]
        if kind == "not":
            return [((INC if r is INC else None if r is not None else (s, UNIT)), s1) for r, s1 in self.run(ai, fr, st, c, a[0], s)]
        if kind == "opt":
            return [((INC if r is INC else (s, NONE) if r is None else (r[0], SOME(r[1]))), s1) for r, s1 in self.run(ai, fr, st, c, a[0], s)]
        if kind == "peek":
            return [((r if failed(r) else (s, r[1])), s1) for r, s1 in self.run(ai, fr, st, c, a[0], s)]
        if kind == "complete":
            return [((None if r is INC else r), s1) for r, s1 in self.run(ai, fr, st, c, a[0], s)]
        if kind == "recognize":
            return [((r if failed(r) else (r[0], BS(o, r[0][0]))), s1) for r, s1 in self.run(ai, fr, st, c, a[0], s)]
        if kind == "alt":
            cur, out = [st], []
            for f in self.elems(a[0]):
                nxt = []
                for s0 in cur:
                    for r, s1 in self.run(ai, fr, s0, c, f, s):
                        if r is None:
                            nxt.append(s1)
                        else:
                            out.append((r, s1))
                cur = nxt
            return out + [(None, s0) for s0 in cur]
        if kind in ("tuple", "tuple2", "preceded", "terminated", "delimited", "seppair"):
            fs = self.elems(a[0]) if kind == "tuple" else list(a)
            work, out = [(st, s, ())], []
            while work:
                s0, sp, vs = work.pop()
                if len(vs) == len(fs):
                    v = {"preceded": lambda: vs[1], "terminated": lambda: vs[0], "delimited": lambda: vs[1],
                         "seppair": lambda: AGG("tuple", None, vs[0], vs[2])}.get(kind, lambda: AGG("tuple", None, *vs))()
                    out.append(((sp, v), s0))
                    continue
                for r, s1 in self.run(ai, fr, s0, c, fs[len(vs)], sp):
                    if failed(r):
                        out.append((r, s1))
                    else:
                        work.append((s1, r[0], vs + (r[1],)))
            return out
        if kind in ("fold0", "many0"):
            out = []
            if kind == "fold0":
                work = [(s1, s, acc) for acc, s1 in ai.call_value(fr, st, c, self.value(ai, fr, st, a[1]), [])]
            else:
                work = [(st, s, mk("app", "empty"))]
            while work:
                s0, sp, acc = work.pop()
                for r, s1 in self.run(ai, fr, s0, c, a[0], sp):
                    if r is INC:
                        out.append((INC, s1))
                    elif r is None:
                        out.append(((sp, acc), s1))
                    elif r[0] == sp:
                        out.append((None, s1))      # no progress is an error
                    elif kind == "fold0":
                        for v, s2 in ai.call_value(fr, s1, c, self.value(ai, fr, s1, a[2]), [acc, r[1]]):
                            work.append((s2, r[0], v))
                    else:
                        work.append((s1, r[0], mk("app", "push", acc, r[1])))
            return out
        if kind == "until":
            t = self.lit(ai, fr, st, a[0])
            out, work = [], [(st, o)]
            while work:
                s0, i = work.pop()
                if i + len(t) > e:
                    out.append((short, s0))
                    continue
                for r, s1 in self.prim(ai, fr, s0, c, "tag", a, (i, e)):
                    if r is None:
                        work.append((s1, i + 1))
                    else:
                        out.append((((i, e), BS(o, i)), s1))
            return out
        if kind in ("isnot", "isa", "digit1", "digit0", "space0", "space1", "multispace0", "multispace1", "alpha1", "hex1", "hex0"):
            if kind in ("isnot", "isa"):
                t, m_ = frozenset(self.lit(ai, fr, st, a[0])), 1
            else:
                t, m_ = CHARS[kind[:-1]], int(kind[-1])
            work, out = [(st, o)], []
            while work:
                s0, i = work.pop()
                if i == e:
                    out.append((INC if short is not None else ((i, e), BS(o, i)) if i - o >= m_ else None, s0))
                    continue
                for v, s1 in ai.branch(s0, inset(byte(i), t)):
                    if bool(v) != (kind == "isnot"):
                        work.append((s1, i + 1))
                    else:
                        out.append((((i, e), BS(o, i)) if i - o >= m_ else None, s1))
            return out
        raise Unsupported("combinator " + kind)



# ------------------------------------------------------------------ exact byte domain
from absint import AI, atoms, subst


def fold(t):
    """constant-fold a term"""
    if t.k in ("op", "app") and len(t.a) > 1 and all(hasattr(x, "k") for x in t.a[1:]):
        a = [fold(x) for x in t.a[1:]]
        if all(x.k == "int" for x in a):
            try:
                return INT(ev(mk(t.k, t.a[0], *a), None, None))
            except Unsupported:
                pass
        return mk(t.k, t.a[0], *a)
    return t



def is_byte(s):
    n = s.a[0]
    return isinstance(n, str) and (n[0] in "bx" and n[1:2].isdigit() or n.startswith("fit:"))


_vec = {}


def vec(t):
    """(symbol, values of the term for each value of that byte), or None"""
    r = _vec.get(t, 0)
    if r == 0:
        r = _vec[t] = _mkvec(t)
    return r


def _mkvec(t):
    at = {s for s in atoms(t)}
    if len(at) != 1:
        return None
    s = next(iter(at))
    if not is_byte(s):
        return None
    try:
        return s, [ev(t, s, x) for x in range(256)]
    except Unsupported:
        return None


def ev(t, s, x):
    if t is s:
        return x
    if t.k == "int":
        return t.a[0]
    if t.k == "op":
        o = t.a[0]
        if o == "Not":
            return 0 if ev(t.a[1], s, x) else 1
        if o.startswith("cast:"):
            return cast(o[5:], ev(t.a[1], s, x))
        a, b = ev(t.a[1], s, x), ev(t.a[2], s, x)
        if o == "Eq":
            return int(a == b)
        if o == "Lt":
            return int(a < b)
        f = {"BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b, "Add": lambda: a + b, "Sub": lambda: (a - b) & 0xff,
             "Mul": lambda: a * b, "Shl": lambda: a << b, "Shr": lambda: a >> b, "Rem": lambda: a % b, "Div": lambda: a // b}.get(o)
        if f is not None:
            return f()
    if t.k == "bit":
        return ev(t.a[0], s, x) >> t.a[1] & 1
    if t.k == "app" and len(t.a) == 2:
        if t.a[0].startswith("cast:"):
            return cast(t.a[0][5:], ev(t.a[1], s, x))
        f = CLASS.get(t.a[0])
        if f is not None:
            return int(f(ev(t.a[1], s, x)))
    raise Unsupported(repr(t)[:60])


def cast(ty, v):
    return v & 0xff if ty == "u8" else v


def rng(*rs):
    return lambda c: any(a <= c <= b for a, b in rs)


CLASS = {
    "is_ascii_digit": rng((48, 57)), "is_ascii_hexdigit": rng((48, 57), (65, 70), (97, 102)), "is_ascii_alphabetic": rng((65, 90), (97, 122)),
    "is_ascii_alphanumeric": rng((48, 57), (65, 90), (97, 122)), "is_ascii_uppercase": rng((65, 90)), "is_ascii_lowercase": rng((97, 122)),
    "is_ascii_whitespace": lambda c: c in (9, 10, 12, 13, 32), "is_ascii_control": rng((0, 31), (127, 127)), "is_ascii": rng((0, 127)),
    "is_ascii_graphic": rng((33, 126)), "is_ascii_punctuation": rng((33, 47), (58, 64), (91, 96), (123, 126)),
    "to_ascii_lowercase": lambda c: c + 32 if 65 <= c <= 90 else c, "to_ascii_uppercase": lambda c: c - 32 if 97 <= c <= 122 else c,
}


def inset(t, S):
    """is the byte in the set?"""
    n = "in:" + bytes(sorted(S)).hex()
    CLASS.setdefault(n, lambda c: c in S)
    return mk("app", n, t)


class ByteAI(AI):
    """byte symbols range over explicit sets of values; predicates of one byte are decided exactly"""

    def norm(self, st, t):
        """replace the bytes whose value is known, in terms about several bytes"""
        if t.k in ("op", "app", "bit") and len(atoms(t)) > 1:
            m = {}
            for s in atoms(t):
                if is_byte(s):
                    d = self.bdom(st, s)
                    if len(d) == 1:
                        m[s] = INT(next(iter(d)))
            if m:
                return fold(subst(t, m))
        return t

    def bdom(self, st, s):
        f = st.facts.get(s)
        if f is None:
            return frozenset(range(256))
        return f[1] if f[0] == "in" else frozenset(range(256)) - f[1]

    def dom(self, st, t, adt=None):
        t = self.norm(st, t)
        if t.k == "int":
            return ("in", frozenset((t.a[0],)))
        if t.k == "sym" and is_byte(t):
            return ("in", self.bdom(st, t))
        v = vec(t) if t.k in ("op", "app", "bit") else None
        if v is not None:
            return ("in", frozenset(v[1][x] for x in self.bdom(st, v[0])))
        return AI.dom(self, st, t, adt)

    def evalb(self, st, t):
        t = self.norm(st, t)
        if t.k != "int":
            v = vec(t)
            if v is not None:
                r = {1 if v[1][x] else 0 for x in self.bdom(st, v[0])}
                return next(iter(r)) if len(r) == 1 else None
        return AI.evalb(self, st, t)

    def assume(self, st, t, val):
        t = self.norm(st, t)
        if t.k != "int":
            v = vec(t)
            if v is not None:
                d = frozenset(x for x in self.bdom(st, v[0]) if (1 if v[1][x] else 0) == val)
                if not d:
                    return False
                st.facts[v[0]] = ("in", d)
                return True
        return AI.assume(self, st, t, val)

    def restrict(self, st, t, kind, S, adt=None):
        t = self.norm(st, t)
        if t.k in ("op", "app", "bit"):
            v = vec(t)
            if v is not None:
                d = frozenset(x for x in self.bdom(st, v[0]) if (v[1][x] in S) == (kind == "in"))
                if not d:
                    return False
                st.facts[v[0]] = ("in", d)
                return True
        return AI.restrict(self, st, t, kind, S, adt)

    def same_byte(self, st, a, b):
        """do two terms denote the same byte on this path?"""
        if a is b:
            return True
        va = vec(a) if a.k != "int" else None
        vb = vec(b) if b.k != "int" else None
        if va and vb:
            if va[0] is vb[0]:
                return all(va[1][x] & 0xff == vb[1][x] & 0xff for x in self.bdom(st, va[0]))
            da, db = ({v[1][x] & 0xff for x in self.bdom(st, v[0])} for v in (va, vb))
            return len(da) == 1 and da == db
        if a.k == "int" and vb:
            a, va, b, vb = b, vb, a, None
        if va and b.k == "int":
            return all(va[1][x] & 0xff == b.a[0] & 0xff for x in self.bdom(st, va[0]))
        return a.k == "int" and b.k == "int" and a.a[0] == b.a[0]
