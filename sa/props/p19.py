"""Comparison and search of byte strings."""
import absint
from absint import mk, INT, REF, EQ, LT, St, AGG, ORD, OPT, SOME, NONE, show, project, subst
import models
import dtable as D
import nom as NM
from nom import byte, BS
import props.p15 as U

LOW = lambda t: mk("app", "to_ascii_lowercase", t)
WS = frozenset((9, 10, 12, 13, 32))
UWS = frozenset((9, 10, 11, 12, 13, 32))
NEEDLES = [b"", b"a", b"A", b"ab", b"aB", b"aa", b"-", b"a\xc1", b"aba", b"a\0", b"{", b"aab"]
BASE = 100
LOWERED = 200


class Mon(U.Mon):
    def call(self, ai, fr, st, c):
        d = c.decl or ""
        last = d.split("::")[-1]
        if last == "as_ref" and c.args:
            s = self.inp(ai, fr, st, c.args[0])
            if s is not None:
                return [(BS(*s), st)]
        if d.startswith("std::iter::Iterator::") and last in ("cmp", "eq", "partial_cmp", "ne"):
            l, r = self.seq(ai, fr, st, c, 0)
            out = []
            for e1, s1 in l:
                r = self.seq(ai, fr, s1, c, 1)[0]
                for e2, s2 in r:
                    out += self.lex(ai, s2, e1, e2, last)
            return out
        if d in ("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp", "std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
            a, b = (self.list(ai, fr, st, x) for x in c.args[:2])
            if a is not None and b is not None:
                return self.lex(ai, st, a, b, last)
        if last in ("eq_ignore_ascii_case",):
            a, b = (self.list(ai, fr, st, x) for x in c.args[:2])
            if a is not None and b is not None:
                return self.lex(ai, st, [LOW(x) for x in a], [LOW(x) for x in b], "eq")
        if "char::methods" in d and last.startswith(("is_ascii", "to_ascii")) and c.args:
            v = c.args[0]
            return [(mk("app", last, ai.deref(fr, st, v) if v.k == "ref" else v), st)]
        if last in ("starts_with", "ends_with") and len(c.args) == 2:
            a, b = (self.list(ai, fr, st, x) for x in c.args)
            if a is not None and b is not None:
                if len(b) > len(a):
                    return [(INT(0), st)]
                return self.lex(ai, st, a[:len(b)] if last[0] == "s" else a[len(a) - len(b):], b, "eq")
        if c.args and (c.target not in ai.p.fns) and ("::" in d):
            v = c.args[0]
            for _ in range(3):
                if v.k == "ref":
                    v = ai.deref(fr, st, v)
            if v.k == "agg" and v.a[0] in ai.p.adts and v.a[0] != U.BST:
                fs = [f for f in ai.p.method(v.a[0].split("::")[-1], last) if f.argc == len(c.args)]
                if len(fs) == 1:
                    return ai.invoke(fr, st, c, fs[0].id, c.args)
        if last in ("to_ascii_lowercase", "to_ascii_uppercase", "to_lowercase", "to_uppercase") and c.args:
            a = self.list(ai, fr, st, c.args[0])
            dom = [self.single(ai, st, x) for x in a or []]
            if a and None not in dom:
                b = LOWERED + (0 if "lower" in last else 50)
                st = st.clone()
                for i, x in enumerate(dom):
                    st.facts[byte(b + i)] = ("in", frozenset((ord(getattr(chr(x), "lower" if "lower" in last else "upper")()) if x < 128 else x,)))
                return [(BS(b, b + len(a)), st)]
            if a is not None:
                v = mk("app", "empty")
                for x in a:
                    v = mk("app", "push", v, mk("app", last.replace("to_low", "to_ascii_low") if last == "to_lowercase" else last, x))
                return [(v, st)]
        if "ByteSlice" in d and last in ("trim", "trim_with", "find", "trim_start", "trim_end", "as_bytes", "as_bstr"):
            return self.byteslice(ai, fr, st, c, last)
        if last in ("trim_ascii", "trim_ascii_start", "trim_ascii_end"):
            return self.trim(ai, fr, st, c, last)
        if last == "index" and d.startswith("std::ops::Index") and c.aty and "[u8]" in c.aty[0] and c.args[0].k == "ref":
            a = self.inp(ai, fr, st, c.args[0])
            if a is not None:
                c.args[0] = BS(*a)
        return U.Mon.call(self, ai, fr, st, c)

    def single(self, ai, st, t):
        if t.k == "int":
            return t.a[0]
        f = st.facts.get(t)
        return next(iter(f[1])) if f and f[0] == "in" and len(f[1]) == 1 else None

    def list(self, ai, fr, st, v):
        s = self.inp(ai, fr, st, v)
        if s is not None:
            return [byte(i) for i in range(*s)]
        t = D.text(ai, fr, st, v)
        if t is not None:
            return [INT(x) for x in t]
        for _ in range(4):
            if v.k == "ref":
                v = ai.deref(fr, st, v)
        if v.k == "app" and v.a[0] in ("array", "cseq") or v.k == "agg" and v.a[0] == "array":
            el = list(v.a[1:]) if v.k == "app" else [x for k, x in v.a[2]]
            if all(x.k == "int" or x.k == "sym" and NM.is_byte(x) for x in el):
                return el
        if v.k == "proj" and v.a[1] == "*" and v.a[0].k == "app" and v.a[0].a[0] == "slice":
            return U.elements(ai, st, v)
        return U.elements(ai, st, v) if v.k in ("app", "agg") and (v.k == "agg" and v.a[0] == U.BST or v.k == "app" and v.a[0] in ("push", "concat", "slice_of", "as_slice", "slice")) else None

    def seq(self, ai, fr, st, c, i):
        class C2:
            pass
        c2 = C2()
        c2.__dict__.update(getattr(c, "__dict__", {}))
        for k in ("decl", "res", "aty", "gargs", "target"):
            setattr(c2, k, getattr(c, k, None))
        c2.args = [c.args[i]]
        r = models.drain(ai, fr, st, c2)
        if r is None:
            raise NM.Unsupported("comparison of " + show(c.args[i])[:60])
        out = []
        for e, s in r:
            out.append(([ai.deref(fr, s, x) if x.k == "ref" else x for x in e], s))
        return out, None

    def lex(self, ai, st, a, b, how):
        out, work = [], [(st, 0)]

        def res(o, s):
            if how in ("eq", "ne"):
                out.append((INT(int((o == "Equal") == (how == "eq"))), s))
            elif how == "cmp":
                out.append((AGG(ORD, o), s))
            else:
                out.append((SOME(AGG(ORD, o)), s))
        while work:
            s, i = work.pop()
            if i == len(a) or i == len(b):
                res("Equal" if len(a) == len(b) else "Less" if i == len(a) else "Greater", s)
                continue
            for v, s1 in ai.branch(s, EQ(a[i], b[i])):
                if v:
                    work.append((s1, i + 1))
                else:
                    for w, s2 in ai.branch(s1, LT(a[i], b[i])):
                        res("Less" if w else "Greater", s2)
        return out

    def byteslice(self, ai, fr, st, c, last):
        s = self.inp(ai, fr, st, c.args[0])
        if s is None:
            a = self.list(ai, fr, st, c.args[0])
            if last in ("as_bytes", "as_bstr") and a is not None:
                return [(c.args[0], st)]
            return None
        if last in ("as_bytes", "as_bstr"):
            return [(BS(*s), st)]
        if last == "find":
            n = self.list(ai, fr, st, c.args[1])
            if n is None:
                return None
            out, work = [], [(st, s[0])]
            while work:
                s0, i = work.pop()
                if i + len(n) > s[1]:
                    out.append((NONE, s0))
                    continue
                for v, s1 in self.lex(ai, s0, [byte(i + k) for k in range(len(n))], n, "eq"):
                    if v.a[0]:
                        out.append((SOME(INT(i - s[0])), s1))
                    else:
                        work.append((s1, i + 1))
            return out
        return self.trim(ai, fr, st, c, last)

    def trim(self, ai, fr, st, c, last):
        o, e = self.inp(ai, fr, st, c.args[0])

        def blank(s0, i):
            if last == "trim_with":
                return self.pred(ai, fr, s0, c, c.args[1], byte(i))
            t = None
            for x in sorted(WS if "ascii" in last else UWS):
                u = EQ(byte(i), INT(x))
                t = u if t is None else mk("op", "BitOr", t, u)
            return ai.branch(s0, t)
        out, work = [], [(st, o, e, "end" not in last)]
        while work:
            s0, lo, hi, front = work.pop()
            if lo == hi or (not front and "start" in last):
                out.append((BS(lo, hi), s0))
                continue
            for v, s1 in blank(s0, lo if front else hi - 1):
                if front:
                    work.append((s1, lo + 1, hi, True) if v else (s1, lo, hi, False))
                elif v:
                    work.append((s1, lo, hi - 1, False))
                else:
                    out.append((BS(lo, hi), s1))
        return out


# ------------------------------------------------------------------ specification
class Spec:
    def __init__(self, e, n, needle):
        self.e, self.h, self.x = e, [byte(i) for i in range(n)], list(needle)

    def eq(self, t, c):
        return self.e.true(EQ(t, INT(c)))

    def order(self, a, b):
        for x, y in zip(a, b):
            if not self.eq(x, y):
                return "Less" if self.e.true(LT(x, INT(y))) else "Greater"
        return "Equal" if len(a) == len(b) else "Less" if len(a) < len(b) else "Greater"

    def low(self):
        return [LOW(x) for x in self.h], [c + 32 if 65 <= c <= 90 else c for c in self.x]

    def nozero(self, l):
        return [x for x in l if not self.eq(x, 0)]

    def isin(self, t, S):
        return any(self.eq(t, c) for c in sorted(S))

    def trim(self, l, S):
        l = list(l)
        while l and self.isin(l[0], S):
            l.pop(0)
        while l and self.isin(l[-1], S):
            l.pop()
        return l

    def at(self, l, i, x):
        """does l from i on, skipping what is None, start with x"""
        k = 0
        for t in l[i:]:
            if t is None:
                continue
            if k == len(x) or not self.eq(t, x[k]):
                break
            k += 1
            if k == len(x):
                break
        return k == len(x)

    def find(self, l, x):
        for i in range(len(l)):
            if l[i] is not None and self.at(l, i, x):
                return i
        return None


def spec(m, e, n, needle):
    s = Spec(e, n, needle)
    lh, lx = s.low()
    if m == "cmp_slice":
        return s.order(s.h, s.x)
    if m == "eq_slice":
        return int(s.order(s.h, s.x) == "Equal")
    if m == "cmp_nocase":
        return s.order(lh, lx)
    if m == "eq_nocase":
        return int(s.order(lh, lx) == "Equal")
    if m == "cmp_nocase_trimmed":
        return s.order([LOW(x) for x in s.trim(s.h, WS)], lx)
    if m == "cmp_nocase_nozero":
        return s.order(s.nozero(lh), lx)
    if m == "eq_nocase_nozero":
        return int(s.order(s.nozero(lh), lx) == "Equal")
    if m == "cmp_nocase_nozero_trimmed":
        return s.order(s.nozero([LOW(x) for x in s.trim(s.h, UWS)]), lx)
    if m == "starts_with":
        return int(len(s.x) <= n and all(s.eq(a, b) for a, b in zip(s.h, s.x)))
    if m == "starts_with_nocase":
        return int(len(s.x) <= n and all(s.eq(a, b) for a, b in zip(lh, lx)))
    if m == "index_of":
        return ("idx", next((i for i in range(n - len(s.x) + 1) if all(s.eq(a, b) for a, b in zip(s.h[i:], s.x))), None))
    if m == "index_of_nocase":
        return ("idx", s.find(lh, lx) if lx else None)
    if m == "index_of_nocase_nozero":
        return ("idx", s.find([None if s.eq(t, 0) else t for t in lh], lx) if lx else None)


METHODS = ("cmp_slice", "eq_slice", "cmp_nocase", "eq_nocase", "cmp_nocase_trimmed", "cmp_nocase_nozero", "eq_nocase_nozero",
           "cmp_nocase_nozero_trimmed", "starts_with", "starts_with_nocase", "index_of", "index_of_nocase", "index_of_nocase_nozero")


def run(ctx):
    absint.MAXDEPTH = 40
    p = ctx.prog
    work = []
    for m in METHODS:
        fs = [f for f in p.method("Bstr", m) if f.file.endswith("bstr.rs") and f.argc == 2]
        if len(fs) != 1:
            ctx.violation("anchor:" + m, "Bstr::%s is gone" % m)
            continue
        work.append((m, fs[0].id))
    ctx.each(method, work)
    ctx.floor("comparison rows", ctx.counts.get("rows", 0), 500)


def method(ctx, item):
    m, fid = item
    p = ctx.prog
    f = p.fns[fid]
    mon = Mon(ctx, m)
    for needle in NEEDLES:
        for n in range(0, 5 if len(needle) > 2 else 4):
            ix = U.machine(p, mon).intrinsics
            ai = NM.ByteAI(p, monitor=mon, objtypes={"path": U.BST}, tracked_all=True, relevant={x for x in p.reach([f])},
                           intrinsics={k: v for k, v in ix.items()}, step_cap=400000, state_cap=20000)
            ai.concrete_seq = True
            pin = ("pin",) + tuple(byte(i) for i in range(n)) + tuple(byte(b + i) for b in (BASE, LOWERED, LOWERED + 50) for i in range(len(needle)))
            st = St({}, {}, (pin,))
            for i in range(n):
                st.facts[byte(i)] = ("in", frozenset(range(128) if m.endswith("zero_trimmed") else range(256)))
            for i, x in enumerate(needle):
                st.facts[byte(BASE + i)] = ("in", frozenset((x,)))
            st.store[("o", "path")] = U.AGG0(p, BS(0, n))
            try:
                outs = ai.run(fid, [REF(("o", "path")), BS(BASE, BASE + len(needle))], st)
            except NM.Unsupported as e:
                mon.bad("form", "%s uses a construct this analysis does not know: %s" % (f.where(), e))
                return
            ctx.used(ai)
            for ret, s in outs:
                for s2, want, trace in D.explore(ai, s, lambda e: spec(m, e, n, needle), 20000):
                    ctx.count("rows")
                    got = result(ai, s2, ret)
                    if got != want:
                        w = "; ".join("%s=%s" % (show(t)[:50] if not isinstance(t, str) else t, v) for t, v in trace)
                        mon.bad("value", "%s gives %s instead of %s for %d bytes against %r; when %s" % (
                            f.where(), got, want if not isinstance(want, tuple) else want[1], n, needle, w))
                    ctx.ok(m, "%d %r %s" % (n, needle, [v for t, v in trace]))


def result(ai, s, r):
    if r.k == "agg" and r.a[0] == ORD:
        return r.a[1]
    if r.k == "agg" and r.a[0] == OPT:
        if r.a[1] == "None":
            return ("idx", None)
        v = r.a[2][0][1]
        return ("idx", v.a[0] if v.k == "int" else show(v)[:40])
    v = ai.evalb(s, r)
    return v if v is not None else show(r)[:60]
