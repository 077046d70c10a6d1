"""Functions of byte strings decided with exact byte sets: every path of the
function is compared with an executable specification that asks about the same
bytes (D.explore completes what the path leaves open)."""
import absint
from absint import mk, INT, REF, EQ, LT, St, AGG, OPT, RES, SOME, NONE, OK, ERR, UNIT, show, project
import dtable as D
import nom as NM
from nom import byte, BS, inset
import parser as P
import chunk as K
import props.p15 as U
import props.p19 as C

ALL = frozenset(range(256))
BST = U.BST
DIGIT = {b: b - 48 for b in range(48, 58)}
HEXD = {**DIGIT, **{b: b - 55 for b in range(65, 71)}, **{b: b - 87 for b in range(97, 103)}}
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}


def num(base, bs):
    return mk("app", "num", INT(base), *bs)


def digits(base):
    return DIGIT if base == 10 else HEXD


def numcmp(ai, st, n, k):
    """[(-1|0|1, state)]: the number written by the bytes against the constant"""
    base, bs = n.a[1].a[0], n.a[2:]
    dv = digits(base)
    ks = []
    for _ in bs:
        ks.append(k % base)
        k //= base
    if k > 0:
        return [(-1, st)]
    if k < 0:
        return [(1, st)]
    ks.reverse()
    out, work = [], [(st, 0)]
    while work:
        s, i = work.pop()
        if i == len(bs):
            out.append((0, s))
            continue
        d = ai.bdom(s, bs[i]) if bs[i].k != "int" else frozenset((bs[i].a[0],))
        for r in (-1, 0, 1):
            part = frozenset(x for x in d if (dv[x] > ks[i]) - (dv[x] < ks[i]) == r)
            if part:
                s1 = s.clone()
                if bs[i].k != "int":
                    s1.facts[bs[i]] = ("in", part)
                if r:
                    out.append((r, s1))
                else:
                    work.append((s1, i + 1))
    return out


class NumAI(NM.ByteAI):
    def branch(self, st, t):
        neg = 0
        u = t
        while u.k == "op" and u.a[0] == "Not":
            u, neg = u.a[1], 1 - neg
        if u.k == "op" and u.a[0] in ("Eq", "Lt"):
            a, b = u.a[1], u.a[2]
            for x, y, flip in ((a, b, 1), (b, a, -1)):
                if x.k == "app" and x.a[0] == "num" and y.k == "int":
                    return [((int(r == 0) if u.a[0] == "Eq" else int(r * flip < 0)) ^ neg, s) for r, s in numcmp(self, st, x, y.a[0])]
        return NM.ByteAI.branch(self, st, t)


class Mon(C.Mon):
    def call(self, ai, fr, st, c):
        d = c.decl or ""
        last = d.split("::")[-1]
        if last in ("from_utf8", "from_utf8_unchecked", "from_utf8_lossy") and c.args:
            s = self.inp(ai, fr, st, c.args[0])
            if s is not None:
                if last != "from_utf8":
                    return [(BS(*s), st)]
                out, work = [], [(st, s[0])]
                while work:
                    s0, i = work.pop()
                    if i == s[1]:
                        out.append((OK(BS(*s)), s0))
                        continue
                    for v, s1 in ai.branch(s0, inset(byte(i), frozenset(range(128)))):
                        if v:
                            work.append((s1, i + 1))
                        else:
                            out += [(OK(BS(*s)), s1), (ERR(mk("app", "utf8error")), s1)]
                return out
        if (d == "core::str::<impl str>::parse" or last in ("from_str", "from_str_radix", "parse")) and c.args:
            ty = self.numty(c)
            s = self.inp(ai, fr, st, c.args[0])
            if ty and s is not None and (last != "from_str_radix" or c.args[1].k == "int"):
                return self.number(ai, fr, st, s, c.args[1].a[0] if last == "from_str_radix" else 10, BITS[ty])
        if last == "contains" and len(c.args) == 2 and "slice" in d:
            a = self.list(ai, fr, st, c.args[0])
            x = ai.deref(fr, st, c.args[1]) if c.args[1].k == "ref" else c.args[1]
            if a is not None:
                out, work = [], [(st, 0)]
                while work:
                    s0, i = work.pop()
                    if i == len(a):
                        out.append((INT(0), s0))
                        continue
                    for v, s1 in ai.branch(s0, EQ(a[i], x)):
                        if v:
                            out.append((INT(1), s1))
                        else:
                            work.append((s1, i + 1))
                return out
        if last in ("pop", "truncate") and d.startswith(("std::vec::Vec", "alloc::vec::Vec")) and c.args and c.args[0].k == "ref":
            v = ai.deref(fr, st, c.args[0])
            el = items(v)
            if el is None:
                el = U.elements(ai, st, v)
            if el is not None and (last == "pop" or c.args[1].k == "int"):
                if last == "pop" and not el:
                    return [(NONE, st)]
                keep = el[:-1] if last == "pop" else el[:c.args[1].a[0]]
                v = mk("app", "empty")
                for x in keep:
                    v = mk("app", "push", v, x)
                s0 = st.clone()
                ai.store_to(fr, s0, c.args[0], v)
                return [(SOME(el[-1]) if last == "pop" else UNIT, s0)]
        if d.startswith(("std::slice", "core::slice")) and last in ("first", "last", "len", "is_empty") and c.args and self.inp(ai, fr, st, c.args[0]) is None:
            el = self.list(ai, fr, st, c.args[0])
            if el is not None:
                if last == "len":
                    return [(INT(len(el)), st)]
                if last == "is_empty":
                    return [(INT(0 if el else 1), st)]
                return [(SOME(ai.refto(el[0 if last == "first" else -1])) if el else NONE, st)]
        if d.startswith(("std::slice", "core::slice")) and last in ("first_mut", "last_mut") and c.args and c.args[0].k == "ref":
            el = self.list(ai, fr, st, c.args[0])
            if el is not None:
                if not el:
                    return [(NONE, st)]
                s0 = st.clone()
                v = mk("app", "empty")
                for x in el:
                    v = mk("app", "push", v, x)
                r = c.args[0]
                w = ai.deref(fr, st, r)
                if w.k == "app" and w.a[0] in ("slice_of", "as_slice") and w.a[1].k == "ref":
                    r = w.a[1]
                ai.store_to(fr, s0, r, v)
                root, path = ai.target(r)
                return [(SOME(REF(root, path + (("i", INT(0 if last[0] == "f" else len(el) - 1)),))), s0)]
        if last in ("extend", "extend_from_slice") and len(c.args) == 2 and c.args[0].k == "ref" and "Vec<" in str(c.res) + str(c.aty):
            a, b = (self.list(ai, fr, st, x) for x in c.args)
            if b is None:
                b = items(ai.deref(fr, st, c.args[1]) if c.args[1].k == "ref" else c.args[1])
                b = b and [ai.deref(fr, st, x) if x.k == "ref" else x for x in b]
            if a is not None and b is not None:
                v = mk("app", "empty")
                for x in a + b:
                    v = mk("app", "push", v, x)
                s0 = st.clone()
                ai.store_to(fr, s0, c.args[0], v)
                return [(UNIT, s0)]
        if d == "std::iter::repeat" and c.args:
            return [(mk("app", "repeat", c.args[0]), st)]
        if d == "std::iter::repeat_n" and len(c.args) == 2 and c.args[1].k == "int":
            return [(mk("app", "cseq", *[c.args[0]] * c.args[1].a[0]), st)]
        if d == "std::iter::Iterator::take" and c.args[0].k == "app" and c.args[0].a[0] == "repeat" and c.args[1].k == "int":
            return [(mk("app", "cseq", *[c.args[0].a[1]] * c.args[1].a[0]), st)]
        if last == "resize" and "Vec" in d and len(c.args) == 3 and c.args[0].k == "ref" and c.args[1].k == "int":
            a = self.list(ai, fr, st, c.args[0])
            if a is not None:
                v = mk("app", "empty")
                for x in (a + [c.args[2]] * c.args[1].a[0])[:c.args[1].a[0]]:
                    v = mk("app", "push", v, x)
                s0 = st.clone()
                ai.store_to(fr, s0, c.args[0], v)
                return [(UNIT, s0)]
        if last == "try_from" and "TryFrom" in d and c.args and self.numty(c) == "u8" and (c.aty or [""])[0] in ("u16", "u32", "u64", "usize"):
            return [((OK(mk("op", "cast:u8", c.args[0])) if v else ERR(mk("app", "numerror"))), s0) for v, s0 in ai.branch(st, LT(c.args[0], INT(256)))]
        if last in ("concat", "join") and d.startswith(("std::slice", "alloc::slice", "core::slice")) and c.args:
            v = c.args[0]
            for _ in range(3):
                if v.k == "ref":
                    v = ai.deref(fr, st, v)
            parts = items(v)
            sep = self.list(ai, fr, st, c.args[1]) if last == "join" else []
            parts = [self.list(ai, fr, st, x) for x in parts] if parts is not None else None
            if parts is not None and None not in parts and sep is not None:
                out = []
                for i, x in enumerate(parts):
                    out += (sep if i else []) + x
                v = mk("app", "empty")
                for x in out:
                    v = mk("app", "push", v, x)
                return [(v, st)]
        if d in NM.PREDS and len(c.args) == 1:
            return [(inset(c.args[0], NM.PREDS[d]), st)]
        if last == "from" and c.args and "nom::" in str(c.aty) + d and "HtpStatus" in str(c.aty):
            return None
        return C.Mon.call(self, ai, fr, st, c)

    def numty(self, c):
        for x in list(getattr(c, "gargs", None) or []) + [c.target or "", c.decl or "", getattr(c, "rty", "") or ""]:
            for t in BITS:
                if x == t or str(x).startswith(("std::result::Result<%s," % t, "<%s as" % t)) or "::<impl %s>::" % t in str(x) or "impl std::str::FromStr for %s>" % t in str(x):
                    return t
        return None

    def number(self, ai, fr, st, s, base, bits):
        o, e = s
        out, work = [], [(st, o)]
        if o == e:
            return [(ERR(mk("app", "numerror")), st)]
        dv = frozenset(digits(base))
        while work:
            s0, i = work.pop()
            if i == e:
                lo = o
                while lo < e and ai.bdom(s0, byte(lo)) <= frozenset((43,)):
                    lo += 1
                n = num(base, [byte(k) for k in range(lo, e)])
                for r, s1 in numcmp(ai, s0, n, 1 << bits):
                    out.append((OK(n) if r < 0 else ERR(mk("app", "numerror")), s1))
                continue
            if i == o and e - o > 1:
                sp = ai.branch(s0, EQ(byte(i), INT(43)))    # a leading plus sign is accepted
            else:
                sp = [(0, s0)]
            for v, s1 in sp:
                if v:
                    work.append((s1, i + 1))
                    continue
                for w, s2 in ai.branch(s1, inset(byte(i), dv)):
                    if w:
                        work.append((s2, i + 1))
                    else:
                        out.append((ERR(mk("app", "numerror")), s2))
        return out


def items(v):
    """elements of an array or vector value, or None"""
    if v.k == "app" and v.a[0] in ("slice_of", "as_slice"):
        return items(v.a[1])
    if v.k == "agg" and v.a[0] in ("array", "tuple"):
        return [x for k, x in v.a[2]]
    if v.k == "app" and v.a[0] in ("cseq", "array"):
        return list(v.a[1:])
    if v.k == "app" and v.a[0] == "empty":
        return []
    if v.k == "app" and v.a[0] == "push":
        r = items(v.a[1])
        return None if r is None else r + [v.a[2]]
    return None


def val(ai, st, v, depth=0):
    """a result as plain data"""
    if depth > 8:
        return ("?", show(v)[:60])
    if v.k == "int":
        return v.a[0]
    if v.k == "ref":
        s = None
        try:
            return val(ai, st, ai.deref(None, st, v), depth + 1)
        except Exception:
            return ("?", show(v)[:60])
    s = NM.span(v)
    if s is not None:
        return ("s",) + (s if s[0] < s[1] else (0, 0))
    if v.k == "app" and v.a[0] == "num":
        bs = list(v.a[2:])
        return ("num", v.a[1].a[0]) + tuple(b.a[0] if b.k == "sym" else b for b in strip(ai, st, bs))
    if v.k == "agg":
        if v.a[0] == "tuple":
            return tuple(["t"] + [val(ai, st, x, depth + 1) for k, x in v.a[2]])
        if v.a[0] == BST:
            return val(ai, st, v.a[2][0][1], depth + 1)
        if v.a[0] == RES and v.a[1] == "Err":
            return "Err"
        if v.a[0] in (OPT, RES) or v.a[1]:
            if not v.a[2]:
                return v.a[1] or "()"
            return (v.a[1],) + tuple(val(ai, st, x, depth + 1) for k, x in v.a[2])
        if not v.a[2]:
            return "()"
        return (v.a[0],) + tuple(val(ai, st, x, depth + 1) for k, x in v.a[2])
    if v.k == "unit":
        return "()"
    if v.k == "app" and v.a[0] == "lower":
        r = val(ai, st, v.a[1], depth + 1)
        return ("low",) + tuple(range(*r[1:])) if r[0] == "s" else ("?", show(v)[:80])
    el = U.elements(ai, st, v)
    if el is not None and all(x.k == "app" and x.a[0] == "to_ascii_lowercase" and x.a[1].k == "sym" for x in el):
        return ("low",) + tuple(int(x.a[1].a[0][1:]) for x in el)
    if el is not None:
        return ("l",) + tuple(el)
    r = ai.evalb(st, v)
    if r is not None:
        return r
    return ("?", show(v)[:80])


def strip(ai, st, bs):
    while len(bs) > 1 and (bs[0].k == "int" and bs[0].a[0] == 48 or bs[0].k == "sym" and ai.bdom(st, bs[0]) == frozenset((48,))):
        bs = bs[1:]
    return bs


class Spec:
    """questions about the input, answered from a path's facts"""

    def __init__(self, e, n):
        self.e, self.n, self.ai, self.st = e, n, e.ai, e.st

    def isin(self, i, S):
        return self.e.true(inset(byte(i), frozenset(S)), "b%d in %s" % (i, cls(S)))

    def is_(self, i, c):
        return self.e.true(EQ(byte(i), INT(c)))

    def whil(self, i, S, end=None):
        end = self.n if end is None else end
        while i < end and self.isin(i, S):
            i += 1
        return i

    def span(self, a, b):
        return ("s", a, b) if a < b else ("s", 0, 0)

    def below(self, o, e, base, k):
        """is the number in [o, e) below k"""
        dv = digits(base)
        r = numcmp(self.ai, self.st, num(base, [byte(i) for i in range(o, e)]), k)
        if len({x < 0 for x, s in r}) > 1:
            raise D.Fork([(lambda s, f=x[1].facts: s.facts.update(f) or True) for x in r])
        v = r[0][0] < 0
        self.e.trace.append(("number at %d..%d below %d" % (o, e, k), v))
        return v

    def num(self, o, e, base=10):
        bs = strip(self.ai, self.st, [byte(i) for i in range(o, e)])
        return ("num", base) + tuple(b.a[0] for b in bs)


def cls(S):
    return repr(bytes(sorted(S)))[:40]


_preds = {}


def bytepreds(p, mon, skip=()):
    """predicates of one byte (fn(u8) -> bool) as exact sets of values"""
    r = {}
    for f in p.fns.values():
        if f.kind == "fn" and f.argc == 1 and f.locals[1]["ty"] == "u8" and f.locals[0]["ty"] == "bool" and f.id not in skip:
            if (id(p), f.id) not in _preds:
                ai = NumAI(p, monitor=mon, objtypes={}, tracked_all=True, relevant=set(p.reach([f])), intrinsics={}, step_cap=40000, state_cap=2000)
                st = St({byte(0): None} and {}, {}, (("pin", byte(0)),))
                st.facts[byte(0)] = ("in", ALL)
                S = {}
                for ret, s in ai.run(f.id, [byte(0)], st):
                    for v, s2 in ai.branch(s, ret):
                        for x in ai.bdom(s2, byte(0)):
                            S.setdefault(x, set()).add(v)
                _preds[(id(p), f.id)] = frozenset(x for x, v in S.items() if v == {1}) if all(len(v) == 1 for v in S.values()) and len(S) == 256 else None
            S = _preds[(id(p), f.id)]
            if S is not None:
                r[f.id] = lambda ai, fr, st, c, S=S: [(inset(c.args[0], S), st)]
    return r


def decide(ctx, key, f, scen, args, oracle, judge=None, objtypes=None, extra=None, setup=None, cap=20000, opaque=(), mon=None, pins=(), call=None):
    """run f on every scenario (a list of byte sets) and compare every path with oracle(Spec)"""
    absint.MAXDEPTH = 40
    p = ctx.prog
    mon = mon or Mon(ctx, f.name)
    rows = 0
    for sc in scen:
        n = len(sc)
        ix = P.log_intrinsics(p)
        ix.update(K.bstr_ops(p))
        ix.update(bytepreds(p, mon, (f.id,)))
        ix.update(extra(mon) if extra else {})
        ai = NumAI(p, monitor=mon, objtypes=objtypes or {"s": BST}, tracked_all=True, relevant={x for x in p.reach([f])} - set(opaque), intrinsics=ix,
                   step_cap=400000, state_cap=20000)
        ai.concrete_seq = True
        st = St({}, {}, (("pin",) + tuple(byte(i) for i in range(n)) + tuple(pins),))
        for i, d in enumerate(sc):
            st.facts[byte(i)] = ("in", frozenset(d))
        if setup:
            setup(ai, st, n)
        try:
            outs = call(ai, st, n) if call else ai.run(f.id, args(n), st)
        except NM.Unsupported as e:
            mon.bad("form", "%s uses a construct this analysis does not know: %s" % (f.where(), e))
            return rows
        ctx.used(ai)
        for ret, s in outs:
            for s2, want, trace in D.explore(ai, s, lambda e: oracle(Spec(e, n)), cap):
                rows += 1
                got = judge(ai, s2, ret) if judge else val(ai, s2, ret)
                if got != want:
                    w = "; ".join("%s=%s" % (t if isinstance(t, str) else show(t)[:60], v) for t, v in trace)
                    mon.bad(key, "%s gives %s instead of %s for %s; when %s" % (f.where(), got, want, example(ai, s2, n), w))
                ctx.ok(key, "%s %s" % (example(ai, s2, n), [v for t, v in trace]))
    ctx.count("rows", rows)
    ctx.floor(key + " rows", rows, 1)
    return rows


def example(ai, st, n):
    """one input of the path"""
    r = []
    for i in range(n):
        d = ai.bdom(st, byte(i))
        pref = [x for x in d if 33 <= x < 127]
        r.append(min(pref) if pref else min(d) if d else 0)
    return repr(bytes(r))


def lit(s):
    return [frozenset((c,)) for c in s]


def variations(words, free=ALL, two=False):
    """each word with one byte free, one free byte inserted, one removed"""
    out = []
    for w in words:
        out.append(lit(w))
        for i in range(len(w)):
            out.append(lit(w[:i]) + [free] + lit(w[i + 1:]))
            out.append(lit(w[:i]) + lit(w[i + 1:]))
        for i in range(len(w) + 1):
            out.append(lit(w[:i]) + [free] + lit(w[i:]))
            if two:
                out.append(lit(w[:i]) + [free, free] + lit(w[i:]))
    return out
