"""Conversion of UTF-8 in paths to single bytes."""
import absint
from absint import mk, INT, REF, EQ, LT, St, show, project
import bset as B
from bset import ALL
import dtable as D
import nom as NM
from nom import BS, byte
import parser as P
import chunk as K
import props.p15 as U

RULE = ("every path is read as UTF-8 exactly as stated: what characters it consists of, which byte each becomes, which irregularities are "
        "flagged; the path itself changes only when the configuration asks for it")
CFGT, UNW = "config::DecoderConfig", "config::HtpUnwanted"
VALID, INVALID, OVERLONG, HALF = 0x10_0000, 0x20_0000, 0x40_0000, 0x80_0000
OTHER = 1 << 40


# ---------------------------------------------------------------- numbers made of several bytes
def lin(ai, st, t):
    """(constant, {byte: {value of byte: contribution}}) when the number is a sum of contributions of single bytes, or None"""
    t = ai.norm(st, t)
    if t.k == "int":
        return t.a[0], {}
    if t.k == "sym" and NM.is_byte(t):
        return 0, {t: {x: x for x in ai.bdom(st, t)}}
    v = NM.vec(t) if t.k in ("op", "app") else None
    if v is not None:
        return 0, {v[0]: {x: v[1][x] for x in ai.bdom(st, v[0])}}
    if t.k in ("op", "app") and isinstance(t.a[0], str) and t.a[0].startswith("cast:"):
        r = lin(ai, st, t.a[1])
        lim = {"u8": 8, "u16": 16, "i16": 15, "u32": 32, "i32": 31}.get(t.a[0][5:], 63)
        return r if r is not None and top(r) < 1 << lim else None
    if t.k == "op" and len(t.a) == 3:
        o, b = t.a[0], t.a[2]
        if o in ("Shl", "Mul") and b.k == "int":
            r = lin(ai, st, t.a[1])
            m = 1 << b.a[0] if o == "Shl" else b.a[0]
            if r is None or top(r) * m >= 1 << 31:
                return None
            return r[0] * m, {k: {x: y * m for x, y in d.items()} for k, d in r[1].items()}
        if o == "Mul" and t.a[1].k == "int":
            return lin(ai, st, mk("op", "Mul", b, t.a[1]))
        if o in ("Add", "BitOr", "BitXor"):
            l, r = lin(ai, st, t.a[1]), lin(ai, st, b)
            if l is None or r is None or set(l[1]) & set(r[1]):
                return None
            if o != "Add" and bits(l) & bits(r):
                return None
            return l[0] + r[0], {**l[1], **r[1]}
    return None


def top(r):
    return r[0] + sum(max(d.values()) for d in r[1].values())


def low(r):
    return r[0] + sum(min(d.values()) for d in r[1].values())


def bits(r):
    """the bits that can be set, when the parts of the number do not overlap"""
    m = r[0]
    for d in r[1].values():
        x = 0
        for y in d.values():
            x |= y
        if x & m:
            return -1
        m |= x
    return m


def canon(r):
    """the number as a function of the bytes' values, whatever the way it is computed"""
    c, parts = r
    out = []
    for b, d in parts.items():
        m = min(d.values())
        c += m
        if len(set(d.values())) > 1:
            out.append((b.a[0], tuple(sorted((x, y - m) for x, y in d.items()))))
    return c, tuple(sorted(out))


def cut(ai, st, r, test):
    """[(bool, state)]: test(lo, hi) says 0/1 when it is decided for all numbers from lo to hi, else None"""
    v = test(low(r), top(r))
    if v is not None:
        return [(v, st)]
    out = []
    # the byte with the largest contribution decides first
    b = max(r[1], key=lambda k: max(r[1][k].values()) - min(r[1][k].values()))
    groups = {}
    for x, y in r[1][b].items():
        r1 = (r[0] + y, {k: d for k, d in r[1].items() if k is not b})
        v = test(low(r1), top(r1))
        groups.setdefault(v if v is not None else ("?", y), []).append(x)
    for v, xs in groups.items():
        s = st.clone()
        s.facts[b] = ("in", frozenset(xs))
        if isinstance(v, int):
            out.append((v, s))
        else:
            out += cut(ai, s, (r[0] + v[1], {k: d for k, d in r[1].items() if k is not b}), test)
    return out


def mixed(t):
    """(byte, values) of a table entry chosen by one byte, within a term of several bytes"""
    if len(NM.atoms(t)) < 2:
        return None
    work = [t]
    while work:
        x = work.pop()
        if x.k in ("op", "app", "bit"):
            if x.k == "app" and str(x.a[0]).startswith("tab:") and NM.vec(x) is not None:
                return NM.vec(x)
            work += [y for y in x.a if hasattr(y, "k")]
    return None


class AI8(B.NumAI):
    def default(self, root):
        if root[0] == "s":
            for s in self.p.statics:
                if s["path"] == root[1] and s.get("init"):
                    tab = s["init"]
                    NM.CLASS.setdefault("tab:" + root[1], lambda i: tab[i] if 0 <= i < len(tab) else 0)
                    return mk("app", "table", root[1])
        return B.NumAI.default(self, root)

    def read(self, fr, st, root, path):
        v = B.NumAI.read(self, fr, st, root, path)
        if v.k == "proj" and v.a[0].k == "app" and v.a[0].a[0] == "table" and v.a[1][0] == "i":
            n = "tab:" + v.a[0].a[1]
            ix = self.norm(st, v.a[1][1])
            return INT(NM.CLASS[n](ix.a[0])) if ix.k == "int" else mk("app", n, ix)
        return v

    def norm(self, st, t):
        if t.k in ("op", "app", "bit") and all(hasattr(x, "k") for x in t.a[1:]):
            v = NM.vec(t)
            if v is not None:
                r = {v[1][x] for x in self.bdom(st, v[0])}
                if len(r) == 1:
                    return INT(next(iter(r)))
            if t.k == "bit":
                return B.NumAI.norm(self, st, t)
            a = [self.norm(st, x) for x in t.a[1:]]
            return NM.fold(mk(t.k, t.a[0], *a))
        if t.k == "sym" and NM.is_byte(t):
            d = self.bdom(st, t)
            return INT(next(iter(d))) if len(d) == 1 else t
        return t

    def should_inline(self, fid):
        if len(self.stack) < self.max_depth and fid in self._rel_closure and fid not in self.opaque and sum(1 for x in self.stack if x[0] == fid) < 4:
            return True
        return B.NumAI.should_inline(self, fid)

    def apart(self, st, t):
        """a table entry chosen by several bytes: one state for each value of the part that depends on one of them; or None"""
        w = mixed(self.norm(st, t))
        if w is None:
            return None
        groups, out = {}, []
        for x in self.bdom(st, w[0]):
            groups.setdefault(w[1][x], []).append(x)
        for xs in groups.values():
            s = st.clone()
            s.facts[w[0]] = ("in", frozenset(xs))
            out.append(s)
        return out

    def switch(self, fr, st, t):
        r = self.apart(st, self.operand(fr, st, t["o"]))
        if r is None:
            return B.NumAI.switch(self, fr, st, t)
        return [x for s in r for x in self.switch(fr, s, t)]

    def branch(self, st, t):
        r = self.apart(st, t)
        if r is not None:
            return [x for s in r for x in self.branch(s, t)]
        neg, u = 0, self.norm(st, t)
        while u.k == "op" and u.a[0] == "Not":
            u, neg = u.a[1], 1 - neg
        if u.k == "op" and u.a[0] in ("Eq", "Lt"):
            for x, y, sw in ((u.a[1], u.a[2], 0), (u.a[2], u.a[1], 1)):
                if y.k == "int" and x.k != "int" and not (x.k == "sym" and NM.is_byte(x)) and NM.vec(x) is None:
                    r = lin(self, st, x)
                    if r is None or not r[1]:
                        continue
                    k = y.a[0]
                    if u.a[0] == "Eq":
                        test = lambda lo, hi: 0 if hi < k or lo > k else 1 if lo == hi == k else None
                    elif sw:
                        test = lambda lo, hi: 1 if lo > k else 0 if hi <= k else None
                    else:
                        test = lambda lo, hi: 1 if hi < k else 0 if lo >= k else None
                    return [(v ^ neg, s) for v, s in cut(self, st, r, test)]
        return B.NumAI.branch(self, st, t)


# ---------------------------------------------------------------- what is expected
CONT = frozenset(range(0x80, 0xc0))


def cp_term(i, n):
    """the code point of the n-byte character at i"""
    m = {2: 0x1f, 3: 0xf, 4: 7}[n]
    t = mk("op", "BitAnd", byte(i), INT(m))
    for k in range(1, n):
        t = mk("op", "BitOr", mk("op", "Shl", t, INT(6)), mk("op", "BitAnd", byte(i + k), INT(0x3f)))
    return t


class Oracle:
    def __init__(self, prior):
        self.prior = prior

    def below(self, s, t, k):
        r = cut(s.ai, s.st, lin(s.ai, s.st, t), lambda lo, hi: 1 if hi < k else 0 if lo >= k else None)
        if len({v for v, _ in r}) > 1:
            raise D.Fork([(lambda st, f=x.facts: st.facts.update(f) or True) for v, x in r])
        return r[0][0]

    def __call__(self, s):
        n, i, out, flags, seen = s.n, 0, [], 0, False
        while i < n:
            if s.isin(i, range(0x80)):
                out.append(("num", byte(i)))
                i += 1
                continue
            size = 2 if s.isin(i, range(0xc0, 0xe0)) else 3 if s.isin(i, range(0xe0, 0xf0)) else 4 if s.isin(i, range(0xf0, 0xf5)) else 0
            if size == 0:
                flags |= INVALID
                out.append("replacement")
                i += 1
                continue
            k = 1
            while k < size and i + k < n:
                S = CONT
                if k == 1 and size == 3 and s.is_(i, 0xed):
                    S = frozenset(range(0x80, 0xa0))
                if k == 1 and size == 4 and s.is_(i, 0xf4):
                    S = frozenset(range(0x80, 0x90))
                if not s.isin(i + k, S):
                    break
                k += 1
            if k == size:
                seen = True
                t = cp_term(i, size)
                if self.below(s, t, {2: 0x80, 3: 0x800, 4: 0x10000}[size]):
                    flags |= OVERLONG
                if not self.below(s, t, 0xff00) and self.below(s, t, 0xfff0):
                    flags |= HALF
                out.append(("num" if self.below(s, t, 0x100) else "fit", t))
            elif i + k == n:
                # the path ends within a character
                out += ["replacement"] * (k - 1)
            else:
                flags |= INVALID
                out.append("replacement")
            i += k
        if seen and not flags & INVALID:
            flags |= VALID
        conv = s.e.true(U.cfg("utf8_convert_bestfit"), "utf8_convert_bestfit")
        status = "init"
        if flags & INVALID and not s.e.oneof(U.cfg("utf8_invalid_unwanted"), UNW, ("IGNORE",)):
            status = "unwanted"
        if not conv:
            out = [("num", byte(j)) for j in range(n)]
        return (flags | self.prior, status, tuple((x if isinstance(x, str) else (x[0], canon(lin(s.ai, s.st, x[1])))) for x in out))


REP = \
    mk("proj", U.cfg("bestfit_map"), ("f", "unicode_bestfit_map::UnicodeBestfitMap", "replacement_byte"))


def judge(ai, st, ret):
    fl = ai.read(None, st, ("o", "flags"), ())
    fl = ai.norm(st, fl)
    su = ai.read(None, st, ("o", "status"), ())
    if su is mk("sym", "status"):
        su = "init"
    elif su is U.cfg("utf8_invalid_unwanted") or su.k == "agg" and P.domset(ai, st, U.cfg("utf8_invalid_unwanted"), UNW) == {su.a[1]}:
        su = "unwanted"
    else:
        su = show(su)[:60]
    el = U.elements(ai, st, ai.read(None, st, ("o", "path"), (("f", U.BST, "s"),)))
    if el is None:
        return "?" + show(ai.read(None, st, ("o", "path"), (("f", U.BST, "s"),)))[:200]
    out = []
    for x in el:
        if x is REP:
            out.append("replacement")
            continue
        kind = "num"
        if x.k == "app" and x.a[0] == "fitcp":
            kind, x = "fit", x.a[1]
        r = lin(ai, st, x)
        out.append((kind, canon(r)) if r is not None else "?" + show(x)[:80])
    return (fl.a[0] if fl.k == "int" else show(fl)[:60], su, tuple(out))


LEADS = [b"\xc1", b"\xdf", b"\xe0", b"\xed", b"\xef", b"\xf0", b"\xf4", b"\xe2\x82", b"\xf0\x8f", b"\xf4\x8f\xbf", b"\xef\xbc", b"\xf1\x80\x80"]


def run(ctx):
    ctx.rule = RULE
    p = ctx.prog
    fs = [f for f in p.fns.values() if f.kind == "fn" and f.name == "decode_and_validate_inplace" and f.argc == 4]
    if len(fs) != 1:
        ctx.violation("anchor:utf8", "the decoder of UTF-8 paths (utf8_decoder::decode_and_validate_inplace) is gone")
        return
    first = [range(0x80), range(0x80, 0xc0), range(0xc0, 0xe0), range(0xe0, 0xed), range(0xed, 0xf0), range(0xf0, 0xf4), range(0xf4, 0x100)]
    sc = [[ALL] * k for k in range(4)] + [[frozenset(x)] + [ALL] * 3 for x in first] + [[ALL, frozenset((x,))] + [ALL] * 2 for x in (0x41, 0x90)]
    for l in LEADS:
        sc.append([frozenset((x,)) for x in l] + [ALL] * 2)
    for a in (b"\xc3\xa9", b"A", b"\xe2\x82\xac"):
        sc.append([frozenset((x,)) for x in a] + [ALL] * 3)
    ctx.each(lambda c, w: one(c, fs[0], *w), [(x, pr) for x in sc for pr in (0, OTHER)] + [(None, 0)])
    ctx.floor("rows", ctx.counts.get("rows", 0), 500)


def one(ctx, f, sc, prior):
    p = ctx.prog
    if sc is None:
        return lookup(ctx, p)
    mon = B.Mon(ctx, f.name)
    absint.MAXDEPTH = 40
    n = len(sc)
    ix = P.log_intrinsics(p)
    ix.update(K.bstr_ops(p))
    ix.update(B.bytepreds(p, mon, (f.id,)))
    for g in p.method("UnicodeBestfitMap", "get"):
        ix[g.id] = lambda ai, fr, st, c: [(mk("app", "fitcp", c.args[1]), st)]
    ai = AI8(p, monitor=mon, objtypes={"cfg": CFGT, "path": U.BST}, tracked_all=True, relevant=set(p.reach([f])), intrinsics=ix, step_cap=800000, state_cap=40000)
    ai.concrete_seq = True
    st = St({}, {}, (("pin",) + tuple(byte(i) for i in range(n)),))
    for i, d in enumerate(sc):
        st.facts[byte(i)] = ("in", frozenset(d))
    st.store[("o", "flags")] = INT(prior)
    ai.write(None, st, ("o", "path"), (("f", U.BST, "s"),), BS(0, n))
    try:
        outs = ai.run(f.id, [REF(("o", "cfg")), REF(("o", "flags")), REF(("o", "status")), REF(("o", "path"))], st)
    except NM.Unsupported as e:
        mon.bad("form", "%s uses a construct this analysis does not know: %s" % (f.where(), e))
        return
    ctx.used(ai)
    rows = 0
    orc = Oracle(prior)
    for ret, s in outs:
        for s2, want, trace in D.explore(ai, s, lambda e: orc(B.Spec(e, n)), 20000):
            rows += 1
            got = judge(ai, s2, ret)
            if got != want:
                mon.bad("utf8", "%s gives %s instead of %s for a path such as %s" % (f.where(), brief(got), brief(want), raw(ai, s2, n)))
            ctx.ok("utf8", "%s prior %x" % (raw(ai, s2, n), prior))
    ctx.count("rows", rows)
    ctx.floor("utf8 rows", rows, 1)


def brief(x):
    if isinstance(x, str):
        return x
    fl, su, out = x
    return "flags %s, status %s, bytes %s" % (hex(fl) if isinstance(fl, int) else fl, su, [o if isinstance(o, str) else "%s(%#x+%s)" % (o[0], o[1][0], ",".join(b for b, _ in o[1][1])) for o in out])


def raw(ai, st, n):
    return repr(bytes(min(ai.bdom(st, byte(i))) for i in range(n)))


def lookup(ctx, p):
    """the best-fit byte of a code point: the configured map's entry, else the replacement byte"""
    fs = p.method("UnicodeBestfitMap", "get")
    if len(fs) != 1:
        ctx.violation("anchor:bestfit", "the best-fit lookup (UnicodeBestfitMap::get) is gone")
        return
    f = fs[0]
    M = "unicode_bestfit_map::UnicodeBestfitMap"

    class Lk(B.Mon):
        def call(self, ai, fr, st, c):
            if (c.decl or "").startswith("std::collections::HashMap") and c.decl.endswith(("::get", "::get_key_value", "::contains_key", "::get_mut")):
                k = ai.deref(fr, st, c.args[1])
                m = c.args[0]
                for _ in range(3):
                    if m.k == "ref":
                        m = ai.deref(fr, st, m)
                key = mk("app", "entry", m, k)
                if c.decl.endswith("contains_key"):
                    return [(INT(v), s) for v, s in ai.branch(st, mk("app", "mapped", key))]
                if c.decl.endswith("::get"):
                    return [((absint.SOME(ai.refto(key)) if v else absint.NONE), s) for v, s in ai.branch(st, mk("app", "mapped", key))]
            return B.Mon.call(self, ai, fr, st, c)
    mp = mk("proj", mk("sym", "fit"), ("f", M, "map"))
    key = mk("app", "entry", mp, mk("sym", "cp"))

    def jd(ai, st, ret):
        return "entry" if ret is key else "replacement" if ret is mk("proj", mk("sym", "fit"), ("f", M, "replacement_byte")) else show(ret)[:80]
    B.decide(ctx, "best-fit lookup", f, [[]], lambda n: [REF(("o", "fit")), mk("sym", "cp")],
             lambda s: "entry" if s.e.true(mk("app", "mapped", key), "mapped") else "replacement", jd, objtypes={"fit": M}, mon=Lk(ctx, f.name))
