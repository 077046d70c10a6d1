"""Model of one data chunk for the analyses of the parsing steps: how much of it
is missing (gap) or present, how much has been consumed, and which bytes a slice
of it denotes.  Amounts and slices are terms relative to the chunk as it was when
the step began; `POS` is the amount consumed by the step so far."""
from absint import mk, project, ty_base, INT, REF, SOME, NONE, UNIT, arith, AGG, OK, ERR, LT, EQ, many

POS = ("o", "chunk-pos")
BYTES = mk("sym", "chunk-bytes")
L0 = mk("app", "len", mk("proj", BYTES, "*"))


def pos(st):
    return st.store.get(POS, INT(0))


def rest(k):
    return BYTES if k.k == "int" and k.a[0] == 0 else mk("app", "slice", mk("proj", BYTES, "*"), k, L0)


def remaining(k):
    return L0 if k.k == "int" and k.a[0] == 0 else INT(0) if k is L0 else arith("Sub", L0, k)


def plus(a, b):
    """normalised sum of amounts"""
    if a.k == "int" and a.a[0] == 0:
        return b
    if b is remaining(a):
        return L0
    return arith("Add", a, b)


def minus(k, n):
    """position k moved back by n (not below the start of the chunk)"""
    if n is k:
        return INT(0)
    if k.k == "op" and k.a[0] == "Add":
        if k.a[1] is n:
            return k.a[2]
        if k.a[2] is n:
            return k.a[1]
    return mk("app", "back", k, n)


def span(ptr):
    """(lo, hi) of a pointer into the chunk, or None"""
    if ptr is BYTES:
        return INT(0), L0
    if ptr.k == "app" and ptr.a[0] == "slice":
        _, b, lo, hi = ptr.a
        if b.k == "proj" and b.a[1] == "*":
            x = span(b.a[0])
            if x:
                lo2 = plus(x[0], lo)
                return lo2, (x[1] if hi is L0 or hi is amount(b.a[0]) else plus(x[0], hi))
    return None


def amount(ptr):
    """length of the slice a pointer term denotes"""
    if ptr is BYTES:
        return L0
    if ptr.k == "app" and ptr.a[0] == "slice":
        _, b, lo, hi = ptr.a
        x = span(ptr)
        if x and x[1] is L0:
            return remaining(x[0])
        return arith("Sub", hi, lo)
    return mk("app", "len", mk("proj", ptr, "*"))


def min_intrinsic(ai, fr, st, c):
    a, b = c.args
    return [((a if v else b), s) for v, s in ai.branch(st, LT(a, b))]


def lines(p, extra=()):
    """functions splitting off the first line: any length between 1 and what is left"""
    r = {}

    def h(ai, fr, st, c):
        ptr = c.args[0]
        if ptr.k == "ref":
            ptr = ai.deref(fr, st, ptr)
        v = mk("proj", ptr, "*")
        n = mk("app", "linelen", ptr)
        line, tail = mk("app", "slice", v, INT(0), n), mk("app", "slice", v, n, amount(ptr))
        out = []
        for x, s in ai.branch(st, mk("app", "hasline", ptr)):
            if x:
                s = s.clone()
                if ai.restrict(s, n, "ni", frozenset((0,))):
                    out.append((OK(AGG("tuple", None, tail, line)), s))
            else:
                out.append((ERR(mk("sym", "noline")), s))
        return out
    for n in ("take_till_lf", "take_till_lf_null") + tuple(extra):
        for f in p.find(n):
            r[f.id] = h
    return r


def intrinsics(p, gap=0):
    r = {}

    def reg(name, fn):
        for f in p.method("ParserData", name):
            r[f.id] = fn

    def seto(st, k):
        s = st.clone()
        s.store[POS] = k
        return s
    def mine(ai, fr, st, c):
        """is the receiver the chunk being processed?"""
        a = c.args[0]
        return a.k == "ref" and a.a[0] == ("o", "data")

    def w(fn):
        def h(ai, fr, st, c):
            return fn(ai, fr, st, c) if mine(ai, fr, st, c) else None
        return h
    reg("len", w(lambda ai, fr, st, c: [(remaining(pos(st)), st)]))
    reg("is_gap", w(lambda ai, fr, st, c: [(INT(gap), st)]))
    reg("as_slice", w(lambda ai, fr, st, c: [(REF(("d", rest(pos(st)) if not gap else mk("app", "nobytes"))), st)]))

    def data(ai, fr, st, c):
        if gap:
            return [(NONE, st)]
        out = []
        for v, s in ai.branch(st, mk("app", "has", "data")):
            # without data the chunk is empty
            s = s.clone()
            if v or ai.assume(s, EQ(L0, INT(0)), 1):
                out.append((SOME(rest(pos(s))) if v else NONE, s))
        return out
    reg("data", w(data))

    r.update(bstr_ops(p))
    reg("is_empty", w(lambda ai, fr, st, c: [(INT(v), s) for v, s in ai.branch(st, EQ(remaining(pos(st)), INT(0)))]))
    reg("consume", w(lambda ai, fr, st, c: [(UNIT, seto(st, plus(pos(st), c.args[1])))]))
    reg("unconsume", w(lambda ai, fr, st, c: [(UNIT, seto(st, minus(pos(st), c.args[1])))]))
    reg("consumed_len", w(lambda ai, fr, st, c: [(mk("app", "position", pos(st)), st)]))
    return r


def bstr_ops(p):
    """building byte strings from slices"""
    r = {}

    def add(ai, fr, st, c):
        ty, x = (c.aty or [None, None])[1], c.args[1]
        if not ty or not ty.startswith("&"):
            return None
        x = ai.deref(fr, st, x)
        ty = ty[1:]
        while ty.startswith("&"):
            x = ai.deref(fr, st, x)
            ty = ty[1:]
        if ty_base(ty).endswith("Bstr"):
            x = project(x, ("f", "bstr::Bstr", "s"))
        root, path = ai.target(c.args[0])
        path = path + (("f", "bstr::Bstr", "s"),)
        old = ai.read(fr, st, root, path)
        s = st.clone()
        ai.write(fr, s, root, path, mk("app", "concat", old, x))
        return [(UNIT, s)]
    for f in p.method("Bstr", "add"):
        r[f.id] = add

    def frm(ai, fr, st, c):
        ty, x = (c.aty or [None])[0], c.args[0]
        if ty == "std::vec::Vec<u8>":
            return [(mk("agg", "bstr::Bstr", None, ((("f", "bstr::Bstr", "s"), x),)), st)]
        if not ty or not ty.startswith("&") or "[u8]" not in ty:
            return None
        if x.k == "ref":
            x = ai.deref(fr, st, x)
        else:
            x = mk("proj", x, "*")
        return [(mk("agg", "bstr::Bstr", None, ((("f", "bstr::Bstr", "s"), x),)), st)]
    for f in p.code():
        if f.kind == "fn" and f.name == "from" and f.argc == 1 and f.locals[0]["ty"] == "bstr::Bstr":
            r[f.id] = frm
    return r


def _empty(v):
    while v.k == "proj":
        v = v.a[0]
    return v.k == "app" and v.a[0] in ("empty", "nobytes") or v.k == "bytes" and not v.a[0]


def segs(v):
    """the byte string a buffer value denotes, as a list of segments: ("c", lo, hi) from the chunk,
    ("v", term) anything else; None if it cannot be told"""
    if v.k == "upd":
        # a wrapper struct around the byte vector
        if len(v.a) >= 2 and isinstance(v.a[-1], tuple):
            for k, x in v.a[-1]:
                if k[0] == "f" and k[2] == "s":
                    return segs(x)
        return [("v", v)]
    if v.k == "agg" and len(v.a[2]) == 1:
        return segs(v.a[2][0][1])
    if _empty(v):
        return []
    if v.k == "proj" and isinstance(v.a[1], tuple) and v.a[1][0] == "f" and v.a[1][1].endswith("Bstr"):
        return segs(v.a[0])
    p = v.a[0] if v.k == "proj" and v.a[1] == "*" else v
    x = span(p)
    if x:
        return [] if x[0] is x[1] else [("c", x[0], x[1])]
    if p.k == "app" and p.a[0] == "concat":
        r = []
        for y in p.a[1:]:
            r += segs(y)
        return r
    if p.k == "app" and p.a[0] == "slice":
        _, b, lo, hi = p.a
        bs = segs(b)
        if lo.k == "int" and lo.a[0] == 0:
            # a prefix made of whole segments
            for i in range(len(bs) + 1):
                if total(bs[:i]) is hi:
                    return bs[:i]
            if hi.k == "app" and hi.a[0] == "len":
                hs = segs(hi.a[1])
                if bs[:len(hs)] == hs:
                    return hs
    return [("v", p)]


def seglen(s):
    if s[0] == "c":
        return remaining(s[1]) if s[2] is L0 else s[2] if s[1].k == "int" and not s[1].a[0] else arith("Sub", s[2], s[1])
    return mk("app", "len", s[1])


def total(ss):
    r = INT(0)
    for s in ss:
        r = plus(r, seglen(s))
    return r


def explen(t):
    """expand len(concat(..)) in an amount"""
    if t.k == "app" and t.a[0] == "len":
        return total(segs(t.a[1]))
    if t.k == "op" and t.a[0] in ("Add", "Sub"):
        return arith(t.a[0], explen(t.a[1]), explen(t.a[2]))
    return t


def moved(k):
    """net amount consumed, taking back what was read beyond (a move back never goes before the chunk's start)"""
    if k.k == "app" and k.a[0] == "back":
        a, n = moved(k.a[1]), explen(k.a[2])
        if n is a or contains(n, a) or a.k == "int" and a.a[0] == 0:
            return INT(0)
        return mk("app", "back", a, n)
    return k


def contains(n, a):
    """is n a sum one term of which is a?"""
    if n is a:
        return True
    return n.k == "op" and n.a[0] == "Add" and (contains(n.a[1], a) or contains(n.a[2], a))
