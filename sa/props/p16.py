"""URL-encoded parameters: the parser of query strings and forms."""
from absint import mk, INT, REF, EQ, St, show, project
import absint
import dtable as D
import nom as NM
from nom import BS, byte
from dtable import domset
import props.p15 as U

SELF = "urlencoded::Parser"
RULE = ("data is split at the separator; every non-empty piece is one parameter, in order: name up to the first '=', value after it, "
        "each decoded; a non-empty input of separators only is one empty parameter; flags accumulate, the expected status is the last "
        "one a reaction asked for; how the data is cut into calls does not matter")


def run(ctx):
    absint.MAXDEPTH = 40
    p = ctx.prog
    fs = {}
    for n, k in (("new", 1), ("parse_partial", 2), ("finalize", 1), ("parse_complete", 2)):
        l = [f for f in p.method("Parser", n) if f.file.endswith("urlencoded.rs") and f.argc == k]
        if len(l) != 1:
            ctx.violation("anchor:" + n, "urlencoded::Parser::%s is gone" % n)
            return
        fs[n] = l[0]
    rows = structure(ctx, p, fs)
    ctx.floor("undecoded rows", rows, 200)
    rows = decoded(ctx, p, fs)
    ctx.floor("decoded rows", rows, 200)


def cuts(n):
    """all ways to hand over n bytes: ("c",) in one parse_complete, or a tuple of chunk ends followed by finalize"""
    yield "c"
    for m in range(1 << max(n - 1, 0)):
        ends = tuple(i for i in range(1, n) if m >> (i - 1) & 1) + (n,)
        yield ends
    yield (0, n)
    yield (n, n)


def drive(ai, fs, n, how, st, sep, dec):
    r, s = the(ai.run(fs["new"].id, [mk("sym", "cfg")], st))
    s.store[("o", "parser")] = r
    fld = {k[2]: v for k, v in r.a[2]} if r.k == "agg" else {}
    for name, v in (("argument_separator", sep), ("decode_url_encoding", dec)):
        if v is not None:
            if name not in fld:
                raise NM.Unsupported("no field " + name)
            ai.write(None, s, ("o", "parser"), (("f", SELF, name),), v)
    ps = REF(("o", "parser"))
    states = [s]

    def step(f, args):
        out = []
        for s0 in states:
            out += [s1 for _, s1 in ai.run(f.id, args, s0)]
        return out
    if how == "c":
        states = step(fs["parse_complete"], [ps, BS(0, n)])
    else:
        lo = 0
        for hi in how:
            states = step(fs["parse_partial"], [ps, BS(lo, hi)])
            lo = hi
        states = step(fs["finalize"], [ps])
    return states


def the(outs):
    if len(outs) != 1:
        raise NM.Unsupported("Parser::new has %d outcomes" % len(outs))
    return outs[0]


def field(ai, s, name):
    return ai.read(None, s, ("o", "parser"), (("f", SELF, name),))


def stored(ai, s):
    """[(name, value)] of the parameters kept, or None"""
    import models
    t = field(ai, s, "params")
    v = project(t, ("f", "table::Table", "elements"))
    e = models.seq_elems(v)
    if e is None:
        return None
    return [(project(x, ("t", 0)), project(x, ("t", 1))) for _, _, x in e]


def pieces(e, n, sep):
    """specification: [(start, '=' or None, end)] of the parameters of bytes 0..n"""
    out, lo = [], 0
    for i in range(n + 1):
        if i == n or e.true(EQ(byte(i), INT(sep))):
            if i > lo:
                eq = None
                for k in range(lo, i):
                    if e.true(EQ(byte(k), INT(0x3d))):
                        eq = k
                        break
                out.append((lo, eq, i))
            lo = i + 1
    return out


def scenario(ctx, p, mon, fs, n, how, doms, sep, dec, key):
    ai = U.machine(p, mon)
    ai.concrete_seq = True
    st = St({}, {}, (U.pins(n),))
    for i, d in enumerate(doms):
        st.facts[byte(i)] = ("in", d)
    f = fs["parse_partial"]
    rows = 0
    try:
        states = drive(ai, fs, n, how, st, None if sep == 0x26 else INT(sep), dec)
    except NM.Unsupported as e:
        mon.bad("form", "%s uses a construct this analysis does not know: %s" % (f.where(), e))
        return 0
    ctx.used(ai)
    for s in states:
        def oracle(e):
            ps = pieces(e, n, sep)
            if dec is not None and dec.a[0] == 0:
                return [([byte(i) for i in range(a, b if q is None else q)], [byte(i) for i in range(b if q is None else q + 1, b)])
                        for a, q, b in ps] or ([([], [])] if n else []), 0, None
            out, flags, code = [], 0, None
            for a, q, b in ps:
                two = []
                for lo, hi in ((a, b if q is None else q), (b if q is None else q + 1, b)):
                    sp = U.Spec(e, hi, "params")
                    i = lo
                    while i is not None and i < hi:
                        i = sp.step(i)
                    two.append(sp.out)
                    flags |= sp.flags
                    code = sp.code if sp.code is not None else code
                out.append(tuple(two))
            return out or ([([], [])] if n else []), flags, code
        for s2, x, trace in D.explore(ai, s, oracle, 20000):
            rows += 1
            w = "%d bytes handed over as %s; " % (n, "one" if how == "c" else how) + "; ".join(
                "%s=%s" % (t if isinstance(t, str) else show(t)[:60], v) for t, v in trace)
            judge(ai, mon, f, s2, w, x)
            ctx.ok(key, w)
    return rows


def judge(ai, mon, f, s, w, x):
    want, wflags, code = x
    got = stored(ai, s)
    if got is None:
        mon.bad("params", "%s: the parameters %s cannot be told; when %s" % (f.where(), show(field(ai, s, "params"))[:300], w))
        return
    txt = lambda l: [tuple([show(y)[:14] for y in z] if z is not None else None for z in q) for q in l]
    g = [tuple(U.elements(ai, s, y) for y in pr) for pr in got]
    same = len(g) == len(want) and all(
        a is not None and len(a) == len(b) and all(ai.same_byte(s, c, d) for c, d in zip(a, b))
        for pg, pw in zip(g, want) for a, b in zip(pg, pw))
    if not same:
        mon.bad("params", "%s gives the parameters %s instead of %s; when %s" % (f.where(), txt(g), txt(want), w))
    fl = field(ai, s, "flags")
    b = D.bits(fl, INT(0)) if fl.k != "int" else fl.a[0]
    if b != wflags:
        mon.bad("flags", "%s leaves the flags %s instead of 0x%x; when %s" % (f.where(), show(fl)[:60], wflags, w))
    U.status_is(ai, mon, f, s, w, field(ai, s, "response_status_expected_number"), code, None)


ALL = frozenset(range(256))


def structure(ctx, p, fs):
    rows = 0
    mon = U.Mon(ctx, "parse")
    for sep in (0x26, 0x3b):
        for n in range(0, 5 if sep == 0x26 else 3):
            for how in cuts(n):
                rows += scenario(ctx, p, mon, fs, n, how, [ALL] * n, sep, INT(0), "undecoded row")
    return rows


SMALL = frozenset((0x26, 0x3d, 0, 0x2b, 0x61))


def decoded(ctx, p, fs):
    rows = 0
    mon = U.Mon(ctx, "decode")
    for n in range(0, 4):
        for how in cuts(n):
            rows += scenario(ctx, p, mon, fs, n, how, [SMALL] * n, 0x26, None, "decoded row")
    two = frozenset((0x26, 0x3d))
    for sc in U.SCEN:
        if U.PCT in sc:
            rows += scenario(ctx, p, mon, fs, len(sc), "c", [d - two for d in sc], 0x26, None, "escape row")
    return rows
