"""Every processing step that keeps bytes of an unfinished line or header is
abstractly executed on an arbitrary chunk and buffered prefix.  Where more
bytes are kept afterwards than before, the path must have established that
everything kept for this direction (line buffer and header buffer) is within
the configured field limit; a request or response line is only interpreted
after the same was established for the line; exceeding the limit ends the step
with an error, and the step is refused for no smaller amount.  No other
function touches these buffers except to empty them."""
from absint import AI, St, mk, INT, REF, RES, SOME, NONE, OK, ERR, UNIT, AGG, OPT, show, EQ, LT, project
import parser as P
import chunk as K
from parser import CP, TX, PD, ST, SS, domset, fld
from props import p09

LIMIT = mk("proj", mk("proj", mk("sym", "connp"), ("f", CP, "cfg")), ("f", P.CFG, "field_limit"))
LINE = ("parse_request_line", "parse_response_line")


def run(ctx):
    p = ctx.prog
    items = []
    for d in P.DIRS:
        f = P.one(ctx, "handle_%s_state" % d)
        if f is not None:
            items += [(d, f, s) for s in p09.LINES[d] + p09.NOTHING[d] + ("HEADERS", "FINALIZE")]
    ctx.each(lambda c, x: step(c, p, *x), items)
    for d in P.DIRS:
        ctx.floor("%s paths keeping data" % d, ctx.counts.get("%s paths keeping data" % d, 0), 4)
        ctx.floor("%s paths refusing data" % d, ctx.counts.get("%s paths refusing data" % d, 0), 4)
        ctx.floor("%s lines interpreted" % d, ctx.counts.get("%s lines interpreted" % d, 0), 2)
    others(ctx, p)


def step(ctx, p, d, f, state):
    mon = p09.Mon(ctx, d, p, "%s:%s" % (d, state))
    ai = p09.machine(ctx, p, d, mon)
    h0 = mk("proj", mk("sym", "connp"), ("f", CP, d + "_header"))
    b0 = p09.buf(d)
    st = St({}, {}, (("pin", b0, project(b0, ("f", "bstr::Bstr", "s")), h0),))
    ai.restrict(st, mk("proj", mk("sym", "connp"), ("f", CP, d + "_state")), "in", frozenset((state,)), ST)
    outs = ai.run(f.id, [REF(("o", "connp")), REF(("o", "data"))], st)
    ctx.used(ai)
    w = "the %s step of state %s (%s)" % (d, state, f.where())
    keep = refuse = lines = 0
    old = {("v", b0), ("v", project(h0, ("v", "Some", "0")))}
    ends = [(ret, s) for ret, s in outs] + [(None, s) for _, s in ai.again]
    for ret, s in ends:
        within, over = bounds(s)
        new = kept(ai, s, d, h0)
        grown = [x for x in new if not (x in old or zero(ai, s, x))]
        if grown:
            keep += 1
            need = count(new, ai, s)
            if not any(covers(t, need) for t in within):
                mon.bad("keep", "%s keeps %s without having checked it against the field limit" % (w, p09.segshow(new)))
        for e in s.mon:
            if e[0] == "sink" and e[1] in LINE:
                lines += 1
                need = count(list(e[2]), ai, s)
                if need and not any(covers(t, need) for t in within):
                    mon.bad("line", "%s interprets a line of unchecked length (%s)" % (w, p09.segshow(list(e[2]))))
        r = domset(ai, s, ret, RES) if ret is not None else {"Ok"}
        if over:
            refuse += 1
            err = domset(ai, s, P.err_of(ret), P.HS) if r == {"Err"} else set()
            if err != {"ERROR"}:
                mon.bad("over", "%s goes on although the field limit is exceeded" % w)
            for t in over:
                if not exact(t, d, b0, h0):
                    mon.bad("early", "%s is refused for %s exceeding the limit, which is not what would be kept" % (
                        w, " + ".join(t)))
        ctx.ok("path", "%s %s %d" % (d, state, keep + refuse + lines))
    ctx.count("%s paths keeping data" % d, keep)
    ctx.count("%s paths refusing data" % d, refuse)
    ctx.count("%s lines interpreted" % d, lines)


def plain(t):
    """a slice and a reference to it have the same length"""
    return t.replace(".*", "")


def bounds(s):
    """sums known to be within, and above, the limit"""
    a, b = [], []
    for t, v in s.facts.items():
        if t.k == "op" and t.a[0] == "Lt" and v[0] == "in" and len(v[1]) == 1:
            x = next(iter(v[1]))
            if t.a[1] is LIMIT:
                (b if x else a).append([plain(y) for y in p09.sums(t.a[2])])
            elif t.a[2] is LIMIT and x:
                a.append([plain(y) for y in p09.sums(t.a[1])])
    return a, b


def kept(ai, s, d, h0):
    out = list(K.segs(fld(ai, s, "connp", CP, d + "_buf")))
    h = fld(ai, s, "connp", CP, d + "_header")
    if "Some" in domset(ai, s, h, OPT):
        out += K.segs(h.a[2][0][1] if h.k == "agg" else project(h, ("v", "Some", "0")))
    return out


def zero(ai, s, seg):
    n = K.seglen(seg)
    alt = mk("app", "len", mk("proj", seg[1], "*")) if seg[0] == "v" else n
    return n.k == "int" and n.a[0] == 0 or ai.evalb(s, EQ(n, INT(0))) == 1 or ai.evalb(s, EQ(alt, INT(0))) == 1


def count(segs, ai, s):
    r = []
    for x in segs:
        if not zero(ai, s, x):
            v = x[1]
            if x[0] == "v" and v.k == "app" and v.a[0] == "slice":
                r += p09.sums(v.a[3] if v.a[2] is INT(0) else mk("op", "Sub", v.a[3], v.a[2]))
            else:
                r += p09.sums(K.seglen(x))
    return sorted(plain(y) for y in r)


def covers(t, need):
    t = list(t)
    for x in need:
        if x not in t:
            return False
        t.remove(x)
    return True


def exact(t, d, b0, h0):
    """kept already, plus one new piece (or a whole line)"""
    buf, hdr = "_buf" in " ".join(t), None
    rest = [x for x in t if "%s_header" % d not in x and not x.startswith("len($connp.%s_buf" % d)]
    return len(rest) == 1 and len(t) <= 3 and len(set(t)) == len(t)


def others(ctx, p):
    """functions that touch the buffers outside the steps only empty them"""
    wr = p.touches()
    n = 0
    for f in p.code():
        if f.id in ctx.fns or p.is_test(f) or f.kind != "fn":
            continue
        for d in P.DIRS:
            for x in ("_buf", "_header"):
                if (CP, d + x) in wr.get(f.id, ((), ()))[1]:
                    n += 1
                    only_empties(ctx, p, f, d + x)
    ctx.count("other functions writing the buffers", n)


def only_empties(ctx, p, f, name):
    a, _ = P.sig(f)
    args = [REF(("o", "connp"))] + [mk("sym", "arg%d" % i) for i in range(1, len(a))]
    mon = P.Base(ctx, f.name)
    ix = P.log_intrinsics(p)
    ix.update(K.bstr_ops(p))
    ai = AI(p, monitor=mon, objtypes={"connp": CP}, tracked_all=True, relevant=set(), intrinsics=ix, step_cap=200000,
            state_cap=500)
    outs = ai.run(f.id, args, St({}, {}, ()))
    ctx.used(ai)
    init = mk("proj", mk("sym", "connp"), ("f", CP, name))
    for ret, s in outs:
        v = fld(ai, s, "connp", CP, name)
        if v is init or v.k == "agg" and v.a[1] == "None" or not [x for x in K.segs(v) if x != ("v", init)]:
            continue
        ctx.violation("other:%s:%s" % (f.name, name), "%s (%s) stores %s in %s outside the steps that check the field limit"
                      % (f.id, f.where(), show(v)[:80], name))
