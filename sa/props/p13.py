"""Header storage.  The functions that take over the headers found by the
header grammar, the merging of repeated headers and the lookups by name are
abstractly executed with every fact left open; on every path the stored
headers, their flags, the transaction's flags and repetition counters and the
result must be those of the specification."""
from absint import AI, St, mk, INT, REF, SOME, NONE, OK, ERR, UNIT, AGG, OPT, RES, ORD, show, EQ, LT, project, arith, BIT, ty_base
import parser as P
import chunk as K
import dtable as D
from parser import CP, TX, domset, fld

HDR, HS = "transaction::Header", "transaction::Headers"
GH, GN, GV = "headers::Header", "headers::Name", "headers::Value"
REPEATED = 0x20
F = {"FIELD_UNPARSEABLE": 0x4, "FIELD_INVALID": 0x8, "INVALID_FOLDING": 0x200}
N = {"EMPTY": 0x4, "NON_TOKEN": 0x10, "TRAILING": 0x40, "LEADING": 0x80, "NO_COLON": 0x200}


class Mon(P.Base):
    pass


def cmp_intrinsics(p):
    """name comparisons as terms: ("cmp", kind, subject, constant or term)"""
    r = {}
    seen = {}

    def subject(ai, fr, st, v):
        x = ai.deref(fr, st, v) if v.k == "ref" else v
        for _ in range(6):
            if x.k == "ref":
                x = ai.deref(fr, st, x)
            elif x.k == "app" and x.a[0] in ("as_slice", "slice_of") and len(x.a) > 1:
                x = x.a[1]
            elif x.k == "proj" and x.a[1] == "*":
                x = x.a[0]
            elif x.k == "agg" and x.a[0] == "bstr::Bstr" and len(x.a[2]) == 1:
                x = x.a[2][0][1]
            else:
                break
        return x

    def mkh(kind, boolean):
        def h(ai, fr, st, c):
            a = subject(ai, fr, st, c.args[0])
            t = D.text(ai, fr, st, c.args[1])
            b = mk("bytes", tuple(t.lower())) if t is not None else subject(ai, fr, st, c.args[1])
            term = mk("app", "cmp", mk("str", kind), a, b)
            # one value equals at most one of the constants
            known = seen.setdefault((kind, a), {})
            known[b] = term
            if b.k == "bytes" and any(x.k == "bytes" and x is not b and domset(ai, st, t_, ORD) == {"Equal"}
                                      for x, t_ in known.items()):
                st = st.clone()
                if not ai.restrict(st, term, "out", frozenset(("Equal",)), ORD):
                    return []
            if not boolean:
                return [(term, st)]
            out = []
            for v, s in ai.cases(st, term, ORD):
                out.append((INT(1 if v == "Equal" else 0), s))
            return out
        return h
    for m, kind, b in (("cmp_nocase", "nocase", 0), ("cmp_nocase_trimmed", "nocase", 0), ("eq_nocase", "nocase", 1),
                       ("cmp_nocase_nozero", "nozero", 0), ("cmp_nocase_nozero_trimmed", "nozero", 0),
                       ("eq_nocase_nozero", "nozero", 1), ("cmp_slice", "exact", 0), ("eq_slice", "exact", 1)):
        for f in p.method("Bstr", m):
            r[f.id] = mkh(kind, b)
    return r


def machine(p, mon, extra=None, objs=None):
    ix = P.log_intrinsics(p)
    ix.update(P.tx_intrinsics(p, live=True))
    ix.update(K.bstr_ops(p))
    ix.update(cmp_intrinsics(p))
    ix.update(extra or {})
    ot = {"connp": CP, "req": TX, "resp": TX, "hx": HDR, "tab": HS}
    ot.update(objs or {})
    return AI(p, monitor=mon, objtypes=ot, tracked_all=True, relevant={x for x in ix if x in p.fns}, intrinsics=ix,
              step_cap=200000, state_cap=8000)


def run(ctx):
    p = ctx.prog
    for d, o in (("request", "req"), ("response", "resp")):
        merge(ctx, p, d, o)
        take(ctx, p, d, o)
    lookups(ctx, p)
    writers(ctx, p)


def initial(o, ty, f):
    return mk("proj", mk("sym", o), ("f", ty, f))


# ------------------------------------------------------------------ merging
def merge(ctx, p, d, o):
    f = P.one(ctx, "process_%s_header" % d)
    if f is None:
        return
    mon = Mon(ctx, f.name)
    table = mk("proj", mk("sym", o), ("f", TX, d + "_headers"))
    name = mk("proj", mk("sym", "hdr"), ("f", HDR, "name"))
    match = mk("app", "match")

    def find(nz):
        def h(ai, fr, st, c):
            side = D.table_of(ai, fr, st, c.args[0])
            k = c.args[1]
            for _ in range(4):
                if k.k == "ref":
                    k = ai.deref(fr, st, k)
            while k.k == "proj" and k.a[1] in ("*", ("t", 0)) or (k.k == "app" and k.a[0] in ("slice_of", "as_slice")):
                k = k.a[0] if k.k == "proj" else k.a[1]
            if side != d or nz or not within(k, name):
                mon.bad("lookup", "%s looks for an earlier occurrence %s instead of by the header's own name in the %s headers"
                        % (f.where(), "with another comparison" if nz else "by %s in %s" % (show(k)[:60], side), d))
            return [(SOME(REF(("o", "hx"))) if v else NONE, s) for v, s in ai.branch(st, match)]
        return h
    ix = {}
    for m, nz in (("get_nocase_mut", 0), ("get_nocase", 0), ("get_nocase_nozero", 1), ("get_nocase_nozero_mut", 1)):
        for g in p.method("Headers", m):
            ix[g.id] = find(nz)
    for g in p.find("parse_content_length"):
        ix[g.id] = lambda ai, fr, st, c: [(mk("app", "clen", ai.deref(fr, st, c.args[0])), st)]
    ai = machine(p, mon, ix, {"hdr": HDR})
    fl0, va0 = initial("hx", HDR, "flags"), initial("hx", HDR, "value")
    rep0 = initial(o, TX, d + "_header_repetitions")
    el0 = mk("proj", table, ("f", HS, "elements"))
    cl = mk("app", "cmp", mk("str", "nocase"), name, mk("bytes", tuple(b"content-length")))
    pins = (("pin", fl0, va0, rep0, el0, BIT(fl0, 5)),)
    outs = ai.run(f.id, [REF(("o", "connp")), mk("sym", "hdr")], St({}, {}, pins))
    ctx.used(ai)
    rows = 0

    def oracle(e):
        if not e.true(match, "a header of that name exists"):
            return {"push": True}
        if e.true(BIT(fl0, 5), "already marked repeated"):
            if not e.true(LT(rep0, INT(64)), "fewer than 64 extra repetitions"):
                return {}
            r = {"reps": 1}
        else:
            r = {}
        r["flag"] = True
        if not e.oneof(cl, ORD, ("Equal",), "it is Content-Length"):
            r["join"] = True
        return r
    newv = mk("proj", mk("sym", "hdr"), ("f", HDR, "value"))
    for ret, s in outs:
        for s2, x, trace in D.explore(ai, s, oracle):
            rows += 1
            w = "; ".join("%s=%s" % (n if isinstance(n, str) else show(n)[:60], v) for n, v in trace)
            got = {"elements": ai.read(None, s2, ("o", o), (("f", TX, d + "_headers"), ("f", HS, "elements"))),
                   "flags": fld(ai, s2, "hx", HDR, "flags"), "value": fld(ai, s2, "hx", HDR, "value"),
                   "name": fld(ai, s2, "hx", HDR, "name"),
                   "reps": fld(ai, s2, o, TX, d + "_header_repetitions")}
            if domset(ai, s2, ret, RES) != {"Ok"}:
                mon.bad("result", "%s fails; when %s" % (f.where(), w))
            e = got["elements"]
            if x.get("push"):
                good = e.k == "app" and e.a[0] == "push" and e.a[1] is el0 and e.a[2] is mk("sym", "hdr")
            else:
                good = e is el0
            if not good:
                mon.bad("stored", "%s: the %s headers become %s, not %s; when %s" % (
                    f.where(), d, show(e)[:100], "the old ones followed by the new one" if x.get("push") else "unchanged", w))
            b = D.bits(got["flags"], fl0)
            if b != (REPEATED if x.get("flag") else 0):
                mon.bad("flags", "%s: the existing header's flags become %s; FIELD_REPEATED is to be %s; when %s" % (
                    f.where(), show(got["flags"])[:80], "added" if x.get("flag") else "left alone", w))
            if got["name"] is not initial("hx", HDR, "name"):
                mon.bad("name", "%s changes the name of the existing header; when %s" % (f.where(), w))
            v = flat(got["value"])
            want = flat(va0) + ([("b", b", ")] + flat(newv) if x.get("join") else [])
            if v != want:
                mon.bad("value", "%s: the existing header's value becomes %s, not %s; when %s" % (
                    f.where(), v, want, w))
            rw = arith("Add", rep0, INT(1)) if x.get("reps") else rep0
            if got["reps"] is not rw:
                mon.bad("repetitions", "%s: the repetition count becomes %s, not %s; when %s" % (
                    f.where(), show(got["reps"])[:60], show(rw)[:60], w))
            ctx.ok("merge row", "%s %s" % (d, w))
    ctx.floor(d + " merge rows", rows, 4)


def within(k, name):
    while True:
        if k is name:
            return True
        if k.k == "proj":
            k = k.a[0]
        elif k.k == "ref":
            r = k.a[0]
            if r == ("o", "hdr") and k.a[1] and k.a[1][0] == ("f", HDR, "name"):
                return True
            if r[0] == "d":
                k = r[1]
            else:
                return False
        elif k.k == "app" and len(k.a) > 1 and hasattr(k.a[1], "k"):
            k = k.a[1]
        else:
            return False


def flat(v):
    """a byte string as a list of parts: ("b", literal) and ("v", owner field)"""
    if v.k == "app" and v.a[0] == "concat":
        l, r = flat(v.a[1]), flat(v.a[2])
        if l and r and l[-1][0] == "b" and r[0][0] == "b":
            return l[:-1] + [("b", l[-1][1] + r[0][1])] + r[1:]
        return l + r
    if v.k == "app" and v.a[0] == "push" and v.a[2].k == "int":
        l = flat(v.a[1])
        if l and l[-1][0] == "b":
            return l[:-1] + [("b", l[-1][1] + bytes([v.a[2].a[0]]))]
        return l + [("b", bytes([v.a[2].a[0]]))]
    if v.k == "bytes":
        return [("b", bytes(v.a[0]))]
    if v.k == "str":
        return [("b", v.a[0].encode())]
    if v.k == "agg" and v.a[0] == "bstr::Bstr":
        return flat(v.a[2][0][1])
    if v.k == "upd":
        for key, y in v.a[1]:
            if key[0] == "f" and key[1] == "bstr::Bstr":
                return flat(y)
    x = v
    while x.k == "proj" and (x.a[1] == "*" or (isinstance(x.a[1], tuple) and x.a[1][0] == "f" and x.a[1][1] != HDR)):
        x = x.a[0]
    if x.k == "app" and x.a[0] in ("slice_of", "as_slice"):
        return flat(x.a[1])
    return [("v", show(x))]


# ------------------------------------------------------------------ taking over parsed headers
def take(ctx, p, d, o):
    f = P.one(ctx, "parse_%s_headers" % d)
    if f is None:
        return
    sink = P.one(ctx, "process_%s_header" % d)
    grammar = [g for g in p.find("headers") if g.kind == "fn" and g.file.endswith("headers.rs")]
    if len(grammar) != 1 or sink is None:
        ctx.violation("anchor:grammar", "the header grammar HeaderParser::headers is gone")
        return
    mon = Mon(ctx, f.name)
    parsed = mk("app", "parsed")

    def call(ai, fr, st, c):
        if c.decl and c.decl.split("::")[-1] in ("call", "call_once", "call_mut") and c.args:
            x = c.args[0]
            for _ in range(3):
                if x.k == "ref":
                    x = ai.deref(fr, st, x)
            if x.k == "app" and x.a[0] == "grammar":
                a = c.args[1]
                if a.k == "agg":
                    a = a.a[2][0][1]
                if a is not mk("sym", "data"):
                    mon.bad("input", "%s gives the header grammar %s instead of its input" % (f.where(), show(a)[:60]))
                vec = mk("app", "empty")
                for h in hs:
                    vec = mk("app", "push", vec, mk("sym", h))
                return [(OK(AGG("tuple", None, mk("sym", "rest"), AGG("tuple", None, vec, mk("sym", "eoh")))) if v else
                         ERR(mk("app", "nomerr")), s) for v, s in ai.branch(st, parsed)]
        return None
    mon.call = call

    def gr(ai, fr, st, c):
        t = D_owner(c.args[0])
        if t != d + "_header_parser":
            mon.bad("grammar", "%s uses the header parser %s" % (f.where(), t))
        return [(mk("app", "grammar"), st)]

    def store(ai, fr, st, c):
        s = st.clone()
        s.mon = s.mon + (("store", c.args[1] if c.args[1].k != "ref" else ai.deref(fr, s, c.args[1])),)
        r = mk("app", "storeret", INT(len(s.mon)))
        return [((OK(UNIT) if v == "Ok" else ERR(project(r, ("v", "Err", "0")))), s2) for v, s2 in ai.cases(s, r, RES)]
    fl0 = initial(o, TX, "flags")
    rows = 0
    for hs in (("h0",), ("h0", "h1"), ()):
        ai = machine(p, mon, {grammar[0].id: gr, sink.id: store}, {"h0": GH, "h1": GH})
        ai.concrete_seq = True
        nf = {h: mk("proj", mk("proj", mk("sym", h), ("f", GH, "name")), ("f", GN, "flags")) for h in hs}
        pins = ["pin", fl0]
        st = St({}, {}, ())
        for h in hs:
            for b in N.values():
                pins.append(BIT(nf[h], b.bit_length() - 1))
        st = St({}, {}, (tuple(pins),))
        if len(hs) == 2:
            # order only: no irregularity in either name
            for h in hs:
                for b in N.values():
                    ai.assume(st, BIT(nf[h], b.bit_length() - 1), 0)
        outs = ai.run(f.id, [REF(("o", "connp")), mk("sym", "data")], st)
        ctx.used(ai)

        def oracle(e):
            if not e.true(parsed, "headers recognised"):
                return None
            r = []
            for h in hs:
                n = {k: e.true(BIT(nf[h], b.bit_length() - 1), "%s name %s" % (h, k)) for k, b in N.items()} if len(hs) == 1 else \
                    dict.fromkeys(N, False)
                t = hf = 0
                if n["TRAILING"] or n["NON_TOKEN"]:
                    t |= F["FIELD_INVALID"]
                if n["LEADING"]:
                    t |= F["INVALID_FOLDING"]
                    hf |= F["FIELD_INVALID"] if d == "response" else 0
                if n["NO_COLON"] and n["EMPTY"]:
                    t |= F["FIELD_UNPARSEABLE"]
                    hf |= F["FIELD_INVALID"] if d == "response" else 0
                elif n["EMPTY"]:
                    t |= F["FIELD_INVALID"]
                r.append((h, t, hf | t))
            return r
        for ret, s in outs:
            for s2, x, trace in D.explore(ai, s, oracle):
                rows += 1
                w = "; ".join("%s=%s" % (n if isinstance(n, str) else show(n)[:60], v) for n, v in trace)
                ev = [e[1] for e in s2.mon if e and e[0] == "store"]
                rd = domset(ai, s2, ret, RES)
                if x is None:
                    if ev or rd != {"Ok"} or not pair(ret, mk("sym", "data"), INT(0)):
                        mon.bad("unrecognised", "%s: input the grammar does not recognise must be left alone; %d headers are stored and the "
                                "result is %s" % (f.where(), len(ev), show(ret)[:80]))
                    ctx.ok("take row", "%s unrecognised" % d)
                    continue
                failed = rd == {"Err"}
                if rd not in ({"Err"}, {"Ok"}):
                    mon.bad("result", "%s: the result is %s" % (f.where(), show(ret)[:80]))
                if not failed and len(ev) != len(x) or len(ev) > len(x) or (failed and not ev):
                    mon.bad("count", "%s: %d of %d parsed headers are stored; when %s" % (f.where(), len(ev), len(x), w))
                if not failed and not pair(ret, mk("sym", "rest"), mk("sym", "eoh")):
                    mon.bad("rest", "%s returns %s, not what the grammar left over and whether the headers ended" % (
                        f.where(), show(ret)[:80]))
                tb = 0
                for i, (h, t, hf) in enumerate(x[:len(ev)]):
                    tb |= t
                    v = ev[i]
                    g = {k[2]: y for k, y in v.a[2] if k[0] == "f"} if v.k == "agg" else {}
                    nm, vl = (mk("proj", mk("proj", mk("sym", h), ("f", GH, a)), ("f", b, a)) for a, b in (("name", GN), ("value", GV)))
                    if not g or flat(g["name"]) != flat(nm) or flat(g["value"]) != flat(vl):
                        mon.bad("content", "%s stores %s instead of the parsed name and value of header %d; when %s" % (
                            f.where(), show(v)[:160], i, w))
                    elif g["flags"] is not INT(hf):
                        mon.bad("header-flags", "%s gives the header flags %s, not 0x%x; when %s" % (
                            f.where(), show(g["flags"])[:60], hf, w))
                b = D.bits(fld(ai, s2, o, TX, "flags"), fl0)
                if b != tb:
                    mon.bad("tx-flags", "%s adds transaction flags %s, not 0x%x; when %s" % (
                        f.where(), "?" if b is None else hex(b), tb, w))
                ctx.ok("take row", "%s %s" % (d, w))
    ctx.floor(d + " header rows", rows, 30)


def pair(ret, a, b):
    if ret.k != "agg" or ret.a[1] != "Ok":
        return False
    t = ret.a[2][0][1]
    return t.k == "agg" and len(t.a[2]) == 2 and t.a[2][0][1] is a and t.a[2][1][1] is b


def D_owner(v):
    if v.k == "ref":
        for e in reversed(v.a[1]):
            if e[0] == "f":
                return e[2]
    return None


# ------------------------------------------------------------------ lookups
def lookups(ctx, p):
    """the first stored header whose name matches, ignoring case (and zero bytes for the *_nozero lookups)"""
    n = 0
    for ty, elem, m, kind in (("Headers", HDR, "get_nocase", "nocase"), ("Headers", HDR, "get_nocase_mut", "nocase"),
                              ("Headers", HDR, "get_nocase_nozero", "nozero"), ("Headers", HDR, "get_nocase_nozero_mut", "nozero"),
                              ("Table", None, "get_nocase", "nocase")):
        fs = p.method(ty, m)
        if len(fs) != 1:
            ctx.violation("anchor:%s::%s" % (ty, m), "the lookup %s::%s is gone" % (ty, m))
            continue
        f = fs[0]
        mon = Mon(ctx, "%s::%s" % (ty, m))
        ai = machine(p, mon, None, {"tab": HS if elem else "table::Table"})
        ai.concrete_seq = True
        h = [mk("sym", "e%d" % i) for i in range(2)]
        vec = mk("app", "push", mk("app", "push", mk("app", "empty"), h[0]), h[1])
        path = (("f", HS if elem else "table::Table", "elements"),)
        nm = [mk("proj", x, ("f", HDR, "name") if elem else ("t", 0)) for x in h]
        key = mk("sym", "key")
        term = [mk("app", "cmp", mk("str", kind), x, key) for x in nm]
        st = St({}, {}, (("pin",) + tuple(term),))
        ai.write(None, st, ("o", "tab"), path, vec)
        outs = ai.run(f.id, [REF(("o", "tab")), key], st)
        ctx.used(ai)

        def oracle(e):
            for i in range(2):
                if e.oneof(term[i], ORD, ("Equal",), "name %d matches" % i):
                    return i
            return None
        for ret, s in outs:
            for s2, x, trace in D.explore(ai, s, oracle):
                n += 1
                want = NONE if x is None else SOME(REF(("o", "tab"), path + (("i", INT(x)),)))
                if ret is not want:
                    mon.bad("found", "%s returns %s, not %s; when %s" % (
                        f.where(), show(ret)[:80], "the first matching one" if x is not None else "None",
                        "; ".join("%s=%s" % (a if isinstance(a, str) else show(a)[:60], b) for a, b in trace)))
                ctx.ok("lookup row", "%s::%s %s" % (ty, m, x))
    ctx.floor("lookup rows", n, 12)


def writers(ctx, p):
    """stored headers change nowhere else"""
    ok = {"process_request_header", "process_response_header", "get_nocase_mut", "get_nocase_nozero_mut", "with_capacity",
          "response_body_determine"}
    t = p.touches()
    allowed = set()
    for n in ok:
        for ty in ("ConnectionParser", "Headers", "Transaction"):
            for f in p.method(ty, n):
                allowed |= p.reach([f.id]) if n.startswith(("process_", "get_")) else {f.id}
    n = 0
    for f in p.code():
        w = t.get(f.id, ((), ()))[1]
        for k in ((HS, "elements"), (HDR, "value"), (HDR, "name"), (HDR, "flags")):
            if k in w:
                n += 1
                if f.id not in allowed and not any(f.id.startswith(a + "::{closure") for a in allowed):
                    ctx.violation("writer:%s:%s" % (f.id, k[1]), "%s changes stored headers (%s.%s) outside the merging of headers"
                                  % (f.where(), k[0].split("::")[-1], k[1]))
    ctx.count("writers of stored headers", n)
