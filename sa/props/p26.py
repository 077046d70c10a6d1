"""The record of a connection.  Opening, closing and feeding a parser and
logging are abstractly executed on every path, and the connection's endpoints,
timestamps, byte counters and the log entries handed out are compared with the
ones the call stands for: nothing is swapped, lost, counted twice or kept at a
level that was not asked for."""
from absint import AI, St, Monitor, mk, INT, NULL, REF, AGG, OPT, RES, SOME, NONE, OK, ERR, EQ, UNIT, show, project, ty_base, atoms
import capi
import dtable as D
import parser as P
import props.p05 as P5
from parser import CP, SS, domset, fld

RULE = ("after every call the connection holds exactly the endpoints, timestamps and numbers of bytes it was told; every message at or below the "
        "configured level, and no other, is sent once, and read back once, in order, with its connection's endpoints")
CN, LG, MSG, LOG, LL = "connection::Connection", "log::Logger", "log::Message", "log::Log", "log::HtpLogLevel"
LEVELS = ("NONE", "ERROR", "WARNING", "NOTICE", "INFO", "DEBUG", "DEBUG2")
ENDS = ("client_addr", "client_port", "server_addr", "server_port")
COUNT = {"request": "request_data_counter", "response": "response_data_counter"}
TRACK = {"request": "track_inbound_data", "response": "track_outbound_data"}


def conn_of(obj):
    return mk("proj", mk("sym", obj), ("f", CP, "conn"))


def fields(p, ty=CN):
    return [f["name"] for f in p.adts[ty]["variants"][0]["fields"]]


def changed(ctx, ai, st, path, init, exp, key, what):
    """every field of the connection is as before, except the expected ones"""
    for f in fields(ctx.prog):
        got = ai.read(None, st, path[0], path[1] + (("f", CN, f),))
        want = exp.get(f, project(init, ("f", CN, f)))
        if not capi.same(ai, st, got, want):
            ctx.violation("%s:%s" % (key, f), "%s leaves the connection's %s as %s instead of %s" % (what, f, show(got)[:90], show(want)[:90]))
        ctx.ok(key, f)


def stamp(ai, st, ts, old):
    d = domset(ai, st, ts, OPT)
    if len(d) != 1:
        return None
    return project(ts, ("v", "Some", "0")) if d == {"Some"} else old


CONN = (("o", "connp"), (("f", CP, "conn"),))
TS = mk("sym", "arg:ts")


def ix(p):
    r = P.log_intrinsics(p)
    r.update(P.tx_intrinsics(p))
    return r


def timed(ctx, ai, outs):
    """outcomes, split by whether a time was given"""
    for ret, st in outs:
        for s, some, _ in D.explore(ai, st, lambda e: e.some(TS)):
            yield ret, s, some


# ---------------------------------------------------------------- opening and closing
def opening(ctx):
    p = ctx.prog
    f = P.one(ctx, "open")
    if f is not None:
        if f.argc != 6:
            ctx.violation("anchor:open", "%s no longer takes two endpoints and a time" % f.where())
            return
        vals = [mk("sym", "arg:" + x) for x in ENDS] + [TS]
        for a in p.variants(SS):
            for b in p.variants(SS):
                ai = AI(p, objtypes={"connp": CP}, tracked_all=True, intrinsics=ix(p), step_cap=60000)
                st = St({}, {}, None)
                for d, s0 in (("request", a), ("response", b)):
                    ai.restrict(st, mk("proj", mk("sym", "connp"), ("f", CP, d + "_status")), "in", frozenset((s0,)), SS)
                outs = ai.run(f.id, [REF(("o", "connp"))] + vals, st)
                ctx.used(ai)
                fresh = a == b == "NEW"
                for ret, s, some in timed(ctx, ai, outs):
                    exp = {}
                    if fresh:
                        exp = dict(zip(ENDS, vals))
                        if some:
                            exp["open_timestamp"] = project(TS, ("v", "Some", "0"))
                    changed(ctx, ai, s, CONN, conn_of("connp"), exp, "open" if fresh else "open-again",
                            "%s (streams %s/%s, %s)" % (f.where(), a, b, "with a time" if some else "without a time"))
                    ctx.count("paths")


class Feed(P.Base):
    """the data calls made while closing, with their times"""

    def __init__(self, ctx, label, data):
        P.Base.__init__(self, ctx, label)
        self.data = data

    def call(self, ai, fr, st, c):
        if c.target in self.data:
            s = st.clone()
            s.mon = (st.mon or ()) + ((self.data[c.target], c.args[2]),)
            return [(mk("sym", "state"), s)]
        return None


def closing(ctx):
    p = ctx.prog
    data = {f.id: d for d in P.DIRS for f in p.method("ConnectionParser", d + "_data")}
    if len(data) != 2:
        ctx.violation("anchor:data", "the data calls are gone")
        return
    for name, want, stamps in (("close", ("request", "response"), True), ("request_close", ("request",), False)):
        f = P.one(ctx, name)
        if f is None:
            continue
        flush = {g.id for g in p.method("ConnectionParser", "flush_incomplete_transactions")}
        i = ix(p)
        for g in flush:
            i[g] = lambda ai, fr, st, c: [(UNIT, st)]
        ai = AI(p, monitor=Feed(ctx, name, data), objtypes={"connp": CP}, tracked_all=True, intrinsics=i, step_cap=60000)
        outs = ai.run(f.id, [REF(("o", "connp")), TS], St({}, {}, None))
        ctx.used(ai)
        for ret, s, some in timed(ctx, ai, outs):
            exp = {"close_timestamp": project(TS, ("v", "Some", "0"))} if some and stamps else {}
            changed(ctx, ai, s, CONN, conn_of("connp"), exp, name, "%s (%s)" % (f.where(), "with a time" if some else "without a time"))
            ev = s.mon or ()
            if tuple(d for d, _ in ev) != want:
                ctx.violation(name + ":calls", "%s finalizes the %s instead of the %s stream" % (
                    f.where(), "/".join(d for d, _ in ev) or "no", "/".join(want)))
            for d, t in ev:
                if not (t is TS or t.k == "agg" and t.a[1] == "None" and not some or
                        t.k == "agg" and t.a[1] == "Some" and some and t.a[2][0][1] is project(TS, ("v", "Some", "0"))):
                    ctx.violation("%s:time:%s" % (name, d), "%s finalizes the %s stream with the time %s, not the one given" % (f.where(), d, show(t)[:60]))
            ctx.count("paths")


# ---------------------------------------------------------------- counting data
class DMon(P5.Mon):
    def call(self, ai, fr, st, c):
        t = c.target
        if t in self.stubs and st.mon is None:
            self.record(ai, st, "%s (first processing step)" % fr.where(), True)
        r = P5.Mon.call(self, ai, fr, st, c)
        return r

    def bad(self, key, msg):
        """only the record is judged here"""

    def write(self, ai, fr, st, root, path, val):
        if root == ("o", "connp") and st.mon is not None and any(e[0] == "f" and e[1] == CN for e in path):
            self.ctx.violation("%s:late:%s" % (self.d, path[-1][2]), "%s changes the connection's %s after processing has begun" % (fr.where(), path[-1][2]))

    def record(self, ai, st, where, accepted):
        d = self.d
        cn = conn_of("connp")
        old = project(cn, ("f", CN, COUNT[d]))
        got = ai.read(None, st, CONN[0], CONN[1] + (("f", CN, COUNT[d]),))
        n = count(got, old)
        if n is None or n != ([P5.chunklen(0)] if accepted else []) and not (self.empty and n == []):
            self.ctx.violation("%s:counter:%s" % (d, "accepted" if accepted else "refused"), "%s leaves the %s as %s: %s" % (
                where, COUNT[d], show(got)[:90], "the chunk's length has to be added exactly once" if accepted else "a refused chunk does not count"))
        for f in fields(ai.p):
            if f in (COUNT[d], "flags"):
                continue
            got = ai.read(None, st, CONN[0], CONN[1] + (("f", CN, f),))
            if got is not project(cn, ("f", CN, f)):
                self.ctx.violation("%s:conn:%s" % (d, f), "%s has changed the connection's %s to %s" % (where, f, show(got)[:90]))
        for o in P.DIRS:
            t0 = mk("proj", mk("sym", "connp"), ("f", CP, o + "_timestamp"))
            got = fld(ai, st, "connp", CP, o + "_timestamp")
            for s, some, _ in D.explore(ai, st, lambda e: e.some(TS)):
                want = project(TS, ("v", "Some", "0")) if some and accepted and o == d else t0
                if got is not want:
                    self.ctx.violation("%s:time:%s" % (d, o), "%s keeps %s as the time of the last %s chunk (a time was %sgiven, the chunk %s)" % (
                        where, show(got)[:80], o, "" if some else "not ", "accepted" if accepted else "refused"))
        self.ctx.ok(d + " data", "%s/%s/%s" % (self.s0, self.gap, self.empty))
        self.ctx.count("paths")


def count(t, old, depth=0):
    """the terms added to old to give t, or None"""
    if t is old:
        return []
    if depth > 4:
        return None
    if t.k in ("op", "app") and t.a[0] in ("Add", "wrapping_add", "AddWithOverflow", "AddUnchecked"):
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            r = count(a, old, depth + 1)
            if r is not None:
                while b.k == "app" and b.a[0] in ("cast:u64", "cast:usize", "cast:u128"):
                    b = b.a[1]
                return r + [b]
    return None


def feeding(ctx):
    p = ctx.prog
    ctx.each(feed, [(d, s0) for d in P.DIRS for s0 in p.variants(SS)])


def feed(ctx, item):
    p = ctx.prog
    d, s0 = item
    f = P.one(ctx, d + "_data")
    if f is None:
        return
    steps = {g.id for g in p.code() if P.is_step(g)}
    disp = {g for g in steps if len({x for x in p.calls_of(g) if x in steps}) >= 8}
    sendd = {g for g in steps if p.fns[g].name.endswith("receiver_send_data")}
    stubs = {g: "step" for g in steps - disp - sendd}
    for gap in (0, 1):
        for empty in (0, 1):
            mon = DMon(ctx, d, stubs, sendd, s0, gap, empty, set())
            i = ix(p)
            for g in p.method("ParserData", "is_gap"):
                i[g.id] = lambda ai, fr, st, c: [(INT(gap), st)]
            for g in p.method("ParserData", "len"):
                i[g.id] = lambda ai, fr, st, c: [(P5.chunklen(0 if st.mon is None else 1), st)]
            ai = AI(p, monitor=mon, objtypes={"connp": CP, "req": P.TX, "resp": P.TX}, tracked_all=True, intrinsics=i,
                    step_cap=200000, state_cap=4000, force_inline=disp)
            st = St({}, {}, None)
            ai.restrict(st, mk("proj", mk("sym", "connp"), ("f", CP, d + "_status")), "in", frozenset((s0,)), SS)
            ai.assume(st, EQ(P5.chunklen(0), INT(0)), empty)
            outs = ai.run(f.id, [REF(("o", "connp")), mk("sym", "chunk"), TS], st)
            ctx.used(ai)
            refused = s0 in ("STOP", "ERROR") or empty and s0 != "CLOSED"
            for ret, s in outs:
                if s.mon is None:
                    mon.record(ai, s, "%s (from status %s)" % (f.where(), s0), not refused)


# ---------------------------------------------------------------- logging
class LMon(Monitor):
    """sent messages; comparison of levels by rank; received messages"""

    def __init__(self, n=0):
        self.n = n

    def call(self, ai, fr, st, c):
        d = c.decl or ""
        last = d.split("::")[-1]
        if "mpsc" in d and last == "send" and len(c.args) == 2:
            s = st.clone()
            s.mon = (st.mon or ()) + ((c.args[0], c.args[1]),)
            return [(OK(UNIT), s)]
        if "mpsc" in d and last in ("try_recv", "recv") and len(c.args) == 1:
            k = st.mon or 0
            s = st.clone()
            s.mon = k + 1
            if k < self.n:
                return [(OK(mk("sym", "m%d" % k)), s)]
            return [(ERR(mk("sym", "empty")), s)]
        if last in ("to_string", "to_owned", "clone") and len(c.args) == 1 and plain(ai, st, c.args[0]).k == "sym":
            return [(plain(ai, st, c.args[0]), st)]
        if "PartialOrd::" in d and last in ("lt", "le", "gt", "ge") and len(c.args) == 2:
            v = [x for x in (rank(ai, fr, st, a) for a in c.args) if x is not None]
            if len(v) == 2:
                a, b = v
                return [(INT(int({"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[last])), st)]
        return None


def rank(ai, fr, st, a):
    for _ in range(3):
        if a.k == "ref":
            a = ai.deref(fr, st, a)
    if a.k == "agg" and a.a[0] == LL and a.a[1] in ai.p.variants(LL):
        return list(ai.p.variants(LL)).index(a.a[1])
    return None


def lev(x):
    return AGG(LL, x, ())


def member(ai, st, v, ty, name):
    for _ in range(3):
        if v.k == "ref":
            v = ai.deref(None, st, v)
    return project(v, ("f", ty, name))


def plain(ai, st, v):
    """what a copied string/value is a copy of"""
    for _ in range(8):
        if v.k == "ref":
            if v.a[1]:
                return v
            v = ai.deref(None, st, v)
        elif v.k == "app" and len(v.a) == 2 and hasattr(v.a[1], "k"):
            v = v.a[1]
        elif v.k == "proj" and v.a[1] == "*":
            v = v.a[0]
        else:
            return v
    return v


def logging(ctx):
    p = ctx.prog
    if tuple(p.variants(LL)) != LEVELS:
        ctx.violation("levels", "the log levels are no longer ordered %s" % " < ".join(LEVELS))
    f = P.one(ctx, "log", "Logger")
    if f is not None and f.argc == 6:
        for a in LEVELS:
            for b in LEVELS:
                ai = AI(p, monitor=LMon(), objtypes={"logger": LG}, tracked_all=True, step_cap=20000)
                st = St({}, {}, None)
                ai.write(None, st, ("o", "logger"), (("f", LG, "level"),), lev(b))
                args = [REF(("o", "logger")), mk("sym", "file"), mk("sym", "line"), lev(a), mk("sym", "code"), mk("sym", "msg")]
                outs = ai.run(f.id, args, st)
                ctx.used(ai)
                want = LEVELS.index(a) <= LEVELS.index(b)
                for ret, s in outs:
                    ev = s.mon or ()
                    if len(ev) != int(want):
                        ctx.violation("log:%s:%s" % (a, b), "%s sends %d messages for a %s message at level %s" % (f.where(), len(ev), a, b))
                    for to, m in ev:
                        if "sender" not in show(to):
                            ctx.violation("log:to", "%s sends to %s" % (f.where(), show(to)[:60]))
                        for n, w in (("file", "file"), ("line", "line"), ("code", "code"), ("msg", "msg")):
                            g = plain(ai, s, member(ai, s, m, MSG, n))
                            if g is not mk("sym", w) and (known(g) or g.k != "sym"):
                                ctx.violation("log:" + n, "%s sends %s as the %s of a message" % (f.where(), show(g)[:60], n))
                        g = member(ai, s, m, MSG, "level")
                        if g is not lev(a):
                            ctx.violation("log:level", "%s sends %s as the level of a message" % (f.where(), show(g)[:60]))
                    ctx.ok("log", "%s/%s" % (a, b))
                    ctx.count("paths")
    elif f is not None:
        ctx.violation("anchor:log", "%s no longer takes a place, a level, a code and a message" % f.where())
    conn = mk("sym", "conn")
    g = P.one(ctx, "get_next_log", "Connection")
    if g is not None:
        for n in (0, 1, 2):
            for ai, ret, s in reading(ctx, g, n):
                want = min(n, 1)
                if s.mon != 1:
                    ctx.violation("next:%d" % n, "%s takes %s messages off the queue" % (g.where(), s.mon))
                v = domset(ai, s, ret, OPT)
                if v != {"Some" if want else "None"}:
                    ctx.violation("next:result", "%s returns %s with %d messages waiting" % (g.where(), "/".join(sorted(v)), n))
                elif want:
                    entry(ctx, ai, s, project(ret, ("v", "Some", "0")), 0, conn, g)
    g = P.one(ctx, "get_logs", "Connection")
    if g is not None:
        import props.p15 as U
        import bset as B
        for n in (0, 1, 2, 3, 8, 9, 17, 33):
            for ai, ret, s in reading(ctx, g, n):
                if any("try_iter" in c or "from_fn" in c or "IntoIterator" in c for c in externals(p, g)):
                    # drained through an iterator of the standard library: its number of steps is not followed
                    ctx.count("entries not followed")
                    continue
                if not s.mon:
                    ctx.violation("logs:none", "%s does not read the queue" % g.where())
                    continue
                if s.mon != n + 1:
                    ctx.violation("logs:%d" % n, "%s stops after %d reads with %d messages waiting" % (g.where(), s.mon, n))
                if n > 4:
                    continue
                el = U.elements(ai, s, ret)
                if el is None:
                    el = B.items(ret)
                if el is None:
                    ctx.count("entries not followed")
                    continue
                if len(el) != n:
                    ctx.violation("logs:%d" % n, "%s returns %d entries with %d messages waiting" % (g.where(), len(el), n))
                for k, x in enumerate(el):
                    entry(ctx, ai, s, x, k, conn, g)


def externals(p, g):
    """what a function and everything below it call outside the crate"""
    ext = p.refs()[1]
    return {c for f in p.reach([g]) for c in ext.get(f, ())}


def entry(ctx, ai, s, x, k, conn, g):
    for f in ENDS:
        v = member(ai, s, x, LOG, f)
        if v is not project(conn, ("f", CN, f)):
            ctx.violation("entry:" + f, "%s: the %s of a log entry is %s" % (g.where(), f, show(v)[:60]))
    v = member(ai, s, x, LOG, "msg")
    if v is not mk("sym", "m%d" % k):
        ctx.violation("entry:msg", "%s: log entry %d holds %s" % (g.where(), k, show(v)[:60]))
    ctx.ok("entry", "%s %d" % (g.name, k))
    ctx.count("paths")


def reading(ctx, g, n):
    ai = AI(ctx.prog, monitor=LMon(n), objtypes={"conn": CN}, tracked_all=True, step_cap=20000)
    outs = ai.run(g.id, [REF(("o", "conn"))], St({}, {}, None))
    ctx.used(ai)
    if not outs:
        ctx.violation("reading:" + g.name, "%s never returns" % g.where())
    for ret, s in outs:
        yield ai, ret, s


# ---------------------------------------------------------------- the C calls
CT = {  # exported function -> (method, {argument index of the method: parameter it comes from})
    "htp_connp_open": ("open", {1: "client_addr", 2: "client_port", 3: "server_addr", 4: "server_port", 5: "timestamp"}),
    "htp_connp_close": ("close", {1: "timestamp"}),
    "htp_connp_request_close": ("request_close", {1: "timestamp"}),
    "htp_connp_request_data": ("request_data", {2: "timestamp"}),
    "htp_connp_response_data": ("response_data", {2: "timestamp"}),
}


class CMon(capi.CMon):
    """C strings, addresses and times as terms of what they are made of"""

    def call(self, ai, fr, st, c):
        d = c.decl or ""
        last = d.split("::")[-1]
        a = [ai.deref(fr, st, x) if x.k == "ref" and x.a[0][0] != "o" else x for x in c.args]

        def maybe(what, good, bad):
            return [((good if v else bad), s) for v, s in ai.branch(st, mk("app", what, *a))]
        if "CStr" in d and last == "from_ptr":
            return [(mk("app", "cstr", a[0]), st)]
        if "CStr" in d and last == "to_str":
            return maybe("isutf8", OK(mk("app", "text", a[0])), ERR(mk("sym", "bad")))
        if last == "parse" and "str" in d:
            return maybe("isaddr", OK(mk("app", "addr", a[0])), ERR(mk("sym", "bad")))
        if last == "from_unix_timestamp":
            return maybe("istime", OK(mk("app", "time", a[0])), ERR(mk("sym", "bad")))
        if "Duration" in d and last in ("microseconds", "milliseconds", "nanoseconds", "seconds"):
            return [(mk("app", last, a[0]), st)]
        if "OffsetDateTime" in d and last == "checked_add":
            return maybe("insum", SOME(mk("app", "sum", a[0], a[1])), NONE)
        return capi.CMon.call(self, ai, fr, st, c)


def inner(t, name):
    return t.a[1] if t.k == "app" and t.a[0] == name else None


def uncast(t):
    while t.k == "app" and str(t.a[0]).startswith("cast:"):
        t = t.a[1]
    return t


def known(t):
    """made of modelled operations only"""
    return all(isinstance(x.a[0], str) for x in atoms(t))


def ccalls(ctx):
    p = ctx.prog
    ex = capi.exported(p)
    for name, (m, want) in sorted(CT.items()):
        f = ex.get(name)
        tgt = p.method("ConnectionParser", m)
        if f is None or len(tgt) != 1:
            ctx.violation("anchor:" + name, "the exported function %s is gone" % name)
            continue
        names = [f.locals[i + 1].get("n") or "a%d" % i for i in range(f.argc)]
        if not set(want.values()) <= set(names):
            ctx.violation("anchor:" + name, "%s no longer takes %s" % (f.where(), ", ".join(sorted(set(want.values()) - set(names)))))
            continue
        for nulls in ((), ("timestamp",), ("client_addr",), ("server_addr",)):
            if not set(nulls) <= set(names):
                continue
            seen = []

            def stub(ai, fr, st, c):
                seen.append((tuple(c.args), st))
                return [(mk("sym", "result"), st)]
            args, objt = [], {}
            for i, n in enumerate(names):
                t = f.locals[i + 1]["ty"]
                if t.startswith("*"):
                    if n not in nulls:
                        objt[n] = ty_base(t)
                    args.append(NULL if n in nulls else REF(("o", n)))
                else:
                    args.append(mk("sym", "arg:" + n))
            ai = AI(p, monitor=CMon(), objtypes=objt, tracked_all=True, step_cap=60000, intrinsics={tgt[0].id: stub}, inline_small=48)
            ai.run(f.id, args, St({}, {}, None))
            ctx.used(ai)
            if not seen:
                ctx.violation("c:%s:call" % name, "%s does not call ConnectionParser::%s" % (f.where(), m))
            given = set()
            for av, st in seen:
                for i, par in want.items():
                    one(ctx, ai, st, f, name, par, av[i], nulls, given)
            for par in want.values():
                if par not in given and par not in nulls and seen:
                    ctx.violation("c:%s:%s:lost" % (name, par), "%s never passes the %s on" % (f.where(), par))


def one(ctx, ai, st, f, name, par, a, nulls, given):
    d = domset(ai, st, a, OPT)
    key = "c:%s:%s" % (name, par)
    ctx.ok("c", "%s %s" % (name, par))
    ctx.count("paths")
    if par in nulls:
        if d != {"None"}:
            ctx.violation(key + ":null", "%s passes %s as the %s although none was given" % (f.where(), show(a)[:60], par))
        return
    if d == {"None"}:
        v = mk("sym", "arg:" + par)
        if par.endswith("port") and ai.evalb(st, mk("app", "fits:u16", v)) != 0 and any(
                ai.assume(st.clone(), EQ(v, INT(k)), 1) for k in (0, 1, 80, 32768, 65535)):
            ctx.violation(key + ":none", "%s passes no %s although a valid one was given" % (f.where(), par))
        return
    given.add(par)
    x = project(a, ("v", "Some", "0"))
    if not known(x):
        return
    if par.endswith("port"):
        if uncast(x) is not mk("sym", "arg:" + par):
            ctx.violation(key, "%s passes %s as the %s" % (f.where(), show(x)[:80], par))
    elif par.endswith("addr"):
        t = x
        for w in ("addr", "text", "cstr"):
            t = inner(t, w) if t is not None else None
        if t is None or t.k != "ref" or t.a[0] != ("o", par):
            ctx.violation(key, "%s passes %s as the %s" % (f.where(), show(x)[:80], par))
    else:
        sec, us = (uncast(x.a[1].a[1]), uncast(x.a[2].a[1])) if x.k == "app" and x.a[0] == "sum" and x.a[1].k == x.a[2].k == "app" and \
            (x.a[1].a[0], x.a[2].a[0]) == ("time", "microseconds") else (None, None)

        def fieldof(t):
            return t.a[1][2] if t is not None and t.k == "proj" and isinstance(t.a[1], tuple) and t.a[1][0] == "f" else None
        if (fieldof(sec), fieldof(us)) != ("tv_sec", "tv_usec"):
            ctx.violation(key, "%s passes the time %s" % (f.where(), show(x)[:100]))
    ctx.count("c values")


# ---------------------------------------------------------------- new parsers
def fresh(ctx):
    p = ctx.prog
    f = P.one(ctx, "new")
    if f is not None and f.argc == 1:
        cfg = mk("sym", "cfg")
        ai = AI(p, tracked_all=True, step_cap=60000, inline_small=48)
        for ret, st in ai.run(f.id, [cfg], St({}, {}, None)):
            conn = project(ret, ("f", CP, "conn"))
            chan = project(conn, ("f", CN, "log_channel"))
            for x in ENDS:
                v = project(conn, ("f", CN, x))
                if v is not NONE:
                    ctx.violation("new:" + x, "%s: a new connection has the %s %s" % (f.where(), x, show(v)[:60]))
            for x in list(COUNT.values()) + ["flags"]:
                v = project(conn, ("f", CN, x))
                if v is not INT(0):
                    ctx.violation("new:" + x, "%s: a new connection's %s is %s" % (f.where(), x, show(v)[:60]))
            for what, lg in (("the parser", project(ret, ("f", CP, "logger"))),
                             ("its transactions", project(project(ret, ("f", CP, "transactions")), ("f", "transactions::Transactions", "logger")))):
                v = project(lg, ("f", LG, "level"))
                if v is not project(cfg, ("f", P.CFG, "log_level")):
                    ctx.violation("new:level:" + what, "%s: %s logs at %s instead of the configured level" % (f.where(), what, show(v)[:60]))
                v = project(lg, ("f", LG, "sender"))
                if not (v.k == "proj" and v.a[0] is chan):
                    ctx.violation("new:sender:" + what, "%s: %s logs to %s, not to the parser's connection" % (f.where(), what, show(v)[:60]))
                ctx.ok("new", what)
            ctx.count("paths")
        ctx.used(ai)
    f = P.one(ctx, "new", "Transaction")
    if f is not None:
        tys = [f.locals[i + 1]["ty"] for i in range(f.argc)]
        args = [mk("sym", "a%d" % i) for i in range(f.argc)]
        at = [i for i, t in enumerate(tys) if ty_base(t) == LG]
        if len(at) != 1:
            ctx.violation("anchor:tx", "%s no longer takes a logger" % f.where())
            return
        args[at[0]] = REF(("o", "logger"))
        ai = AI(p, tracked_all=True, objtypes={"logger": LG}, step_cap=60000, inline_small=48)
        for ret, st in ai.run(f.id, args, St({}, {}, None)):
            v = project(ret, ("f", P.TX, "logger"))
            for x in ("level", "sender"):
                g = project(v, ("f", LG, x))
                if g is not project(mk("sym", "logger"), ("f", LG, x)):
                    ctx.violation("tx:" + x, "%s: a new transaction's logger has the %s %s" % (f.where(), x, show(g)[:60]))
            ctx.ok("new", "transaction")
            ctx.count("paths")
        ctx.used(ai)


def run(ctx):
    ctx.rule = RULE
    fresh(ctx)
    opening(ctx)
    closing(ctx)
    feeding(ctx)
    logging(ctx)
    ccalls(ctx)
    ctx.floor("C values", ctx.counts.pop("c values", 0), 9)
    ctx.floor("paths", ctx.counts.get("paths", 0), 200)
