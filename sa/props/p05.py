"""Both data entry points are abstractly executed over every starting stream
status, with the processing steps replaced by their effect summaries (they may
change every field they write anywhere below and return any result).  An
automaton checks, at every step call and every return: no step runs on a
stream that is stopped, failed, tunnelled, or on an empty chunk of a stream
that is not closed; no step runs after one that did not succeed; and the
status reported and stored is the one the last step's outcome stands for."""
from absint import AI, St, mk, INT, REF, RES, SOME, NONE, OPT, EQ, LT, NOT, show, UNIT, ty_base
import parser as P
from parser import CP, SS, HS, ST, domset, fld

REFUSE = {"STOP": "STOP", "ERROR": "ERROR", "TUNNEL": "TUNNEL"}
QUIET_FIELDS = {"bytes_consumed"}
# the outcome of a step -> what the stream reports
OUTCOME = {"DATA": {"DATA"}, "DATA_BUFFER": {"DATA"}, "DATA_OTHER": {"DATA", "DATA_OTHER"}, "STOP": {"STOP"}}


class Mon(P.Base):
    """state: None before the first step, then (kind of the last step, its result term)"""

    def __init__(self, ctx, d, stubs, ignored, s0, gap, empty, hits):
        P.Base.__init__(self, ctx, d)
        self.d, self.stubs, self.ignored, self.s0, self.gap, self.empty = d, stubs, ignored, s0, gap, empty
        self.hits = hits

    def call(self, ai, fr, st, c):
        t = c.target
        if t not in self.stubs and t not in self.ignored:
            return None
        self.hits.add((fr.fn.id, t))
        if t in self.ignored:
            return [(mk("sym", "sent"), after(ai, st, st.mon, keep=True))]
        where = "%s (call of %s)" % (fr.where(), ai.p.fns[t].name)
        if self.s0 in REFUSE:
            self.bad("entered:" + self.s0, "%s processes data although the stream had reported %s" % (where, self.s0))
        if self.s0 != "CLOSED" and self.empty:
            self.bad("empty", "%s processes an empty chunk although the stream is not closed" % where)
        kind = self.stubs[t]
        if st.mon is not None:
            if domset(ai, st, RC, RES) != {"Ok"}:
                self.bad("after-error", "%s goes on although the previous step did not succeed" % where)
            elif kind == "step" or st.mon == "step":
                if "TUNNEL" in domset(ai, st, fld(ai, st, "connp", CP, self.d + "_status"), SS) and st.mon == "step":
                    self.bad("after-tunnel", "%s goes on although the stream became a tunnel" % where)
        if self.gap and kind == "step":
            cur = domset(ai, st, fld(ai, st, "connp", CP, self.d + "_state"), ST)
            for x in sorted(cur - GAP_OK[self.d]):
                self.bad("gap:" + x, "%s processes missing data in state %s" % (where, x))
        return [(RC, after(ai, st, kind))]

    def write(self, ai, fr, st, root, path, val):
        if root == ("o", "connp") and path and path[-1][2] in ("request_status", "response_status") and \
                not path[-1][2].startswith(self.d + "_"):
            old = domset(ai, st, fld(ai, st, "connp", CP, path[-1][2]), SS)
            new = domset(ai, st, val, SS)
            for x in sorted(old & {"STOP", "ERROR", "TUNNEL"}):
                if new != {x} or len(old) > 1:
                    self.bad("other:" + x, "%s sets %s to %s although that stream may have ended with %s" % (
                        fr.where(), path[-1][2], "/".join(sorted(new)), x))
        if root[0] == "o" and st.mon is None and path and self.s0 in ("STOP", "ERROR") and \
                path[-1][2] != self.d + "_bytes_consumed":
            self.bad("write:" + path[-1][2], "%s modifies %s although the stream has already reported %s" % (
                fr.where(), path[-1][2], self.s0))


RC = mk("sym", "rc")


def after(ai, st, mon, keep=False):
    """the state after a step: the parser is in any state, the result is any result"""
    s = st.clone()
    new = mk("sym", "connp-after")
    s.store[("o", "connp")] = new
    for o in ("req", "resp"):
        s.store.pop(("o", o), None)
    s.facts = {t: f for t, f in s.facts.items() if new not in _at(t) and (keep or (
        RC not in _at(t) and t is not EQ(chunklen(1), INT(0)) and t is not chunklen(1)))}
    s.mon = mon
    return s


def _at(t):
    from absint import atoms
    return atoms(t)


GAP_OK = {
    "request": {"BODY_IDENTITY", "IGNORE_DATA_AFTER_HTTP_0_9", "FINALIZE"},
    "response": {"BODY_IDENTITY_CL_KNOWN", "BODY_IDENTITY_STREAM_CLOSE", "FINALIZE"},
}


def chunklen(e):
    return mk("app", "chunklen", e)


def run(ctx):
    p = ctx.prog
    for d in P.DIRS:
        f = P.one(ctx, d + "_data")
        if f is not None:
            driver(ctx, p, d, f)
    writes(ctx, p)


class WMon(P.Base):
    """every write to a stream status, with the status it replaces"""

    def __init__(self, ctx, f, side, n):
        P.Base.__init__(self, ctx, "write")
        self.f, self.side, self.n = f, side, n

    def write(self, ai, fr, st, root, path, val):
        if root != ("o", "connp") or not path or path[-1][0] != "f" or path[-1][1] != CP or \
                path[-1][2] not in ("request_status", "response_status"):
            return
        d = path[-1][2][:-7]
        old = domset(ai, st, fld(ai, st, "connp", CP, path[-1][2]), SS)
        new = domset(ai, st, val, SS)
        self.n.add((fr.fn.id, path[-1][2], tuple(sorted(new))))
        if new == old and len(new) == 1:
            return
        where = "%s (in %s)" % (fr.where(), self.f.name)
        key = "%s:%s:%s" % (fr.fn.name, d, "/".join(sorted(new)))
        if self.side is None:
            # open and close: from outside any processing
            if new == {"OPEN"} and old == {"NEW"} or new == {"CLOSED"} and "ERROR" not in old:
                return
            self.bad(key, "%s sets the %s stream from %s to %s" % (where, d, "/".join(sorted(old)), "/".join(sorted(new))))
        elif d not in self.side or len(self.side) > 1:
            for x in sorted(old & {"STOP", "ERROR"}):
                self.bad(key + ":" + x, "%s sets the %s stream to %s although it may have ended with %s" % (
                    where, d, "/".join(sorted(new)), x))


def writes(ctx, p):
    fields = {(CP, "request_status"), (CP, "response_status")}
    w = {fid for fid, (rd, wr) in p.touches().items() if wr & fields and not p.is_test(p.fns[fid])}
    reach = {d: p.reach(p.method("ConnectionParser", d + "_data")) for d in P.DIRS}
    drivers = {f.id for d in P.DIRS for f in p.method("ConnectionParser", d + "_data")}
    n = set()
    for fid in sorted(w):
        f = p.fns[fid]
        a = [f.locals[i + 1]["ty"] for i in range(f.argc)]
        if fid in drivers or not a or ty_base(a[0]) != CP or not a[0].startswith("&"):
            if fid not in drivers and not (f.locals[0]["ty"].endswith("ConnectionParser")):
                if f.kind != "closure":
                    ctx.violation("write:%s" % f.name, "%s modifies a stream status outside the parser's methods" % f.where())
            continue
        # which data calls lead here (for helpers of open/close: none)
        side = {d for d in P.DIRS if fid in reach[d]} or None
        mon = WMon(ctx, f, side, n)
        ix = P.log_intrinsics(p)
        ix.update(P.tx_intrinsics(p))
        ai = AI(p, monitor=mon, objtypes={"connp": CP, "req": P.TX, "resp": P.TX}, tracked=fields, relevant=w - drivers,
                opaque=drivers, intrinsics=ix, step_cap=200000, state_cap=400)
        args = [REF(("o", "connp"))] + [mk("sym", "arg%d" % i) for i in range(1, f.argc)]
        ai.run(fid, args, St({}, {}, None))
        ctx.used(ai)
        ctx.ok("status writer", f.name)
    ctx.floor("status writes outside the data calls", len(n), 6)


def driver(ctx, p, d, f):
    # steps: chunk-processing functions; dispatchers (which only choose among them) are looked through
    steps = {g.id for g in p.code() if P.is_step(g)}
    disp = {g for g in steps if len({x for x in p.calls_of(g) if x in steps}) >= 8}
    sendd = {g for g in steps if p.fns[g].name.endswith("receiver_send_data")}
    stubs = {g: ("change" if "state_change" in p.fns[g].name else "step") for g in steps - disp - sendd}
    hits, seen = set(), set()
    for s0 in p.variants(SS):
        for gap in (0, 1):
            for empty in (0, 1):
                one(ctx, p, d, f, Mon(ctx, d, stubs, sendd, s0, gap, empty, hits), disp, seen)
    ctx.floor("%s step call sites" % d, len({h for h in hits if h[1] in stubs}), 2)
    for need in ("DATA", "DATA_BUFFER", "DATA_OTHER", "STOP", "ERROR", "TUNNEL"):
        if need not in seen:
            ctx.violation("%s:missing:%s" % (d, need), "%s has no path for the outcome %s" % (f.where(), need))
        ctx.ok(d + " outcome", need)


def one(ctx, p, d, f, mon, disp, seen):
    s0, gap, empty = mon.s0, mon.gap, mon.empty
    ix = P.log_intrinsics(p)
    ix.update(P.tx_intrinsics(p))
    for g in p.method("ParserData", "is_gap"):
        ix[g.id] = lambda ai, fr, st, c: [(INT(gap), st)]
    for g in p.method("ParserData", "len"):
        ix[g.id] = lambda ai, fr, st, c: [(chunklen(0 if st.mon is None else 1), st)]
    ai = AI(p, monitor=mon, objtypes={"connp": CP, "req": P.TX, "resp": P.TX}, tracked_all=True, intrinsics=ix,
            step_cap=200000, state_cap=4000, force_inline=disp)
    st = St({}, {}, None)
    ai.restrict(st, mk("proj", mk("sym", "connp"), ("f", CP, d + "_status")), "in", frozenset((s0,)), SS)
    ai.assume(st, EQ(chunklen(0), INT(0)), empty)
    outs = ai.run(f.id, [REF(("o", "connp")), mk("sym", "chunk"), mk("sym", "arg:ts")], st)
    ctx.used(ai)
    ctx.count("paths", len(outs))
    for ret, st in outs:
        rets = domset(ai, st, ret, SS)
        nowd = domset(ai, st, fld(ai, st, "connp", CP, d + "_status"), SS)
        R, N = "/".join(sorted(rets)), "/".join(sorted(nowd))
        if st.mon is None:
            if s0 in ("STOP", "ERROR"):
                want = {s0}
            elif s0 != "CLOSED" and empty:
                want = {"CLOSED"}
            elif s0 == "TUNNEL":
                want = {"TUNNEL"}
            elif gap:
                want = {"ERROR", "CLOSED"}
            else:
                # no step belongs to the current state: a permanent error
                want = {"ERROR"}
                if nowd != {"ERROR"}:
                    mon.bad("no-processing:" + s0, "%s reports %s (stored %s) from status %s without processing the data" % (
                        f.where(), R, N, s0))
            if not rets <= want:
                mon.bad("refusal:" + s0, "%s reports %s instead of %s for a chunk given to a stream in status %s" % (
                    f.where(), R, "/".join(sorted(want)), s0))
            if s0 in REFUSE and nowd != {s0}:
                mon.bad("sticky:" + s0, "%s leaves status %s after refusing data in status %s" % (f.where(), N, s0))
            continue
        ctx.ok(d + " end", "%s after a step" % R)
        rd = domset(ai, st, RC, RES)
        if rd == {"Ok"}:
            # only a tunnel, or a gap refused in the state reached, ends the loop on success;
            # or no step belongs to the state reached
            if gap and rets == {"CLOSED"} or rets == {"ERROR"} == nowd:
                continue
            seen.add("TUNNEL")
            if rets != {"TUNNEL"} or nowd != {"TUNNEL"}:
                mon.bad("stops-early", "%s stops processing with status %s (stored %s) after a step that succeeded" % (
                    f.where(), R, N))
            continue
        if "Ok" in rd:
            mon.bad("unchecked", "%s returns %s without looking at the outcome of a step" % (f.where(), R))
            continue
        for e in sorted(domset(ai, st, P.err_of(RC), HS)):
            want = OUTCOME.get(e, {"ERROR"})
            seen.add(e)
            if e == "DATA_OTHER":
                em = ai.evalb(st, EQ(chunklen(1), INT(0)))
                if em is not None:
                    want = {"DATA"} if em else {"DATA_OTHER"}
                elif len(rets) > 1 or rets == {"DATA_OTHER"}:
                    mon.bad("data-other", "%s reports %s whether or not unconsumed data is left" % (f.where(), R))
            if not rets <= want:
                mon.bad("outcome:" + e, "%s reports %s when a step ended with %s (expected %s)" % (
                    f.where(), R, e, "/".join(sorted(want))))
            if nowd != rets:
                mon.bad("stored:" + e, "%s reports %s but keeps status %s after a step ended with %s" % (
                    f.where(), R, N, e))
