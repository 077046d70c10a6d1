"""The parser's state machines are extracted from the code: for every parser
state and transaction progress that can be reached, the processing step
dispatched for that state is abstractly executed with everything else
unconstrained, giving all (events run, next state, next progress) outcomes in
which no callback failed.  The resulting finite transition system is explored
from the idle state together with the per-transaction event history, and every
transition is checked against the life-cycle rules."""
from absint import AI, St, mk, INT, REF, RES, SOME, NONE, OK, ERR, UNIT, AGG, show, ty_base
import parser as P
from parser import CP, TX, PD, CFG, ST, domset, fld, hook_name

EV = {
    "request": {"hook_request_start": "start", "hook_request_uri_normalize": "uri", "hook_request_line": "line",
                "hook_request_headers": "headers", "hook_request_trailer": "trailer", "hook_request_complete": "complete",
                "hook_request_body_data": "body", "hook_transaction_complete": "txcomplete"},
    "response": {"hook_response_start": "start", "hook_response_line": "line", "hook_response_headers": "headers",
                 "hook_response_trailer": "trailer", "hook_response_complete": "complete",
                 "hook_response_body_data": "body", "hook_transaction_complete": "txcomplete"},
}
# events of one transaction in one direction happen in this order, each at most once;
# body data comes after the start of the message and before its completion
ORDER = {"request": ["start", "uri", "line", "headers", "trailer", "complete", "txcomplete"],
         "response": ["start", "line", "headers", "trailer", "complete", "txcomplete"]}


def tracked(p):
    hk = {(a, f["name"]) for a in (CFG, TX, CP) for f in p.adts[a]["variants"][0]["fields"] if "hook" in f["name"]}
    return hk | {(CP, "request_state"), (CP, "response_state"), (TX, "request_progress"), (TX, "response_progress"),
                 (CP, "cfg"), (TX, "cfg"), (TX, "index")}


class Mon(P.Base):
    """state: events run so far in this step; '!' marks a callback that failed"""

    def __init__(self, ctx, d, hooks, names):
        P.Base.__init__(self, ctx, d)
        self.d, self.hooks, self.names = d, hooks, names
        self.o = "req" if d == "request" else "resp"
        self.sites = set()

    def call(self, ai, fr, st, c):
        t = c.target
        if t not in self.hooks:
            return None
        recv = c.args[0]
        n = hook_name(recv) or hook_name(ai.deref(fr, st, recv))
        self.sites.add((fr.fn.name, n))
        ev = EV[self.d].get(n)
        if n is None:
            self.bad("unknown:" + fr.fn.name, "%s runs a callback list the analysis cannot identify (%s)" % (
                fr.where(), show(recv)))
        elif ev is None and "data" not in n and not n.endswith("receiver_hook"):
            self.bad("foreign:" + n, "%s runs %s while processing the %s" % (fr.where(), n, self.d))
        if ev is not None and self.hooks[t] == "tx":
            a = c.args[2]
            if a is not IDX(self.d) and a is not mk("proj", mk("sym", self.o), ("f", TX, "index")):
                self.bad("index:" + n, "%s runs %s for transaction %s instead of the current one" % (
                    fr.where(), n, show(a)))
        if ev == "txcomplete":
            for dd in P.DIRS:
                x = domset(ai, st, fld(ai, st, self.o, TX, dd + "_progress"), PROG(dd))
                if x != {"COMPLETE"}:
                    self.bad("txcomplete:" + dd, "%s reports the transaction complete while its %s may be in progress %s" % (
                        fr.where(), dd, "/".join(sorted(x))))
        s1 = st.clone()
        if ev is not None and not (st.mon and st.mon[-1] == ev == "body"):
            s1.mon = st.mon + (ev,)
        s2 = s1.clone()
        s2.mon = s1.mon + ("!",)
        return [(OK(UNIT), s1), (ERR(mk("sym", "cberr")), s2)]


SUSPEND = {"DATA", "DATA_BUFFER", "DATA_OTHER"}


def IDX(d):
    return mk("sym", "index-of-current-" + d)


def PROG(d):
    return "transaction::Htp%sProgress" % d.capitalize()


def machine(ctx, p, d):
    """(step, cache): step(state, progress) -> outcomes (events, state', progress')"""
    hooks = {}
    for f in p.code():
        if f.name == "run_all" and f.argc >= 2:
            tys = [ty_base(f.locals[i + 1]["ty"]) for i in range(f.argc)]
            hooks[f.id] = "tx" if "usize" in tys else "data" if "transaction::Data" in tys else "log"
    logs = {h for h, k in hooks.items() if k == "log"}
    hooks = {h: k for h, k in hooks.items() if k != "log"}
    tr = tracked(p)
    w = {fid for fid, (rd, wr) in p.touches().items() if wr & {x for x in tr if x[1].endswith(("_state", "_progress"))}}
    o = "req" if d == "request" else "resp"
    mon = Mon(ctx, d, hooks, None)
    ix = P.log_intrinsics(p)
    ix.update(P.tx_intrinsics(p))
    for dd in P.DIRS:
        for m in ("ConnectionParser", "Transactions"):
            for f in p.method(m, dd + "_index"):
                ix[f.id] = lambda ai, fr, st, c, dd=dd: [(IDX(dd), st)]
            for f in p.method(m, dd + "_next"):
                def nxt(ai, fr, st, c, dd=dd):
                    s = st.clone()
                    if dd == d:
                        if any(isinstance(e, tuple) for e in s.mon):
                            mon.bad("next-twice", "%s moves on by two transactions" % fr.where())
                        vals = tuple("|".join(sorted(domset(ai, s, fld(ai, s, o, TX, x + "_progress"), PROG(x))))
                                     for x in P.DIRS)
                        s.mon = s.mon + (("next",) + vals,)
                    else:
                        x = domset(ai, s, fld(ai, s, o, TX, dd + "_progress"), PROG(dd))
                        if x != {"COMPLETE"}:
                            mon.bad("skip:" + dd, "%s moves the %s side on although it is not complete" % (fr.where(), dd))
                    return [(ai.fresh(fr, s, "idx"), s)]
                ix[f.id] = nxt
    for f in p.method("ConnectionParser", "tx") + p.method("ConnectionParser", "tx_mut") + \
            p.method("Transactions", "get") + p.method("Transactions", "get_mut"):
        def look(ai, fr, st, c):
            a = c.args[-1]
            if a is not IDX(d) and a is not mk("proj", mk("sym", o), ("f", TX, "index")):
                mon.bad("lookup", "%s looks at transaction %s instead of the current one" % (fr.where(), show(a)))
            return [(SOME(REF(("o", o))), st)]
        ix[f.id] = look
    # these only build the decompressors: the callbacks they capture run when body data is processed
    build = {f.id for dd in P.DIRS for f in p.method("ConnectionParser", dd + "_initialize_decompressors")}
    for g in build:
        ix[g] = lambda ai, fr, st, c: [(OK(UNIT), s) for _, s in ai.opaque_local(fr, st, c, c.target)] + [
            (ERR(AGG(P.HS, "ERROR")), s) for _, s in ai.opaque_local(fr, st, c, c.target)]
    steps = p.method("ConnectionParser", "handle_%s_state" % d)
    cache = {}

    def step(s, pr):
        if (s, pr) in cache:
            return cache[s, pr]
        ai = AI(p, monitor=mon, objtypes={"connp": CP, "req": TX, "resp": TX, "data": PD}, tracked=tr,
                relevant=set(hooks) | w, intrinsics=ix, step_cap=400000, state_cap=600, opaque=build)
        st = St({}, {}, ())
        ai.restrict(st, mk("proj", mk("sym", "connp"), ("f", CP, d + "_state")), "in", frozenset((s,)), ST)
        ai.restrict(st, mk("proj", mk("sym", o), ("f", TX, d + "_progress")), "in", frozenset((pr,)), PROG(d))
        outs = ai.run(steps[0].id, [REF(("o", "connp")), REF(("o", "data"))], st)
        ctx.used(ai)
        res = set()
        for ret, q in outs:
            if q.mon and q.mon[-1] == "!":
                continue
            # any other failure than asking for more data ends the stream (P05)
            if domset(ai, q, ret, RES) == {"Err"} and not domset(ai, q, P.err_of(ret), P.HS) & SUSPEND:
                continue
            for s2 in domset(ai, q, fld(ai, q, "connp", CP, d + "_state"), ST):
                for p2 in domset(ai, q, fld(ai, q, o, TX, d + "_progress"), PROG(d)):
                    res.add((q.mon, s2, p2))
        cache[s, pr] = sorted(res, key=str)
        return cache[s, pr]
    return step, mon, steps


RANK = {"request": ["NOT_STARTED", "LINE", "HEADERS", "BODY", "TRAILER", "COMPLETE", "ERROR", "GAP"],
        "response": ["NOT_STARTED", "LINE", "HEADERS", "BODY", "TRAILER", "COMPLETE", "ERROR", "GAP"]}


def explore(ctx, p, d):
    step, mon, steps = machine(ctx, p, d)
    if len(steps) != 1:
        mon.bad("anchor", "the dispatcher of the %s states is gone" % d)
        return
    order = ORDER[d]
    init = ("IDLE", "NOT_STARTED", -1)
    todo, seen = [init], {init}
    parent = {init: None}
    trans = 0
    done = set()
    evs = set()
    while todo:
        node = todo.pop()
        s, pr, last = node
        for ev, s2, p2 in step(s, pr):
            trans += 1
            l = last
            where = "%s step for state %s (progress %s)" % (d, s, pr)
            names = [e if isinstance(e, str) else e[0] for e in ev]
            ok = True
            nextd = False
            for e in ev:
                if isinstance(e, tuple):
                    nextd = True
                    # moving on: the message must have been completed in this step
                    i = P.DIRS.index(d)
                    if e[1 + i] != "COMPLETE":
                        mon.bad("left:" + s, "%s moves on to the next transaction with progress %s" % (where, e[1 + i]))
                    if pr != "COMPLETE" and "complete" not in names:
                        mon.bad("left-silent:" + s, "%s moves on without the %s_complete callbacks" % (where, d))
                    if "COMPLETE" in e[2 - i].split("|") and "txcomplete" not in names:
                        mon.bad("no-txcomplete:" + s, "%s finishes a transaction without the transaction_complete callbacks" % where)
                    continue
                evs.add(e)
                if nextd:
                    mon.bad("late:" + e, "%s runs the %s callbacks after moving on" % (where, e))
                if e == "body":
                    if l < order.index("start") or l >= order.index("complete"):
                        mon.bad("body:" + s, "%s delivers body data %s" % (
                            where, "before the message starts" if l < 0 else "after it is complete"))
                    continue
                k = order.index(e)
                if k <= l and not (d == "response" and e == "line" and l == order.index("line")):
                    mon.bad("order:%s:%s" % (s, e), "%s runs the %s callbacks after %s (%s)" % (
                        where, e, order[l], path(parent, node)))
                if l < 0 and e != "start":
                    mon.bad("order:%s:%s" % (s, e), "%s runs the %s callbacks before start" % (where, e))
                l = max(k, l)
            if p2 == "COMPLETE" and not nextd:
                mon.bad("stuck:" + s, "%s leaves the transaction complete without moving on: it is completed again "
                        "when processing resumes" % where)
            if not nextd and RANK[d].index(p2) < RANK[d].index(pr) and not (
                    d == "response" and p2 == "LINE" and s == "BODY_DETERMINE" and pr in ("HEADERS", "LINE")):
                mon.bad("back:%s:%s" % (s, p2), "%s takes progress back from %s to %s (%s)" % (where, pr, p2, path(parent, node)))
            new = (s2, "NOT_STARTED", -1) if nextd else (s2, p2, l)
            if new not in seen:
                seen.add(new)
                parent[new] = (node, names)
                todo.append(new)
    ctx.count("transitions", trans)
    ctx.count("abstract parser configurations", len(seen))
    for e in order + ["body"]:
        if e not in evs:
            mon.bad("never:" + e, "no reachable step runs the %s callbacks of the %s" % (e, d))
        ctx.ok(d + " event", e)
    ctx.floor("%s callback sites" % d, len(mon.sites), len(order))
    for n in seen:
        ctx.ok(d + " configuration", str(n))


def path(parent, node):
    out = []
    while node is not None and len(out) < 12:
        out.append(node[0])
        x = parent[node]
        node = x[0] if x else None
    return " <- ".join(out)


def run(ctx):
    for d in P.DIRS:
        explore(ctx, ctx.prog, d)
