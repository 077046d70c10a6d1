"""The three hook dispatchers are analysed on every path with an automaton
over the callback list: every element drawn from the list is called exactly
once before the next one is drawn, with the documented arguments; `OK` and
`DECLINED` (external status or native error) go on to the next callback, any
other outcome ends the dispatch at once and is returned unchanged; success is
only returned when the list is exhausted."""
import expect as X
from absint import AI, Monitor, St, mk, INT, REF, OPT, RES, show, SOME, NONE, project, ty_base, Budget, showroot

HS = "HtpStatus"
LIMIT = 4


class Mon(Monitor):
    """state: (phase, pending index, outcome term, calls)
    phase: idle | drawn | called | end"""

    def __init__(self, ctx, label, base, want):
        self.ctx, self.label, self.base, self.want = ctx, label, base, want
        self.kinds = set()
        self.draws = 0

    def bad(self, key, msg):
        self.ctx.violation("%s:%s" % (self.label, key), msg)

    def _closed(self, ai, fr, st):
        """the callback called last must have returned OK or DECLINED when dispatch goes on"""
        ph, ix, res, n = st.mon
        if ph == "called" and not goes_on(ai, st, res):
            self.bad("continue", "%s goes on after a callback returned something other than OK or DECLINED" % fr.where())
        if ph == "drawn":
            self.bad("skip", "%s moves on without calling the callback it has taken from the list" % fr.where())

    def iternext(self, ai, fr, st, it, ix):
        if it.a[0] == "siter" and it.a[1] is not self.base:
            return None
        if it.a[0] == "riter" and not (it.a[1] is INT(0) and it.a[2] is ai.length(fr, st, self.base)):
            self.bad("range", "%s iterates over something other than the whole callback list" % fr.where())
        self._closed(ai, fr, st)
        self.draws += 1
        if ix is None:
            st.mon = ("end", None, None, 0)
        else:
            st.mon = ("drawn", ix, None, 0)

    def indirect(self, ai, fr, st, c, fv, args):
        ph, ix, res, n = st.mon
        kind = None
        v = fv
        if v.k == "proj" and v.a[1][0] == "v" and v.a[1][1] in ("External", "Native"):
            kind = v.a[1][1]
            v = v.a[0]
        idx = v.a[1][1] if v.k == "proj" and v.a[1][0] == "i" else None
        if kind is None or idx is None:
            self.bad("callee", "%s calls %s, which is not an element of the callback list" % (fr.where(), show(fv)))
            return None
        place = v.a[0]
        if place is not ai.deref(fr, st, self.base):
            self.bad("callee", "%s calls an element of another list (%s)" % (fr.where(), show(place)))
        if idx.k == "int":
            # hand-written index loop: must be the next one in order
            self._closed(ai, fr, st)
            if idx.a[0] != n:
                self.bad("order", "%s calls callback %s when callback %d is next" % (fr.where(), show(idx), n))
            if n >= LIMIT:
                return []
            n += 1
        elif ph != "drawn" or idx is not ix:
            self.bad("once", "%s calls a callback a second time or out of turn" % fr.where())
        self.kinds.add(kind)
        for i, (got, exp) in enumerate(zip(args, self.want[kind])):
            if not exp(ai, fr, st, got):
                self.bad("args:%s:%d" % (kind, i), "%s: argument %d of the %s callback is %s" % (
                    fr.where(), i + 1, kind.lower(), show(got)))
        if len(args) != len(self.want[kind]):
            self.bad("args:%s" % kind, "%s passes %d arguments" % (fr.where(), len(args)))
        st = st.clone()
        r = ai.fresh(fr, st, "cb")
        st.mon = ("called", ix, mk("outcome", kind, r), n)
        return [(r, st)]


def goes_on(ai, st, o):
    kind, r = o.a
    if kind == "External":
        d = ai.dom(st, r, HS)
        return d[0] == "in" and d[1] <= {"OK", "DECLINED"}
    d = ai.dom(st, r, RES)
    if d == ("in", frozenset(("Ok",))):
        return True
    e = ai.dom(st, project(r, ("v", "Err", "0")), HS)
    return e[0] == "in" and e[1] <= {"DECLINED", "OK"}


def run(ctx):
    p = ctx.prog
    fns = [f for f in p.code() if f.name == "run_all" and f.file.endswith("hook.rs") and f.kind == "fn" or
           (f.name == "run_all" and f.argc >= 2 and ty_base(f.locals[1]["ty"]) == "hook::Hook")]
    seen = {}
    for f in fns:
        tys = [ty_base(f.locals[i + 1]["ty"]) for i in range(f.argc)]
        k = "tx" if "connection_parser::ConnectionParser" in tys and "usize" in tys else \
            "data" if "transaction::Data" in tys else "log" if "log::Log" in tys else None
        if k:
            seen[k] = f
    ctx.floor("dispatchers", len(seen), 3)
    isref = lambda n: (lambda ai, fr, st, v: v is REF(("o", n)))
    found = mk("app", "tx-lookup")
    data_tx = lambda ai, fr, st, v: v is mk("proj", mk("sym", "data"), ("f", "transaction::Data", "tx"))
    pd = lambda ai, fr, st, v: v is mk("proj", mk("sym", "data"), ("f", "transaction::Data", "data"))
    want = {
        "tx": {"External": [isref("connp"), lambda ai, fr, st, v: v is mk("proj", found, "tx")],
               "Native": [lambda ai, fr, st, v: v is mk("proj", found, "tx")]},
        "data": {"External": [isref("connp"), isref("data")], "Native": [data_tx, pd]},
        "log": {"External": [isref("log")], "Native": [isref("log")]},
    }
    for k, f in sorted(seen.items()):
        objt = {"hook": "hook::Hook"}
        args = [REF(("o", "hook"))]
        for i in range(1, f.argc):
            t = f.locals[i + 1]["ty"]
            b = ty_base(t)
            n = {"connection_parser::ConnectionParser": "connp", "transaction::Data": "data", "log::Log": "log"}.get(b)
            if n and t.startswith(("&", "*")):
                objt[n] = b
                args.append(REF(("o", n)))
            else:
                args.append(mk("sym", "arg:index"))
        hk = X.Obj(p, "hook", "hook::Hook")
        base = hk.ref("callbacks")
        mon = Mon(ctx, k, base, want[k])
        ix = {}
        miss = []

        def lookup(ai, fr, st, c):
            if c.args[-1] is not mk("sym", "arg:index"):
                mon.bad("lookup", "%s looks up transaction %s" % (fr.where(), show(c.args[-1])))
            return [((SOME(mk("proj", found, "tx")) if v else NONE), s) for v, s in ai.branch(st, found)]
        for g in p.method("ConnectionParser", "tx_mut") + p.method("ConnectionParser", "tx") + \
                p.method("Transactions", "get_mut") + p.method("Transactions", "get"):
            ix[g.id] = lookup
        ai = AI(p, monitor=mon, objtypes=objt, tracked_all=True, step_cap=200000, intrinsics=ix, state_cap=4000)
        outs = ai.run(f.id, args, St({}, {}, ("idle", None, None, 0)))
        ctx.used(ai)
        if mon.kinds != {"External", "Native"}:
            mon.bad("kinds", "%s never calls %s callbacks" % (f.where(), ", ".join({"External", "Native"} - mon.kinds)))
        nend = 0
        for ret, st in outs:
            ph, i, res, n = st.mon
            for v, s in ai.cases(st, ret, RES):
                if v == "Ok":
                    if k == "tx" and ai.evalb(s, found) == 0:
                        if ph != "idle":
                            mon.bad("notx", "%s calls callbacks without a transaction" % f.where())
                        continue
                    if ph == "end":
                        nend += 1
                    elif ph == "drawn":
                        mon.bad("early", "%s returns success with a callback not called" % f.where())
                    elif n and ph == "called" or ph == "idle":
                        # index loop: only when the index has reached the length
                        if ph == "called" and not goes_on(ai, s, res):
                            mon.bad("swallow", "%s returns success although a callback failed" % f.where())
                        ln = ai.length(None, s, base)
                        if ai.evalb(s, mk("op", "Lt", INT(n), ln) if n else EQ0(ln)) != (0 if n else 1):
                            mon.bad("early", "%s returns success before the list is exhausted" % f.where())
                        nend += 1
                    else:
                        mon.bad("early", "%s returns success right after a callback, before the list is exhausted" % f.where())
                else:
                    e = ret.a[2][0][1] if ret.k == "agg" else project(ret, ("v", "Err", "0"))
                    if ph != "called":
                        mon.bad("spurious", "%s returns an error no callback gave" % f.where())
                        continue
                    kind, r = res.a
                    w = r if kind == "External" else project(r, ("v", "Err", "0"))
                    if e is not w and not (e.k == "agg" and ai.dom(s, w, HS) == ("in", frozenset((e.a[1],)))):
                        mon.bad("status", "%s returns %s instead of the callback's own status" % (f.where(), show(e)))
                    d = ai.dom(s, w, HS)
                    # (a native callback failing with `OK` is not a meaningful outcome: either way)
                    if d[0] == "in" and d[1] & {"DECLINED"} or kind == "External" and d[0] == "in" and "OK" in d[1] or \
                            d[0] != "in":
                        mon.bad("stop", "%s stops the dispatch on %s" % (f.where(), sorted(map(str, d[1])) or "any status"))
        if not nend:
            mon.bad("noend", "%s has no path that runs the whole list" % f.where())
        ctx.ok("dispatcher", k)
        ctx.count("paths", len(outs))
        for kk in mon.kinds:
            ctx.ok("callback kind", "%s %s" % (k, kk))


def EQ0(t):
    from absint import EQ
    return EQ(t, INT(0))
