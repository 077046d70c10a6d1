"""Error-flow analysis of every function on a path from the data entry points
to a callback: each call that can fail with a status (callback dispatch or
another function of the parser) is given an arbitrary outcome; on every path
on which it fails, the function must perform no further fallible call and must
return that very status.  Together with the status contract of the entry
points (P05) and of callback dispatch (P04) a callback's answer therefore
reaches the caller of the data call unchanged."""
from absint import AI, St, mk, INT, REF, RES, NONE, OK, ERR, UNIT, show, ty_base, project, Budget
import parser as P
from parser import CP, HS, domset

FALLIBLE = RES + "<"
# outcomes that are deliberately not acted upon (caller, callee): reason
EXCEPT = {
    ("state_response_complete", "response_body_data"): "end of body: no data is delivered (only with no data)",
    ("flush_incomplete_transactions", "run_all"): "after the connection is closed there is no stream to stop",
}


HOOKED = set()


def fallible(f):
    r = f.locals[0]["ty"]
    return f.kind == "fn" and f.id in HOOKED and r.startswith(FALLIBLE) and r.endswith(", HtpStatus>")


class Mon(P.Base):
    def __init__(self, ctx, f, sites):
        P.Base.__init__(self, ctx, f.name)
        self.f, self.sites = f, sites

    def call(self, ai, fr, st, c):
        t = c.target
        g = ai.p.fns.get(t)
        if g is None or not fallible(g):
            return None
        key = (self.f.name, g.name)
        if key in EXCEPT:
            if key[1] != "response_body_data" or c.args[1] is NONE:
                return ai.opaque_local(fr, st, c, t)
        self.sites.add((fr.fn.id, fr.blk))
        if st.mon is not None:
            self.bad(st.mon, "%s calls %s although %s failed" % (fr.where(), g.name, st.mon))
        res = []
        for r, s in ai.opaque_local(fr, st, c, t):
            s1 = s.clone()
            s1.mon = None
            res.append((OK(UNIT if "<(), " in g.locals[0]["ty"] else project(r, ("v", "Ok", "0"))), s1))
            s2 = s.clone()
            s2.mon = g.name
            res.append((ERR(ERRSYM), s2))
        return res


ERRSYM = mk("sym", "status-of-failed-call")


def run(ctx):
    p = ctx.prog
    drivers = {f.id for d in P.DIRS for f in p.method("ConnectionParser", d + "_data")}
    reach = p.reach(drivers) | p.reach(p.method("ConnectionParser", "close"))
    hooks = {f.id for f in p.code() if f.name == "run_all"}
    rev_ok = {fid for fid in reach if hooks & p.reach([fid])}
    ctx.floor("functions that can run callbacks", len(rev_ok), 35)
    HOOKED.clear()
    HOOKED.update(f.id for f in p.code() if f.id in hooks or hooks & p.reach([f.id]))
    sites = set()
    n = 0
    for fid in sorted(rev_ok - drivers - hooks):
        f = p.fns[fid]
        if f.kind != "fn" or p.is_test(f):
            continue
        if not any(x in p.fns and fallible(p.fns[x]) for x in closure_calls(p, fid)):
            continue
        n += 1
        one(ctx, p, f, sites)
    ctx.floor("functions with fallible calls", n, 28)
    ctx.floor("fallible call sites", len(sites), 60)


def closure_calls(p, fid):
    """direct callees, looking through the function's own closures"""
    out = set()
    for x in p.calls_of(fid):
        out.add(x)
        if p.fns[x].kind == "closure":
            out |= closure_calls(p, x)
    return out


def one(ctx, p, f, sites):
    mon = Mon(ctx, f, sites)
    objt, args = {}, []
    for i in range(f.argc):
        t = f.locals[i + 1]["ty"]
        nm = f.locals[i + 1].get("n") or "a%d" % i
        b = ty_base(t)
        if t.startswith("&") and b in p.adts:
            objt[nm] = b
            args.append(REF(("o", nm)))
        else:
            args.append(mk("sym", "arg:" + nm))
    objt.update({"req": P.TX, "resp": P.TX})
    ix = P.log_intrinsics(p)
    ix.update(P.tx_intrinsics(p))
    fall = {g.id for g in p.code() if fallible(g)}
    ai = AI(p, monitor=mon, objtypes=objt, tracked=set(), relevant=fall, intrinsics=ix, step_cap=300000, state_cap=300)
    outs = ai.run(f.id, args, St({}, {}, None))
    ctx.used(ai)
    for ret, st in outs:
        if st.mon is None:
            continue
        callee = st.mon
        rty = f.locals[0]["ty"]
        if not rty.startswith(FALLIBLE):
            mon.bad(callee, "%s drops the outcome of %s" % (f.where(), callee))
            continue
        if domset(ai, st, ret, RES) != {"Err"}:
            mon.bad(callee, "%s can return success although %s failed" % (f.where(), callee))
            continue
        if rty.endswith(", HtpStatus>"):
            got = P.err_of(ret)
            if got is not ERRSYM and not (got.k == "agg" and domset(ai, st, ERRSYM, HS) == {got.a[1]}):
                mon.bad(callee + ":status", "%s reports %s instead of the status %s failed with" % (
                    f.where(), show(got), callee))
    ctx.ok("function", f.name)
