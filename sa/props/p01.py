"""Every exported C function is abstractly executed for every combination of
NULL and non-NULL pointer arguments (functions documented to require
initialised arguments are exempt for those).  No path may dereference NULL,
hand NULL to a callee that dereferences it, or panic because of it; and when
the object a function works on is NULL it must return its documented neutral
value on every path and modify nothing."""
import capi
from absint import NULL, INT, UNIT, Budget, show

# what a function returns when its object (or a required second argument) is NULL
DEFAULT = {"i64": -1, "isize": -1, "u64": 0}
SPECIAL = {
    "htp_tx_is_protocol_0_9": 0, "htp_tx_is_http_2_upgrade": 0, "htp_tx_data_is_empty": 1,
}
# pointers that are optional inputs, not the object worked on
OPTIONAL = {"timestamp", "data", "user_data", "client_addr", "server_addr"}


def neutral(f):
    t = f.locals[0]["ty"]
    if f.name in SPECIAL:
        return INT(SPECIAL[f.name])
    if t == "()":
        return UNIT
    if t.startswith("*"):
        return NULL
    if t in DEFAULT:
        return INT(DEFAULT[t])
    if t == "i32":
        return INT(-1)
    return ("variant", "ERROR")


def run(ctx):
    ex = capi.exported(ctx.prog)
    ctx.floor("exported_functions", len(ex), 152)
    ncombo = 0
    for name, f in sorted(ex.items()):
        for nulls in capi.combos(f):
            if not nulls:
                continue
            ncombo += 1
            what = "%s(%s = NULL)" % (name, ", ".join(sorted(nulls)))
            try:
                r = capi.Run(ctx.prog, f, nulls)
            except Budget:
                ctx.violation("budget:" + name, "%s: analysis budget exceeded" % what)
                continue
            ctx.used(r.ai)
            for kind, msg in r.mon.ev:
                ctx.violation("%s:%s:%s" % (kind, name, "+".join(sorted(nulls))), "%s: %s" % (what, msg))
            main = nulls - OPTIONAL
            if main and name not in ("htp_connp_create",):
                exp = neutral(f)
                if not r.outs:
                    ctx.violation("noreturn:" + name, "%s never returns" % what)
                for ret, st in r.outs:
                    if isinstance(exp, tuple):
                        ok = ret.k == "agg" and ret.a[1] == exp[1]
                    elif exp is UNIT:
                        ok = True
                    else:
                        ok = ret is exp
                    if not ok:
                        ctx.violation("neutral:%s:%s" % (name, "+".join(sorted(main))),
                                      "%s returns %s instead of the documented neutral value %s (%s)" % (
                                          what, show(ret), exp[1] if isinstance(exp, tuple) else show(exp), f.where()))
                w = capi.writes_desc(r)
                if w:
                    ctx.violation("effect:%s:%s" % (name, "+".join(sorted(main))),
                                  "%s modifies %s (%s)" % (what, ", ".join(w), f.where()))
            ctx.ok("null-combination", what)
    ctx.floor("null_combinations", ncombo, 170)
    ctx.assume += ["std functions given a raw pointer either test it for NULL (is_null, as_ref, as_mut) or dereference it",
                   "documented exemptions: " + ", ".join(sorted(capi.NONNULL))]
