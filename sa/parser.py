"""Harness for analysing the parser itself: the connection parser, the current
request/response transactions and the data chunk as named abstract objects,
and models of the operations the per-function analyses treat as primitive
(transaction lookup, callbacks, logging, the data chunk)."""
import re

import expect as X
from absint import AI, Monitor, St, mk, INT, REF, OPT, RES, SOME, NONE, UNIT, ty_base, project, show, EQ, LT, NOT, OK, ERR

CP, TX, PD, CFG = ("connection_parser::ConnectionParser", "transaction::Transaction", "connection_parser::ParserData",
                   "config::Config")
SS, HS, ST = "connection_parser::HtpStreamState", "HtpStatus", "connection_parser::State"
DIRS = ("request", "response")


def cp_fn(p, name):
    return p.method("ConnectionParser", name)


def one(ctx, name, ty="ConnectionParser"):
    r = ctx.prog.method(ty, name)
    if len(r) != 1:
        ctx.violation("anchor:" + name, "the function %s::%s this property is about is gone" % (ty, name))
        return None
    return r[0]


def sig(f):
    return [f.locals[i + 1]["ty"] for i in range(f.argc)], f.locals[0]["ty"]


def is_step(f):
    """ConnectionParser method working on a data chunk (or nothing) and returning Result<()>"""
    a, r = sig(f)
    return f.kind == "fn" and a and ty_base(a[0]) == CP and a[0].startswith("&") and "mut" in a[0][:12] and \
        all(ty_base(x) == PD for x in a[1:]) and r.startswith(RES + "<(), ")


def hook_name(v):
    """name of the hook field a callback list term comes from"""
    seen = 0
    while v is not None and seen < 40:
        seen += 1
        if v.k == "ref":
            for e in reversed(v.a[1]):
                if e[0] == "f" and ("hook" in e[2]):
                    return e[2]
            r = v.a[0]
            if r[0] == "d":
                v = r[1]
                continue
            return None
        if v.k == "proj":
            e = v.a[1]
            if isinstance(e, tuple) and e[0] == "f" and "hook" in e[2]:
                return e[2]
            v = v.a[0]
            continue
        if v.k == "app":
            v = v.a[1] if len(v.a) > 1 and hasattr(v.a[1], "k") else None
            continue
        return None
    return None


def domset(ai, st, t, adt):
    d = ai.dom(st, t, adt)
    if d[0] == "in":
        return set(d[1])
    return set(ai.p.variants(adt)) - set(d[1])


def fld(ai, st, obj, ty, name):
    """current abstract value of a field of a named object"""
    return ai.read(None, st, ("o", obj), (("f", ty, name),))


def err_of(ret):
    return ret.a[2][0][1] if ret.k == "agg" else project(ret, ("v", "Err", "0"))


def has(x, name):
    return mk("app", "has", name)


class Base(Monitor):
    """monitor with the common primitives; ctx/label give violation keys"""

    def __init__(self, ctx, label):
        self.ctx, self.label = ctx, label

    def bad(self, key, msg):
        self.ctx.violation("%s:%s" % (self.label, key), msg)


def log_intrinsics(p):
    def nolog(ai, fr, st, c):
        return [(UNIT, st)]
    return {f.id: nolog for f in p.method("Logger", "log")}


def tx_intrinsics(p, live=None):
    """transaction lookup: present or absent, always the same object per direction.
    With `live` the lookup is taken to succeed (the current transaction exists or is created)."""
    r = {}

    def mkh(name):
        def h(ai, fr, st, c):
            if live:
                return [(SOME(REF(("o", name))), st)]
            return [((SOME(REF(("o", name))) if v else NONE), s) for v, s in ai.branch(st, mk("app", "has", name))]
        return h
    for n, ms in (("req", ("request", "request_mut")), ("resp", ("response", "response_mut"))):
        for m_ in ms:
            for f in p.method("ConnectionParser", m_) + p.method("Transactions", m_):
                r[f.id] = mkh(n)
    return r
