"""Semantics of the standard-library calls the crate is built from.

Each model maps a call to its outcomes [(result, state)]; returning None means
"not modelled" (the engine then havocs what the callee could change)."""
import re
from absint import (mk, INT, TRUE, FALSE, UNIT, NULL, AGG, SOME, NONE, OK, ERR, REF, NOT, EQ, LT, OPT, RES, CF, ORD,
                    arith, project, ty_base, many)

TABLE = {}


def m(*names):
    def d(f):
        for n in names:
            TABLE[n] = f
        return f
    return d


_norm = {}


def norm(path):
    """drop generic arguments: std::option::Option::<T>::map -> std::option::Option::map"""
    r = _norm.get(path)
    if r is None:
        r = re.sub(r"<impl ([^<>]*)>", r"\1", path)
        for _ in range(8):
            n = re.sub(r"::<[^<>]*>", "", r)
            if n == r:
                break
            r = n
        r = re.sub(r"^(core|alloc)::", "std::", r)
        _norm[path] = r
    return r


def model(ai, fr, st, c):
    if c.decl is None:
        return None
    n = norm(c.decl)
    f = TABLE.get(n)
    if f is None:
        mm = re.match(r"^std::num::([iu]\w+)::(\w+)$", n)
        if mm:
            return num(ai, fr, st, c, mm.group(1), mm.group(2))
        return None
    return f(ai, fr, st, c)


def one(v, st):
    return [(v, st)]


def pay(v, variant, i="0"):
    return project(v, ("v", variant, i))


# ------------------------------------------------------------------ Option / Result
def _enumcases(ai, st, v, adt):
    return ai.cases(st, v, adt)


def opt_method(names, fn):
    for n in names:
        TABLE["std::option::Option::" + n] = fn


def res_method(names, fn):
    for n in names:
        TABLE["std::result::Result::" + n] = fn


def _is(adt, variant, neg=False):
    def f(ai, fr, st, c):
        v = ai.deref(fr, st, c.args[0])
        if v.k == "agg" and v.a[1] is not None:
            return one(INT(v.a[1] == variant), st)
        t = mk("is", v, frozenset((variant,)), adt)
        r = ai.evalb(st, t)
        return one(t if r is None else INT(r), st)
    return f


TABLE["std::option::Option::is_some"] = _is(OPT, "Some")
TABLE["std::option::Option::is_none"] = _is(OPT, "None")
TABLE["std::result::Result::is_ok"] = _is(RES, "Ok")
TABLE["std::result::Result::is_err"] = _is(RES, "Err")


def _unwrap(adt, good):
    def f(ai, fr, st, c):
        out = []
        for var, s in ai.cases(st, c.args[0], adt):
            if var == good:
                out.append((pay(c.args[0], good), s))
            elif ai.mon is not None:
                ai.mon.panic(ai, fr, s, "%s on %s" % (c.decl.rsplit("::", 1)[-1], var))
        return out          # the other case panics
    return f


for n in ("unwrap", "expect", "unwrap_unchecked"):
    TABLE["std::option::Option::" + n] = _unwrap(OPT, "Some")
    TABLE["std::result::Result::" + n] = _unwrap(RES, "Ok")
TABLE["std::result::Result::unwrap_err"] = _unwrap(RES, "Err")
TABLE["std::result::Result::expect_err"] = _unwrap(RES, "Err")


def _unwrap_or(adt, good):
    def f(ai, fr, st, c):
        return [((pay(c.args[0], good) if var == good else c.args[1]), s) for var, s in ai.cases(st, c.args[0], adt)]
    return f


TABLE["std::option::Option::unwrap_or"] = _unwrap_or(OPT, "Some")
TABLE["std::result::Result::unwrap_or"] = _unwrap_or(RES, "Ok")


def _unwrap_or_else(adt, good):
    def f(ai, fr, st, c):
        out = []
        for var, s in ai.cases(st, c.args[0], adt):
            if var == good:
                out.append((pay(c.args[0], good), s))
            else:
                a = [] if adt == OPT else [pay(c.args[0], "Err")]
                out += ai.call_value(fr, s, c, c.args[1], a)
        return out
    return f


TABLE["std::option::Option::unwrap_or_else"] = _unwrap_or_else(OPT, "Some")
TABLE["std::result::Result::unwrap_or_else"] = _unwrap_or_else(RES, "Ok")


def default_of(ai, fr, st, ty):
    ty = ty.strip()
    if ty.startswith("std::option::Option<"):
        return NONE
    if ty in ("bool", "u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize"):
        return INT(0)
    if ty == "()":
        return UNIT
    if ty.startswith(("std::vec::Vec<", "std::string::String", "bstr::Bstr", "&[")):
        return mk("app", "empty")
    return None


@m("std::option::Option::unwrap_or_default", "std::result::Result::unwrap_or_default")
def _uod(ai, fr, st, c):
    adt = OPT if "option" in c.decl else RES
    good = "Some" if adt == OPT else "Ok"
    out = []
    for var, s in ai.cases(st, c.args[0], adt):
        if var == good:
            out.append((pay(c.args[0], good), s))
        else:
            d = default_of(ai, fr, s, c.gargs[0] if c.gargs else "")
            out.append((d or mk("app", "default", mk("str", c.gargs[0] if c.gargs else "")), s))
    return out


def _map(adt, good, wrap):
    def f(ai, fr, st, c):
        out = []
        for var, s in ai.cases(st, c.args[0], adt):
            if var == good:
                for r, s2 in ai.call_value(fr, s, c, c.args[1], [pay(c.args[0], good)]):
                    out.append((wrap(r), s2))
            else:
                out.append((rebuild(c.args[0], adt, var), s))
        return out
    return f


def rebuild(v, adt, var):
    if adt == OPT and var == "None":
        return NONE
    return AGG(adt, var, pay(v, var))


TABLE["std::option::Option::map"] = _map(OPT, "Some", SOME)
TABLE["std::result::Result::map"] = _map(RES, "Ok", OK)
TABLE["std::result::Result::map_err"] = _map(RES, "Err", ERR)
TABLE["std::option::Option::and_then"] = _map(OPT, "Some", lambda r: r)
TABLE["std::result::Result::and_then"] = _map(RES, "Ok", lambda r: r)
TABLE["std::result::Result::or_else"] = _map(RES, "Err", lambda r: r)


@m("std::option::Option::inspect", "std::result::Result::inspect", "std::result::Result::inspect_err")
def _inspect(ai, fr, st, c):
    adt = OPT if "option" in c.decl else RES
    good = "Some" if adt == OPT else ("Err" if c.decl.endswith("inspect_err") else "Ok")
    out = []
    for var, s in ai.cases(st, c.args[0], adt):
        if var == good:
            r = ("l", fr.depth, "insp%d" % fr.blk)
            s = s.clone()
            s.store[r] = pay(c.args[0], good)
            for _, s2 in ai.call_value(fr, s, c, c.args[1], [REF(r)]):
                out.append((c.args[0], s2))
        else:
            out.append((c.args[0], s))
    return out


@m("std::option::Option::map_or", "std::result::Result::map_or")
def _map_or(ai, fr, st, c):
    adt = OPT if "option" in c.decl else RES
    good = "Some" if adt == OPT else "Ok"
    out = []
    for var, s in ai.cases(st, c.args[0], adt):
        if var == good:
            out += ai.call_value(fr, s, c, c.args[2], [pay(c.args[0], good)])
        else:
            out.append((c.args[1], s))
    return out


@m("std::option::Option::map_or_else", "std::result::Result::map_or_else")
def _map_or_else(ai, fr, st, c):
    adt = OPT if "option" in c.decl else RES
    good = "Some" if adt == OPT else "Ok"
    out = []
    for var, s in ai.cases(st, c.args[0], adt):
        if var == good:
            out += ai.call_value(fr, s, c, c.args[2], [pay(c.args[0], good)])
        else:
            out += ai.call_value(fr, s, c, c.args[1], [] if adt == OPT else [pay(c.args[0], "Err")])
    return out


@m("std::option::Option::is_some_and", "std::option::Option::is_none_or", "std::result::Result::is_ok_and",
   "std::result::Result::is_err_and")
def _is_and(ai, fr, st, c):
    n = c.decl.rsplit("::", 1)[-1]
    adt = OPT if "option" in c.decl else RES
    good = {"is_some_and": "Some", "is_none_or": "Some", "is_ok_and": "Ok", "is_err_and": "Err"}[n]
    out = []
    for var, s in ai.cases(st, c.args[0], adt):
        if var == good:
            out += ai.call_value(fr, s, c, c.args[1], [pay(c.args[0], good)])
        else:
            out.append((TRUE if n == "is_none_or" else FALSE, s))
    return out


@m("std::option::Option::filter")
def _filter(ai, fr, st, c):
    out = []
    for var, s in ai.cases(st, c.args[0], OPT):
        if var != "Some":
            out.append((NONE, s))
            continue
        r = ("l", fr.depth, "filt%d" % fr.blk)
        s = s.clone()
        s.store[r] = pay(c.args[0], "Some")
        for b, s2 in ai.call_value(fr, s, c, c.args[1], [REF(r)]):
            for val, s3 in ai.branch(s2, b):
                out.append((SOME(pay(c.args[0], "Some")) if val else NONE, s3))
    return out


@m("std::option::Option::or", "std::option::Option::or_else", "std::option::Option::and", "std::option::Option::xor",
   "std::result::Result::and", "std::result::Result::or")
def _or(ai, fr, st, c):
    n = c.decl.rsplit("::", 1)[-1]
    adt = OPT if "option" in c.decl else RES
    good = "Some" if adt == OPT else "Ok"
    if n == "xor":
        return None
    out = []
    for var, s in ai.cases(st, c.args[0], adt):
        if n in ("or", "or_else"):
            if var == good:
                out.append((rebuild(c.args[0], adt, var), s))
            elif n == "or":
                out.append((c.args[1], s))
            else:
                out += ai.call_value(fr, s, c, c.args[1], [])
        else:
            out.append((c.args[1] if var == good else rebuild(c.args[0], adt, var), s))
    return out


@m("std::option::Option::ok_or")
def _ok_or(ai, fr, st, c):
    return [((OK(pay(c.args[0], "Some")) if var == "Some" else ERR(c.args[1])), s)
            for var, s in ai.cases(st, c.args[0], OPT)]


@m("std::option::Option::ok_or_else")
def _ok_or_else(ai, fr, st, c):
    out = []
    for var, s in ai.cases(st, c.args[0], OPT):
        if var == "Some":
            out.append((OK(pay(c.args[0], "Some")), s))
        else:
            out += [(ERR(r), s2) for r, s2 in ai.call_value(fr, s, c, c.args[1], [])]
    return out


@m("std::result::Result::ok")
def _ok(ai, fr, st, c):
    return [((SOME(pay(c.args[0], "Ok")) if var == "Ok" else NONE), s) for var, s in ai.cases(st, c.args[0], RES)]


@m("std::result::Result::err")
def _err(ai, fr, st, c):
    return [((SOME(pay(c.args[0], "Err")) if var == "Err" else NONE), s) for var, s in ai.cases(st, c.args[0], RES)]


def _as_ref(adt, good):
    def f(ai, fr, st, c):
        root, path = ai.target(c.args[0])
        v = ai.read(fr, st, root, path)
        out = []
        for var, s in ai.cases(st, v, adt):
            if adt == OPT and var == "None":
                out.append((NONE, s))
            else:
                out.append((AGG(adt, var, REF(root, path + (("v", var, "0"),))), s))
        return out
    return f


for n in ("as_ref", "as_mut", "as_deref", "as_deref_mut"):
    TABLE["std::option::Option::" + n] = _as_ref(OPT, "Some")
    TABLE["std::result::Result::" + n] = _as_ref(RES, "Ok")


@m("std::option::Option::cloned", "std::option::Option::copied")
def _cloned(ai, fr, st, c):
    out = []
    for var, s in ai.cases(st, c.args[0], OPT):
        out.append((NONE, s) if var == "None" else (SOME(ai.deref(fr, s, pay(c.args[0], "Some"))), s))
    return out


@m("std::option::Option::iter", "std::option::Option::iter_mut")
def _oiter(ai, fr, st, c):
    return [(mk("app", "cseq", *([pay(r, "Some")] if r is not NONE else [])), s) for r, s in _as_ref(OPT, "Some")(ai, fr, st, c)]


@m("std::option::Option::flatten")
def _flatten(ai, fr, st, c):
    return [((pay(c.args[0], "Some") if var == "Some" else NONE), s) for var, s in ai.cases(st, c.args[0], OPT)]


@m("std::option::Option::take")
def _otake(ai, fr, st, c):
    v = ai.deref(fr, st, c.args[0])
    st = st.clone()
    ai.store_to(fr, st, c.args[0], NONE)
    return one(v, st)


@m("std::option::Option::replace")
def _oreplace(ai, fr, st, c):
    v = ai.deref(fr, st, c.args[0])
    st = st.clone()
    ai.store_to(fr, st, c.args[0], SOME(c.args[1]))
    return one(v, st)


@m("std::option::Option::insert", "std::option::Option::get_or_insert")
def _oinsert(ai, fr, st, c):
    root, path = ai.target(c.args[0])
    out = []
    if c.decl.endswith("get_or_insert"):
        cs = ai.cases(st, ai.read(fr, st, root, path), OPT)
    else:
        cs = [("None", st)]
    for var, s in cs:
        s = s.clone()
        if var == "None":
            ai.write(fr, s, root, path, SOME(c.args[1]))
        out.append((REF(root, path + (("v", "Some", "0"),)), s))
    return out


@m("std::option::Option::get_or_insert_with")
def _ogoiw(ai, fr, st, c):
    root, path = ai.target(c.args[0])
    out = []
    for var, s in ai.cases(st, ai.read(fr, st, root, path), OPT):
        if var == "Some":
            out.append((REF(root, path + (("v", "Some", "0"),)), s))
        else:
            for r, s2 in ai.call_value(fr, s, c, c.args[1], []):
                s2 = s2.clone()
                ai.write(fr, s2, root, path, SOME(r))
                out.append((REF(root, path + (("v", "Some", "0"),)), s2))
    return out


@m("std::bool::then", "std::bool::bool::then")
def _then(ai, fr, st, c):
    out = []
    for val, s in ai.branch(st, c.args[0]):
        if val:
            out += [(SOME(r), s2) for r, s2 in ai.call_value(fr, s, c, c.args[1], [])]
        else:
            out.append((NONE, s))
    return out


@m("std::bool::then_some", "std::bool::bool::then_some")
def _then_some(ai, fr, st, c):
    return [((SOME(c.args[1]) if val else NONE), s) for val, s in ai.branch(st, c.args[0])]


# ------------------------------------------------------------------ ? operator
@m("std::ops::Try::branch")
def _branch(ai, fr, st, c):
    v = c.args[0]
    ty = c.gargs[0] if c.gargs else ""
    out = []
    if ty.startswith(OPT):
        for var, s in ai.cases(st, v, OPT):
            out.append((AGG(CF, "Continue", pay(v, "Some")) if var == "Some" else AGG(CF, "Break", NONE), s))
        return out
    if ty.startswith(RES):
        for var, s in ai.cases(st, v, RES):
            out.append((AGG(CF, "Continue", pay(v, "Ok")) if var == "Ok" else
                        AGG(CF, "Break", ERR(pay(v, "Err"))), s))
        return out
    return None


@m("std::ops::FromResidual::from_residual")
def _fromres(ai, fr, st, c):
    v = c.args[0]
    ty = c.gargs[0] if c.gargs else ""
    if ty.startswith(OPT):
        return one(NONE, st)
    if ty.startswith(RES):
        e = pay(v, "Err")
        src = c.rargs[1] if len(c.rargs) > 2 else ""
        dst = c.rargs[2] if len(c.rargs) > 2 else src
        return [(ERR(r), s) for r, s in convert(ai, fr, st, c, e, src, dst)]
    return None


@m("std::ops::Try::from_output")
def _fromout(ai, fr, st, c):
    ty = c.gargs[0] if c.gargs else ""
    if ty.startswith(OPT):
        return one(SOME(c.args[0]), st)
    if ty.startswith(RES):
        return one(OK(c.args[0]), st)
    return None


def _strip_lt(t):
    return re.sub(r"'\w+ ?", "", t)


def convert(ai, fr, st, c, x, src, dst):
    if not src or _strip_lt(src) == _strip_lt(dst):
        return one(x, st)
    cands = []
    for f in ai.p.fns.values():
        if f.raw.get("name") == "from" and f.raw.get("impl_trait") == "std::convert::From" and \
                ty_base(f.raw.get("self_ty", "")) == ty_base(dst):
            if f.argc == 1 and ty_base(f.locals[1]["ty"]) == ty_base(src):
                cands.append(f)
    if len(cands) > 1:
        want = _strip_lt(src).replace(" ", "")
        exact = [f for f in cands if _strip_lt(f.locals[1]["ty"]).replace(" ", "") == want]
        cands = exact or cands
    if len(cands) == 1:
        h = ai.intrinsics.get(cands[0].id)
        if h is not None and c.args and c.args[0] is x:
            r = h(ai, fr, st, c)
            if r is not None:
                return r
        return ai.invoke(fr, st, c, cands[0].id, [x])
    return one(ai.fresh(fr, st, "conv"), st)


@m("std::convert::Into::into", "std::convert::From::from")
def _into(ai, fr, st, c):
    if c.res in ai.p.fns:
        if c.decl.endswith("::from"):
            return None
    g = c.gargs
    if len(g) == 2:
        src, dst = (g[0], g[1]) if c.decl.endswith("into") else (g[1], g[0])
        if _strip_lt(src) == _strip_lt(dst):
            return one(c.args[0], st)
        ints = ("u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "bool", "isize")
        if src == "bool" and dst in ints:
            return [(INT(int(v)), s) for v, s in ai.branch(st, c.args[0])]
        if src in ints and dst in ints:
            return one(c.args[0], st)
        if dst.startswith("std::boxed::Box<") or dst.startswith("std::rc::Rc<"):
            return one(c.args[0], st)
        if dst == "bstr::BString" and src == "std::vec::Vec<u8>":
            return one(c.args[0], st)
        if ty_base(dst) in ai.p.adts or dst.startswith(RES):
            r = convert(ai, fr, st, c, c.args[0], src, dst)
            return r
        if dst.startswith(OPT + "<"):
            return one(SOME(c.args[0]), st)
    return None


# ------------------------------------------------------------------ comparison
def _fieldless(ai, ty):
    b = ty_base(ty)
    a = ai.p.adts.get(b)
    if a and a["kind"] == "enum" and all(not v["fields"] for v in a["variants"]):
        return b
    return None


def _operands(ai, fr, st, c):
    a, b = c.args[0], c.args[1]
    ty = (c.aty or ["", ""])[0] if c.aty else ""
    # strip all reference layers
    t = ty
    n = 0
    while t.startswith("&"):
        t = re.sub(r"^&('\w+ )?(mut )?", "", t)
        n += 1
    n = max(n, 1)
    for _ in range(n):
        a = ai.deref(fr, st, a)
        b = ai.deref(fr, st, b)
    return a, b, t


def eq_values(ai, st, a, b, ty, depth=0):
    """a boolean term for a == b"""
    if a is b and not many(a):
        return TRUE
    while ty.startswith("&"):
        ty = re.sub(r"^&('\w+ )?(mut )?", "", ty)
        a, b = ai.deref(None, st, a), ai.deref(None, st, b)
        if a is b and not many(a):
            return TRUE
    adt = _fieldless(ai, ty)
    if adt or (a.k == "agg" and a.a[1] and not a.a[2] and _fieldless(ai, a.a[0] or "")):
        adt = adt or a.a[0]
        if a.k == "agg" and b.k == "agg":
            return INT(a.a[1] == b.a[1])
        if a.k == "agg":
            a, b = b, a
        if b.k == "agg":
            return mk("is", a, frozenset((b.a[1],)), adt)
        if id(a) > id(b):
            a, b = b, a
        return mk("op", "Eq", a, b)
    if ty.startswith(OPT + "<") or ty.startswith(RES + "<"):
        if a.k == "agg" and b.k == "agg" and a.a[1] and b.a[1]:
            if a.a[1] != b.a[1]:
                return FALSE
            if not a.a[2]:
                return TRUE
            inner = ty[len(OPT) + 1:-1] if ty.startswith(OPT) else ""
            return eq_values(ai, st, a.a[2][0][1], b.a[2][0][1], inner, depth + 1)
        if a.k == "agg" and a.a[1] == "None":
            a, b = b, a
        if b.k == "agg" and b.a[1] == "None":
            return mk("is", a, frozenset(("None",)), OPT)
        return EQ(a, b)
    return EQ(a, b)


@m("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne")
def _peq(ai, fr, st, c):
    if not c.aty or len(c.args) != 2:
        return None
    a, b, ty = _operands(ai, fr, st, c)
    if c.res in ai.p.fns and not _fieldless(ai, ty):
        return None
    if ty.startswith(OPT + "<") and not (a.k == "agg" and b.k == "agg") and a is not b and not many(a) and not many(b):
        return _optcmp(ai, st, a, b, lambda s, x, y: eq_values(ai, s, x, y, ty[len(OPT) + 1:-1]), TRUE, FALSE, FALSE,
                       c.decl.endswith("ne"))
    t = eq_values(ai, st, a, b, ty)
    r = ai.evalb(st, t)
    if r is not None:
        t = INT(r)
    return one(NOT(t) if c.decl.endswith("ne") else t, st)


def cmp_variants(ai, adt, op, pivot):
    p = int(ai.p.discr(adt, pivot))
    out = set()
    for v in ai.p.adts[adt]["variants"]:
        d = int(v["discr"])
        if {"lt": d < p, "le": d <= p, "gt": d > p, "ge": d >= p}[op]:
            out.add(v["name"])
    return frozenset(out)


FLIP = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}


def order_term(ai, a, b, ty, op):
    adt = _fieldless(ai, ty)
    if adt:
        if a.k == "agg" and b.k == "agg":
            return INT(a.a[1] in cmp_variants(ai, adt, op, b.a[1]))
        if b.k == "agg":
            return mk("is", a, cmp_variants(ai, adt, op, b.a[1]), adt)
        if a.k == "agg":
            return mk("is", b, cmp_variants(ai, adt, FLIP[op], a.a[1]), adt)
    return {"lt": lambda: LT(a, b), "gt": lambda: LT(b, a), "le": lambda: NOT(LT(b, a)),
            "ge": lambda: NOT(LT(a, b))}[op]()


def _optcmp(ai, st, a, b, inner, nn, ns, sn, neg=False):
    """case split of a comparison of two Options: both None, None/Some, Some/None, both Some"""
    out = []
    for va, s1 in ai.cases(st, a, OPT):
        for vb, s2 in ai.cases(s1, b, OPT):
            if va == "None" or vb == "None":
                t = nn if va == vb else ns if va == "None" else sn
            else:
                t = inner(s2, pay(a, "Some"), pay(b, "Some"))
                r = ai.evalb(s2, t)
                if r is not None:
                    t = INT(r)
            out.append((NOT(t) if neg else t, s2))
    return out


@m("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::ge")
def _pord(ai, fr, st, c):
    if not c.aty:
        return None
    a, b, ty = _operands(ai, fr, st, c)
    op = c.decl.rsplit("::", 1)[-1]
    if ty.startswith(OPT + "<") and (a.k == "agg" or b.k == "agg") and not many(a) and not many(b):
        return _optcmp(ai, st, a, b, lambda s, x, y: order_term(ai, x, y, ty[len(OPT) + 1:-1], op),
                       INT(op in ("le", "ge")), INT(op in ("lt", "le")), INT(op in ("gt", "ge")))
    t = order_term(ai, a, b, ty, op)
    r = ai.evalb(st, t)
    return one(t if r is None else INT(r), st)


@m("std::cmp::Ord::cmp")
def _cmp(ai, fr, st, c):
    if not c.aty:
        return None
    a, b, ty = _operands(ai, fr, st, c)
    out = []
    for val, s in ai.branch(st, LT(a, b)):
        if val:
            out.append((AGG(ORD, "Less"), s))
        else:
            for v2, s2 in ai.branch(s, EQ(a, b)):
                out.append((AGG(ORD, "Equal" if v2 else "Greater"), s2))
    return out


@m("std::cmp::min", "std::cmp::max", "std::cmp::Ord::min", "std::cmp::Ord::max")
def _min(ai, fr, st, c):
    n = c.decl.rsplit("::", 1)[-1]
    a, b = c.args
    if a.k == "int" and b.k == "int":
        return one(INT(min(a.a[0], b.a[0]) if n == "min" else max(a.a[0], b.a[0])), st)
    if id(a) > id(b):
        a, b = b, a
    return one(mk("app", n, a, b), st)


def num(ai, fr, st, c, ty, name):
    a = c.args
    mm = re.match(r"^(wrapping|saturating|overflowing|unchecked)_(add|sub|mul)$", name)
    if mm and mm.group(1) in ("wrapping", "unchecked"):
        return one(arith({"add": "Add", "sub": "Sub", "mul": "Mul"}[mm.group(2)], a[0], a[1]), st)
    if mm and mm.group(1) == "saturating":
        if mm.group(2) == "add":
            return one(arith("Add", a[0], a[1]), st)
        if mm.group(2) == "sub" and ty.startswith("u"):
            return [((arith("Sub", a[0], a[1]) if v else INT(0)), s) for v, s in ai.branch(st, LT(a[1], a[0]))]
        return one(mk("app", name, *a), st)
    if name in ("checked_add", "checked_sub", "checked_mul"):
        r = arith({"add": "Add", "sub": "Sub", "mul": "Mul"}[name[8:]], a[0], a[1])
        t = mk("app", "ovf", r)
        return [((NONE if v else SOME(r)), s) for v, s in ai.branch(st, t)]
    if name in ("is_ascii_digit", "is_ascii_hexdigit", "leading_zeros", "count_ones", "abs", "pow", "to_ascii_lowercase",
                "is_ascii_alphabetic", "is_ascii_whitespace", "is_ascii_alphanumeric", "is_ascii_uppercase", "is_ascii_lowercase",
                "is_ascii_control", "is_ascii", "is_ascii_graphic", "is_ascii_punctuation", "to_ascii_uppercase"):
        a = [ai.deref(fr, st, x) if x.k == "ref" and name.startswith(("is_", "to_")) else x for x in a]
        if len(a) == 1 and a[0].k == "int":
            from nom import CLASS
            if name in CLASS:
                return one(INT(int(CLASS[name](a[0].a[0]))), st)
        return one(mk("app", name, *a), st)
    return None


# ------------------------------------------------------------------ pointers and wrappers
def isnull(ai, p):
    if p.k == "null":
        return TRUE
    if p.k == "ref" and p.a[0][0] in ("l", "o", "p", "b", "s"):
        return FALSE
    if p.k == "ref" and p.a[1]:
        return FALSE
    if p.k == "ref" and p.a[0][0] == "d":
        p = p.a[0][1]
    return mk("app", "isnull", p)


@m("std::ptr::const_ptr::*const T::is_null", "std::ptr::mut_ptr::*mut T::is_null")
def _isnull(ai, fr, st, c):
    t = isnull(ai, c.args[0])
    r = ai.evalb(st, t)
    return one(t if r is None else INT(r), st)


@m("std::ptr::const_ptr::*const T::as_ref", "std::ptr::mut_ptr::*mut T::as_ref",
   "std::ptr::mut_ptr::*mut T::as_mut")
def _ptr_as_ref(ai, fr, st, c):
    p = c.args[0]
    out = []
    for v, s in ai.branch(st, isnull(ai, p)):
        if v:
            out.append((NONE, s))
        else:
            root, path = ai.target(p, c.gargs[0] if c.gargs else None)
            out.append((SOME(REF(root, path)), s))
    return out


@m("std::ptr::null", "std::ptr::null_mut")
def _null(ai, fr, st, c):
    return one(NULL, st)


@m("std::ptr::NonNull::new")
def _nnnew(ai, fr, st, c):
    return [((NONE if v else SOME(c.args[0])), s) for v, s in ai.branch(st, isnull(ai, c.args[0]))]


def _ident(ai, fr, st, c):
    if c.res in ai.p.fns:
        return None
    if c.aty and "borrow::Cow<" in c.aty[0][:40]:
        v = ai.deref(fr, st, c.args[0])
        if v.k == "agg" and v.a[1] == "Borrowed":
            return one(v.a[2][0][1], st)
    return one(c.args[0], st)


for n in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut", "std::convert::AsRef::as_ref",
          "std::convert::AsMut::as_mut", "std::borrow::Borrow::borrow", "std::vec::Vec::as_slice",
          "std::vec::Vec::as_mut_slice", "std::str::str::as_bytes", "std::string::String::as_str",
          "std::string::String::as_bytes", "std::ptr::const_ptr::*const T::cast", "std::ptr::mut_ptr::*mut T::cast",
          "std::ptr::mut_ptr::*mut T::cast_const", "std::ptr::const_ptr::*const T::cast_mut",
          "std::boxed::Box::new", "std::rc::Rc::new", "std::cell::Cell::new", "std::cell::RefCell::new",
          "std::ptr::NonNull::as_ptr", "std::hint::must_use", "std::mem::ManuallyDrop::new",
          "std::boxed::Box::leak", "std::boxed::Box::into_inner", "std::iter::IntoIterator::into_iter",
          "std::rc::Rc::as_ref", "std::borrow::Cow::as_ref", "std::convert::identity", "std::ptr::from_ref",
          "std::ptr::from_mut", "std::pin::Pin::new"):
    TABLE[n] = _ident


@m("std::clone::Clone::clone", "std::borrow::ToOwned::to_owned")
def _clone(ai, fr, st, c):
    if c.decl.endswith("to_owned"):
        return None
    return one(ai.deref(fr, st, c.args[0]), st)


@m("std::rc::Rc::clone")
def _rcclone(ai, fr, st, c):
    return one(ai.deref(fr, st, c.args[0]), st)


@m("std::cell::Cell::get")
def _cget(ai, fr, st, c):
    return one(ai.deref(fr, st, c.args[0]), st)


@m("std::cell::Cell::set")
def _cset(ai, fr, st, c):
    st = st.clone()
    ai.store_to(fr, st, c.args[0], c.args[1])
    return one(UNIT, st)


@m("std::cell::Cell::replace", "std::mem::replace", "std::ptr::replace")
def _creplace(ai, fr, st, c):
    v = ai.deref(fr, st, c.args[0])
    st = st.clone()
    ai.store_to(fr, st, c.args[0], c.args[1])
    return one(v, st)


@m("std::mem::take", "std::cell::Cell::take")
def _take(ai, fr, st, c):
    v = ai.deref(fr, st, c.args[0])
    st = st.clone()
    ty = c.gargs[0] if c.gargs else ""
    d = default_of(ai, fr, st, ty)
    ai.store_to(fr, st, c.args[0], d if d is not None else mk("app", "default", mk("str", ty)))
    return one(v, st)


@m("std::mem::swap")
def _swap(ai, fr, st, c):
    a = ai.deref(fr, st, c.args[0])
    b = ai.deref(fr, st, c.args[1])
    st = st.clone()
    ai.store_to(fr, st, c.args[0], b)
    ai.store_to(fr, st, c.args[1], a)
    return one(UNIT, st)


@m("std::mem::drop", "std::mem::forget")
def _drop(ai, fr, st, c):
    return one(UNIT, st)


@m("std::default::Default::default")
def _default(ai, fr, st, c):
    if c.res in ai.p.fns:
        return None
    d = default_of(ai, fr, st, c.gargs[0] if c.gargs else "")
    if d is None:
        return None
    return one(d, st)


# ------------------------------------------------------------------ sequences
@m("std::slice::[T]::len", "std::vec::Vec::len", "std::str::str::len", "std::string::String::len",
   "std::collections::BTreeMap::len", "std::collections::HashMap::len", "std::collections::VecDeque::len",
   "std::iter::ExactSizeIterator::len")
def _len(ai, fr, st, c):
    return one(ai.length(fr, st, c.args[0]), st)


@m("std::slice::[T]::is_empty", "std::vec::Vec::is_empty", "std::str::str::is_empty", "std::string::String::is_empty",
   "std::collections::BTreeMap::is_empty")
def _isempty(ai, fr, st, c):
    t = EQ(ai.length(fr, st, c.args[0]), INT(0))
    r = ai.evalb(st, t)
    return one(t if r is None else INT(r), st)


@m("std::vec::Vec::new", "std::string::String::new", "std::vec::Vec::with_capacity",
   "std::string::String::with_capacity", "std::collections::BTreeMap::new")
def _vnew(ai, fr, st, c):
    return one(mk("app", "empty"), st)


@m("std::vec::Vec::reserve", "std::vec::Vec::reserve_exact", "std::vec::Vec::shrink_to_fit", "std::string::String::reserve")
def _capacity(ai, fr, st, c):
    return [(UNIT, st)]


@m("std::vec::Vec::clear", "std::string::String::clear")
def _vclear(ai, fr, st, c):
    st = st.clone()
    ai.store_to(fr, st, c.args[0], mk("app", "empty"))
    return one(UNIT, st)


@m("std::vec::Vec::extend_from_slice")
def _vext(ai, fr, st, c):
    old = ai.deref(fr, st, c.args[0])
    add = ai.deref(fr, st, c.args[1])
    st = st.clone()
    ai.store_to(fr, st, c.args[0], mk("app", "concat", old, add))
    return one(UNIT, st)


@m("std::slice::[T]::to_vec", "std::vec::Vec::from")
def _tovec(ai, fr, st, c):
    return one(ai.deref(fr, st, c.args[0]), st)


@m("std::ops::Index::index", "std::ops::IndexMut::index_mut", "std::slice::[T]::get_unchecked")
def _index(ai, fr, st, c):
    if c.res in ai.p.fns or len(c.args) != 2:
        return None
    base, ix = c.args
    if c.aty and ty_base(c.aty[0]).startswith("std::collections"):
        return None
    if ix.k == "agg" and "::Range" in (ix.a[0] or ""):
        kind = ix.a[0].rsplit("::", 1)[-1]
        fs = [v for _, v in ix.a[2]]
        bv = ai.deref(fr, st, base)
        if kind == "Range":
            lo, hi = fs
        elif kind == "RangeTo":
            lo, hi = INT(0), fs[0]
        elif kind == "RangeFrom":
            lo, hi = fs[0], ai.length(fr, st, base)
        elif kind == "RangeFull":
            return one(base, st)
        else:
            return None
        return one(REF(("d", mk("app", "slice", bv, lo, hi))), st)
    root, path = ai.target(base)
    return one(REF(root, path + (("i", ix),)), st)


def _sliceget(ai, fr, st, c):
    if len(c.args) != 2:
        return None
    base, ix = c.args
    if not (ix.k == "agg" and "::Range" in (ix.a[0] or "")):
        return None
    kind = ix.a[0].rsplit("::", 1)[-1]
    fs = [v for _, v in ix.a[2]]
    n = ai.length(fr, st, base)
    if kind == "Range":
        lo, hi = fs
    elif kind == "RangeTo":
        lo, hi = INT(0), fs[0]
    elif kind == "RangeFrom":
        lo, hi = fs[0], n
    else:
        return None
    bv = ai.deref(fr, st, base)
    out, work = [], [st]
    for t in ([LT(hi, lo)] if kind == "Range" else []) + [LT(n, lo if kind == "RangeFrom" else hi)]:
        nxt = []
        for s in work:
            for v, s2 in ai.branch(s, t):
                if v:
                    out.append((NONE, s2))
                else:
                    nxt.append(s2)
        work = nxt
    return out + [(SOME(REF(("d", mk("app", "slice", bv, lo, hi)))), s) for s in work]


@m("std::slice::from_raw_parts", "std::slice::from_raw_parts_mut")
def _frp(ai, fr, st, c):
    root, path = ai.target(c.args[0])
    return one(REF(("d", mk("app", "slice", REF(root, path), INT(0), c.args[1]))), st)


@m("std::string::ToString::to_string", "std::fmt::format", "std::fmt::Arguments::new", "std::fmt::rt::Argument::new_display",
   "std::fmt::rt::Argument::new_debug", "std::fmt::Arguments::new_const", "std::fmt::Arguments::new_v1")
def _fmt(ai, fr, st, c):
    if c.res in ai.p.fns and c.decl.endswith("to_string"):
        return None
    return one(mk("app", "fmt"), st)


# ------------------------------------------------------------------ closures
@m("std::ops::FnOnce::call_once", "std::ops::FnMut::call_mut", "std::ops::Fn::call")
def _fncall(ai, fr, st, c):
    fv = c.args[0]
    a = c.args[1]
    args = [x for _, x in a.a[2]] if a.k == "agg" and a.a[0] == "tuple" else [a]
    f2 = fv
    for _ in range(3):
        if f2.k == "ref":
            f2 = ai.deref(fr, st, f2)
    if f2.k in ("clo", "fn"):
        if f2.k == "clo" and fv.k == "ref":
            # keep identity of the captured environment
            g = ai.p.fns.get(f2.a[0])
            if g is not None:
                if g.locals[1]["ty"].startswith("&"):
                    p = fv
                    while ai.deref(fr, st, p).k == "ref":
                        p = ai.deref(fr, st, p)
                    return ai.invoke(fr, st, c, f2.a[0], [p] + args)
        return ai.call_value(fr, st, c, f2, args)
    return ai.call_value(fr, st, c, fv, args)


RI = "std::ops::RangeInclusive"


@m("std::ops::RangeInclusive::new")
def _ri(ai, fr, st, c):
    return one(mk("agg", RI, None, ((("f", RI, "start"), c.args[0]), (("f", RI, "end"), c.args[1]))), st)


@m("std::ops::RangeInclusive::contains", "std::ops::Range::contains", "std::ops::RangeFrom::contains", "std::ops::RangeTo::contains",
   "std::ops::RangeToInclusive::contains", "std::ops::RangeBounds::contains")
def _rcontains(ai, fr, st, c):
    r = ai.deref(fr, st, c.args[0]) if c.args[0].k == "ref" else c.args[0]
    x = ai.deref(fr, st, c.args[1]) if c.args[1].k == "ref" else c.args[1]
    if r.k != "agg" or "ops::Range" not in str(r.a[0]):
        return None
    f = {k[2]: v for k, v in r.a[2] if k[0] == "f"}
    out, work = [], [(1, st)]
    if "start" in f:
        work = [(1 - v, s) for v, s in ai.branch(st, LT(x, f["start"]))]
    for v, s in work:
        if not v:
            out.append((FALSE, s))
        elif "end" not in f:
            out.append((TRUE, s))
        elif "Inclusive" in r.a[0]:
            out += [(FALSE if w else TRUE, s2) for w, s2 in ai.branch(s, LT(f["end"], x))]
        else:
            out += [(TRUE if w else FALSE, s2) for w, s2 in ai.branch(s, LT(x, f["end"]))]
    return out


@m("std::slice::ascii::[u8]::make_ascii_lowercase", "std::slice::[u8]::make_ascii_lowercase",
   "std::str::str::make_ascii_lowercase")
def _lower(ai, fr, st, c):
    root, path = ai.target(c.args[0])
    ai.write(fr, st, root, path, mk("app", "lower", ai.read(fr, st, root, path)))
    return one(UNIT, st)


@m("std::ops::BitAnd::bitand", "std::ops::BitOr::bitor", "std::ops::BitXor::bitxor")
def _bitop(ai, fr, st, c):
    """bit operations on integers taken by reference"""
    if len(c.args) != 2 or any(t.lstrip("&") not in INTS for t in c.aty):
        return None
    a, b = (ai.deref(fr, st, v) if t.startswith("&") else v for v, t in zip(c.args, c.aty))
    return one(arith({"bitand": "BitAnd", "bitor": "BitOr", "bitxor": "BitXor"}[c.decl.split("::")[-1]], a, b), st)


@m("std::ops::Drop::drop")
def _drop2(ai, fr, st, c):
    return one(UNIT, st)


# ------------------------------------------------------------------ conversions that can fail
INTS = ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize")
_RNG = {}
for _w in (8, 16, 32, 64, 128):
    _RNG["u%d" % _w] = (0, (1 << _w) - 1)
    _RNG["i%d" % _w] = (-(1 << (_w - 1)), (1 << (_w - 1)) - 1)
_RNG["usize"], _RNG["isize"] = _RNG["u64"], _RNG["i64"]


@m("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into")
def _tryfrom(ai, fr, st, c):
    g = c.gargs
    if c.res in ai.p.fns or len(g) != 2:
        return None
    src, dst = (g[1], g[0]) if c.decl.endswith("try_from") else (g[0], g[1])
    if src not in INTS or dst not in INTS:
        return None
    x = c.args[0]
    a, b = _RNG[src], _RNG[dst]
    if a[0] >= b[0] and a[1] <= b[1]:
        return one(OK(x), st)
    t = mk("app", "fits:" + dst, x)
    if x.k == "int":
        t = INT(b[0] <= x.a[0] <= b[1])
    return [((OK(x) if v else ERR(mk("app", "TryFromIntError"))), s) for v, s in ai.branch(st, t)]


# ------------------------------------------------------------------ pure functions of their arguments
def pure(name, deref=(0,)):
    def f(ai, fr, st, c):
        if c.res in ai.p.fns:
            return None
        a = []
        for i, x in enumerate(c.args):
            a.append(ai.deref(fr, st, x) if i in deref else x)
        return one(mk("app", name, *a), st)
    return f


TABLE["std::vec::Vec::as_ptr"] = TABLE["std::slice::[T]::as_ptr"] = TABLE["std::str::str::as_ptr"] = pure("as_ptr")
TABLE["std::rc::Rc::as_ptr"] = lambda ai, fr, st, c: one(c.args[0], st)
TABLE["std::ffi::CStr::to_bytes"] = pure("cstr_bytes", ())
TABLE["std::ffi::CStr::to_str"] = pure("cstr_str", ())


def deref_raw(ai, fr, st, c, p):
    """a callee that dereferences its raw pointer argument"""
    if p.k == "null" and ai.mon is not None:
        ai.mon.nullderef(ai, fr)


@m("std::ffi::CStr::from_ptr")
def _cstr(ai, fr, st, c):
    deref_raw(ai, fr, st, c, c.args[0])
    return one(mk("app", "cstr", c.args[0]), st)


@m("std::boxed::Box::from_raw", "std::ffi::CString::from_raw", "std::rc::Rc::from_raw")
def _from_raw(ai, fr, st, c):
    deref_raw(ai, fr, st, c, c.args[0])
    return one(mk("app", "owned", c.args[0]), st)


def _elem(coll_fn):
    """Option<&T> of a collection: Some(&coll[i]) exactly when in range"""
    def f(ai, fr, st, c):
        if c.res in ai.p.fns:
            return None
        g = c.aty[1] if c.aty and len(c.aty) > 1 else ""
        root, path = ai.target(c.args[0])
        n = ai.length(fr, st, c.args[0])
        ix, cond = coll_fn(c, n)
        if ix is None:
            return None
        if ix.k == "agg":
            return None
        return [((SOME(REF(root, path + (("i", ix),))) if v else NONE), s) for v, s in ai.branch(st, cond)]
    return f


def _is_index_ty(c):
    return not c.aty or len(c.aty) < 2 or c.aty[1] == "usize"


TABLE["std::slice::[T]::get"] = TABLE["std::slice::[T]::get_mut"] = _elem(
    lambda c, n: (c.args[1], LT(c.args[1], n)) if _is_index_ty(c) else (None, None))
_elemget = TABLE["std::slice::[T]::get"]
TABLE["std::slice::[T]::get"] = TABLE["std::slice::[T]::get_mut"] = lambda ai, fr, st, c: _sliceget(ai, fr, st, c) or _elemget(ai, fr, st, c)
TABLE["std::slice::[T]::first"] = TABLE["std::slice::[T]::first_mut"] = _elem(
    lambda c, n: (INT(0), NOT(EQ(n, INT(0)))))
TABLE["std::slice::[T]::last"] = TABLE["std::slice::[T]::last_mut"] = _elem(
    lambda c, n: (arith("Sub", n, INT(1)), NOT(EQ(n, INT(0)))))


# maps, functionally: M, ("mapins", M, k, v), ("maprem", M, k)
def map_has(ai, st, mv, k):
    """is key k in map value mv: 0/1 or a term"""
    while mv.k == "app" and mv.a[0] in ("mapins", "maprem", "empty"):
        if mv.a[0] == "empty":
            return INT(0)
        e = ai.evalb(st, EQ(mv.a[2], k))
        if e == 1:
            return INT(1 if mv.a[0] == "mapins" else 0)
        if e != 0:
            return mk("app", "has", mv, k)
        mv = mv.a[1]
    return mk("app", "has", mv, k)


def map_branch(ai, st, mv, k):
    t = map_has(ai, st, mv, k)
    return [(t.a[0], st)] if t.k == "int" else ai.branch(st, t)


@m("std::collections::BTreeMap::get", "std::collections::BTreeMap::get_mut")
def _bget(ai, fr, st, c):
    root, path = ai.target(c.args[0])
    v = ai.read(fr, st, root, path)
    k = ai.deref(fr, st, c.args[1])
    return [((SOME(REF(root, path + (("i", k),))) if b else NONE), s) for b, s in map_branch(ai, st, v, k)]


@m("std::collections::BTreeMap::contains_key")
def _bhas(ai, fr, st, c):
    v = ai.deref(fr, st, c.args[0])
    return one(map_has(ai, st, v, ai.deref(fr, st, c.args[1])), st)


def _map_store(ai, fr, st, ref, k, v):
    root, path = ai.target(ref)
    s = st.clone()
    ai.write(fr, s, root, path, mk("app", "mapins", ai.read(fr, s, root, path), k, v))
    return REF(root, path + (("i", k),)), s


@m("std::collections::BTreeMap::insert")
def _binsert(ai, fr, st, c):
    k, v = c.args[1], c.args[2]
    mv = ai.deref(fr, st, c.args[0])
    r = []
    for b, s in map_branch(ai, st, mv, k):
        _, s2 = _map_store(ai, fr, s, c.args[0], k, v)
        r.append((SOME(mk("app", "old", mv, k)) if b else NONE, s2))
    return r


@m("std::collections::BTreeMap::remove")
def _bremove(ai, fr, st, c):
    root, path = ai.target(c.args[0])
    mv = ai.read(fr, st, root, path)
    k = ai.deref(fr, st, c.args[1])
    r = []
    for b, s in map_branch(ai, st, mv, k):
        if b:
            s = s.clone()
            ai.write(fr, s, root, path, mk("app", "maprem", mv, k))
        r.append((SOME(mk("app", "old", mv, k)) if b else NONE, s))
    return r


@m("std::collections::BTreeMap::clear")
def _bclear(ai, fr, st, c):
    st = st.clone()
    ai.store_to(fr, st, c.args[0], mk("app", "empty"))
    return one(UNIT, st)


BENT = "std::collections::btree_map::Entry"


@m("std::collections::BTreeMap::entry")
def _bentry(ai, fr, st, c):
    k = c.args[1]
    root, path = ai.target(c.args[0])
    mv = ai.read(fr, st, root, path)
    h = mk("app", "mapent", REF(root, path), k)
    return [(mk("agg", BENT, "Occupied" if b else "Vacant", ((("v", "Occupied" if b else "Vacant", "0"), h),)), s)
            for b, s in map_branch(ai, st, mv, k)]


def _ent(ai, fr, st, v):
    """map reference and key behind an entry (by value or by reference)"""
    for _ in range(3):
        if v.k == "ref":
            v = ai.deref(fr, st, v)
    if v.k == "app" and v.a[0] == "mapent":
        return v.a[1], v.a[2], None
    if v.k == "agg" and v.a[0] == BENT:
        h = v.a[2][0][1]
        return h.a[1], h.a[2], v.a[1]
    return None


@m("std::collections::btree_map::OccupiedEntry::into_mut", "std::collections::btree_map::OccupiedEntry::get",
   "std::collections::btree_map::OccupiedEntry::get_mut")
def _oget(ai, fr, st, c):
    e = _ent(ai, fr, st, c.args[0])
    if e is None:
        return None
    root, path = ai.target(e[0])
    return one(REF(root, path + (("i", e[1]),)), st)


@m("std::collections::btree_map::OccupiedEntry::remove")
def _orem(ai, fr, st, c):
    e = _ent(ai, fr, st, c.args[0])
    if e is None:
        return None
    root, path = ai.target(e[0])
    st = st.clone()
    mv = ai.read(fr, st, root, path)
    ai.write(fr, st, root, path, mk("app", "maprem", mv, e[1]))
    return one(mk("app", "old", mv, e[1]), st)


@m("std::collections::btree_map::VacantEntry::insert")
def _vins(ai, fr, st, c):
    e = _ent(ai, fr, st, c.args[0])
    if e is None:
        return None
    r, s = _map_store(ai, fr, st, e[0], e[1], c.args[1])
    return one(r, s)


@m("std::collections::btree_map::Entry::key", "std::collections::btree_map::OccupiedEntry::key",
   "std::collections::btree_map::VacantEntry::key")
def _ekey(ai, fr, st, c):
    e = _ent(ai, fr, st, c.args[0])
    return None if e is None else one(ai.refto(e[1]), st)


@m("std::collections::btree_map::Entry::or_insert", "std::collections::btree_map::Entry::or_insert_with")
def _orins(ai, fr, st, c):
    e = _ent(ai, fr, st, c.args[0])
    if e is None or e[2] is None:
        return None
    if e[2] == "Occupied":
        root, path = ai.target(e[0])
        return one(REF(root, path + (("i", e[1]),)), st)
    vs = [(c.args[1], st)] if c.decl.endswith("or_insert") else ai.call_value(fr, st, c, c.args[1], [])
    return [_map_store(ai, fr, s, e[0], e[1], v) for v, s in vs]


TABLE["<(dyn std::any::Any + 'static)>::downcast_ref"] = lambda ai, fr, st, c: [
    ((SOME(REF(*ai.target(c.args[0]))) if b else NONE), s)
    for b, s in ai.branch(st, mk("app", "is-type", ai.deref(fr, st, c.args[0]), mk("str", str(c.gargs))))]
TABLE["<(dyn std::any::Any + 'static)>::downcast_mut"] = TABLE["<(dyn std::any::Any + 'static)>::downcast_ref"]
TABLE["std::boxed::Box::into_raw"] = _ident


@m("std::vec::Vec::push")
def _vpush(ai, fr, st, c):
    old = ai.deref(fr, st, c.args[0])
    st = st.clone()
    ai.store_to(fr, st, c.args[0], mk("app", "push", old, c.args[1]))
    return one(UNIT, st)


# ------------------------------------------------------------------ iteration
# With ai.concrete_seq, collections whose elements are all known are iterated element by element
# (`cseq`); adaptors are applied eagerly.
def seq_elems(v):
    """elements of a fully known vector [(index, value)] or map [(key, value)], else None"""
    r = []
    while v.k == "app" and v.a[0] in ("push", "mapins"):
        r.append(v)
        v = v.a[1]
    if v.k == "app" and v.a[0] == "array" and not r:
        return [("i", INT(i), x) for i, x in enumerate(v.a[1:])]
    if not (v.k == "app" and v.a[0] == "empty"):
        return None
    r.reverse()
    return [("i", INT(i), x.a[2]) if x.a[0] == "push" else ("m", x.a[2], x.a[3]) for i, x in enumerate(r)]


def cseq_of(ai, fr, st, v):
    if not ai.concrete_seq:
        return None
    if v.k == "app" and v.a[0] == "cseq":
        return v
    byref = v.k == "ref"
    x = ai.deref(fr, st, v) if byref else v
    e = seq_elems(x)
    if e is None:
        return None
    if byref:
        root, path = ai.target(v)
        return mk("app", "cseq", *[REF(root, path + (("i", k),)) if t == "i" else
                                   AGG("tuple", None, ai.refto(k), REF(root, path + (("i", k),)))
                                   for t, k, y in e])
    return mk("app", "cseq", *[y for t, k, y in e])


@m("std::collections::BTreeMap::iter", "std::collections::BTreeMap::iter_mut", "std::collections::BTreeMap::values",
   "std::collections::BTreeMap::values_mut", "std::collections::BTreeMap::keys")
def _biter(ai, fr, st, c):
    cs = cseq_of(ai, fr, st, c.args[0])
    if cs is None:
        return None
    n = c.decl.split("::")[-1]
    if n in ("values", "values_mut"):
        cs = mk("app", "cseq", *[x.a[2][1][1] for x in cs.a[1:]])
    elif n == "keys":
        cs = mk("app", "cseq", *[x.a[2][0][1] for x in cs.a[1:]])
    return one(cs, st)


def drain(ai, fr, st, c):
    """[(elements, state)] of the iterator a call consumes, when they are all known"""
    it = c.args[0]
    if it.k == "app" and it.a[0] == "cseq":
        return [(it.a[1:], st)]
    if it.k != "agg" or it.a[0] not in ai.p.adts:
        return None
    nx = [f for f in ai.p.method(it.a[0].split("::")[-1], "next") if f.argc == 1]
    if len(nx) != 1:
        return None
    root = ("l", fr.depth, 100000)
    s0 = st.clone()
    s0.store[root] = it
    work, outs = [(s0, ())], []
    while work:
        s, acc = work.pop()
        if len(acc) > 16:
            return None
        for r, s2 in ai.invoke(fr, s, c, nx[0].id, [REF(root)]):
            if r.k != "agg":
                return None
            if r.a[1] == "None":
                s2 = s2.clone()
                s2.store.pop(root, None)
                outs.append((acc, s2))
            else:
                work.append((s2, acc + (r.a[2][0][1],)))
    return outs


@m("std::iter::Iterator::map", "std::iter::Iterator::filter", "std::iter::Iterator::filter_map")
def _adapt(ai, fr, st, c):
    if c.res in ai.p.fns or not ai.concrete_seq:
        return None
    n = c.decl.split("::")[-1]
    src = drain(ai, fr, st, c)
    if src is None:
        return None
    work, outs = [(s, e, ()) for e, s in src], []
    while work:
        s, rest, acc = work.pop()
        if not rest:
            outs.append((mk("app", "cseq", *acc), s))
            continue
        x = rest[0]
        for r, s2 in ai.call_value(fr, s, c, c.args[1], [x if n != "filter" else ai.refto(x)]):
            if n == "map":
                work.append((s2, rest[1:], acc + (r,)))
            elif n == "filter":
                for b, s3 in ai.branch(s2, r):
                    work.append((s3, rest[1:], acc + (x,) if b else acc))
            else:
                for v, s3 in ai.cases(s2, r, OPT):
                    work.append((s3, rest[1:], acc + (pay(r, "Some"),) if v == "Some" else acc))
    return outs


@m("std::iter::Iterator::find", "std::iter::Iterator::position", "std::iter::Iterator::find_map", "std::iter::Iterator::rposition")
def _find(ai, fr, st, c):
    it = c.args[0]
    for _ in range(3):
        if it.k == "ref":
            it = ai.deref(fr, st, it)
    if not (it.k == "app" and it.a[0] == "cseq") or c.res in ai.p.fns:
        return None
    n = c.decl.split("::")[-1]
    back = n == "rposition"
    work, outs = [(st, len(it.a) - 1 if back else 1)], []
    while work:
        s, i = work.pop()
        if i >= len(it.a) or i < 1:
            outs.append((NONE, s))
            continue
        x = it.a[i]
        for r, s2 in ai.call_value(fr, s, c, c.args[1], [ai.refto(x) if n == "find" else x]):
            if n == "find_map":
                for v, s3 in ai.cases(s2, r, OPT):
                    if v == "Some":
                        outs.append((SOME(pay(r, "Some")), s3))
                    else:
                        work.append((s3, i - 1 if back else i + 1))
                continue
            for b, s3 in ai.branch(s2, r):
                if b:
                    outs.append((SOME(x if n == "find" else INT(i - 1)), s3))
                else:
                    work.append((s3, i - 1 if back else i + 1))
    return outs


@m("std::iter::Iterator::copied", "std::iter::Iterator::cloned")
def _copied(ai, fr, st, c):
    it = c.args[0]
    if not (it.k == "app" and it.a[0] == "cseq"):
        return None
    return one(mk("app", "cseq", *[ai.deref(fr, st, x) for x in it.a[1:]]), st)


@m("std::iter::Iterator::rev")
def _rev(ai, fr, st, c):
    it = c.args[0]
    if not (it.k == "app" and it.a[0] == "cseq"):
        return None
    return one(mk("app", "cseq", *it.a[:0:-1]), st)


@m("std::iter::Iterator::collect")
def _collect(ai, fr, st, c):
    it = c.args[0]
    if not (it.k == "app" and it.a[0] == "cseq"):
        return None
    v = mk("app", "empty")
    for x in it.a[1:]:
        v = mk("app", "push", v, x)
    return one(v, st)


# `siter` = a slice/vector iterator at an unknown position, `riter` = an integer range.
# Elements are drawn one by one: each draw is a fresh index (the monitor is told), or the end.
def _is_seq_ref(ty):
    t = ty.strip()
    return bool(re.match(r"^&('\w+ )?(mut )?(std::vec::Vec<|\[)", t))


_into_prev = TABLE["std::iter::IntoIterator::into_iter"]


@m("std::iter::IntoIterator::into_iter")
def _into_iter(ai, fr, st, c):
    if c.res in ai.p.fns:
        return None
    t = c.aty[0].strip() if c.aty else ""
    if t.startswith("std::option::Option<"):
        return [(mk("app", "cseq", *([pay(c.args[0], "Some")] if var == "Some" else [])), s) for var, s in ai.cases(st, c.args[0], OPT)]
    if re.match(r"^&('\w+ )?(mut )?std::option::Option<", t) and c.args[0].k == "ref":
        return _oiter(ai, fr, st, c)
    cs = cseq_of(ai, fr, st, c.args[0])
    if cs is not None:
        return one(cs, st)
    if c.aty and _is_seq_ref(c.aty[0]):
        return one(mk("app", "siter", c.args[0]), st)
    return _into_prev(ai, fr, st, c)


@m("std::slice::[T]::iter", "std::slice::[T]::iter_mut", "std::vec::Vec::iter")
def _slice_iter(ai, fr, st, c):
    cs = cseq_of(ai, fr, st, c.args[0])
    if cs is not None:
        return one(cs, st)
    return one(mk("app", "siter", c.args[0]), st)


def draw(ai, fr, st, it, ref):
    """[(Some(elem)|None, state)] for one step of iterator value `it` (stored at ref)"""
    if it.k == "app" and it.a[0] == "cseq":
        s = st.clone()
        if ref is not None:
            ai.store_to(fr, s, ref, mk("app", "cseq", *it.a[2:]))
        return [(SOME(it.a[1]) if len(it.a) > 1 else NONE, s)]
    if it.k == "agg" and str(it.a[0]).endswith("ops::Range") and ai.concrete_seq and it.a[2][0][1].k == it.a[2][1][1].k == "int":
        lo, hi = it.a[2][0][1].a[0], it.a[2][1][1].a[0]
        s = st.clone()
        if ref is not None and lo < hi:
            ai.store_to(fr, s, ref, mk("agg", it.a[0], it.a[1], ((it.a[2][0][0], INT(lo + 1)), it.a[2][1])))
        return [(SOME(INT(lo)) if lo < hi else NONE, s)]
    if it.k == "agg" and str(it.a[0]).endswith("ops::Range"):
        it = mk("app", "riter", it.a[2][0][1], it.a[2][1][1])
    if it.k != "app" or it.a[0] not in ("siter", "riter", "riter+"):
        return None
    ix = ai.fresh(fr, st, ("ix",))
    s1 = st.clone()
    s2 = st.clone()
    if it.a[0] == "siter":
        root, path = ai.target(it.a[1])
        v = SOME(REF(root, path + (("i", ix),)))
    else:
        lo, hi = it.a[1], it.a[2]
        ai.assume(s1, LT(ix, hi), 1)
        v = SOME(ix)
    out = []
    for val, s in ((v, s1), (NONE, s2)):
        if ref is not None:
            ai.store_to(fr, s, ref, it)
        if ai.mon is not None:
            if ai.mon.iternext(ai, fr, s, it, ix if val is not NONE else None) is False:
                continue
        out.append((val, s))
    return out


@m("std::iter::Iterator::next")
def _iter_next(ai, fr, st, c):
    if c.res in ai.p.fns:
        return None
    return draw(ai, fr, st, ai.deref(fr, st, c.args[0]), c.args[0])


def _iter_consume(ai, fr, st, c, step, done):
    """run a closure over an iterator until it stops: step(ret, st) -> [(result|None, st)]"""
    it, ref = c.args[0], None
    if it.k == "ref":
        ref = it
        it = ai.deref(fr, st, it)
    if it.k == "app" and it.a[0] == "cseq":
        outs, work = [], [(st, it.a[1:])]
        while work:
            s, rest = work.pop()
            if not rest:
                outs.append((done, s))
                continue
            for r, s3 in ai.call_value(fr, s, c, c.args[1], [rest[0]]):
                for res, s4 in step(r, s3):
                    if res is None:
                        work.append((s4, rest[1:]))
                    else:
                        outs.append((res, s4))
        return outs
    if draw(ai, fr, st.clone(), it, None) is None:
        return None
    fv = c.args[1]
    outs, seen, work = [], set(), [st]
    while work:
        s = work.pop()
        k = s.key()
        if k in seen:
            continue
        seen.add(k)
        if len(seen) > 60:
            return None
        for v, s2 in draw(ai, fr, s, it, None):
            if v is NONE:
                outs.append((done, s2))
                continue
            for r, s3 in ai.call_value(fr, s2, c, fv, [v.a[2][0][1]]):
                for res, s4 in step(r, s3):
                    if res is None:
                        s4 = s4.clone()
                        ai.age(fr, s4)
                        work.append(s4)
                    else:
                        outs.append((res, s4))
    return outs


@m("std::iter::Iterator::for_each")
def _for_each(ai, fr, st, c):
    return _iter_consume(ai, fr, st, c, lambda r, s: [(None, s)], UNIT)


@m("std::iter::Iterator::try_for_each")
def _try_for_each(ai, fr, st, c):
    def step(r, s):
        adt = r.a[0] if r.k == "agg" else RES
        out = []
        for v, s2 in ai.cases(s, r, RES):
            out.append((None, s2) if v == "Ok" else (r if r.k == "agg" else ERR(pay(r, "Err")), s2))
        return out
    return _iter_consume(ai, fr, st, c, step, OK(UNIT))


@m("std::iter::Iterator::any")
def _any(ai, fr, st, c):
    return _iter_consume(ai, fr, st, c, lambda r, s: [((TRUE if v else None), s2) for v, s2 in ai.branch(s, r)], FALSE)


@m("std::iter::Iterator::all")
def _all(ai, fr, st, c):
    return _iter_consume(ai, fr, st, c, lambda r, s: [((None if v else FALSE), s2) for v, s2 in ai.branch(s, r)], TRUE)

def _cs(ai, fr, st, v):
    for _ in range(3):
        if v.k == "ref":
            v = ai.deref(fr, st, v)
    return v if v.k == "app" and v.a[0] == "cseq" else None


def _seqop(*names):
    """operations on a sequence whose elements are all known"""
    def deco(g):
        for n in names:
            old = TABLE.get("std::iter::Iterator::" + n)

            def f(ai, fr, st, c, old=old, n=n):
                it = _cs(ai, fr, st, c.args[0]) if c.args and c.res not in ai.p.fns else None
                r = g(ai, fr, st, c, list(it.a[1:]), n) if it is not None else None
                return r if r is not None else old(ai, fr, st, c) if old else None
            TABLE["std::iter::Iterator::" + n] = f
        return g
    return deco


def _mkseq(l):
    return mk("app", "cseq", *l)


@_seqop("count", "last", "enumerate", "take", "skip", "nth", "step_by")
def _s_simple(ai, fr, st, c, e, n):
    if n == "count":
        return one(INT(len(e)), st)
    if n == "last":
        return one(SOME(e[-1]) if e else NONE, st)
    if n == "enumerate":
        return one(_mkseq([AGG("tuple", None, INT(i), x) for i, x in enumerate(e)]), st)
    k = c.args[1]
    if k.k != "int":
        return None
    k = k.a[0]
    if n == "take":
        return one(_mkseq(e[:k]), st)
    if n == "skip":
        return one(_mkseq(e[k:]), st)
    if n == "step_by":
        return one(_mkseq(e[::k]), st) if k else None
    if n == "nth":
        s = st.clone()
        if c.args[0].k == "ref":
            ai.store_to(fr, s, c.args[0], _mkseq(e[k + 1:]))
        return one(SOME(e[k]) if k < len(e) else NONE, s)


@_seqop("zip", "chain")
def _s_two(ai, fr, st, c, e, n):
    b = _cs(ai, fr, st, c.args[1]) or cseq_of(ai, fr, st, c.args[1])
    if b is None:
        return None
    l = list(b.a[1:])
    return one(_mkseq(e + l if n == "chain" else [AGG("tuple", None, x, y) for x, y in zip(e, l)]), st)


@_seqop("fold")
def _s_fold(ai, fr, st, c, e, n):
    work, out = [(st, c.args[1], 0)], []
    while work:
        s, acc, i = work.pop()
        if i == len(e):
            out.append((acc, s))
            continue
        for r, s2 in ai.call_value(fr, s, c, c.args[2], [acc, e[i]]):
            work.append((s2, r, i + 1))
    return out


@_seqop("all", "take_while", "skip_while")
def _s_while(ai, fr, st, c, e, n):
    work, out = [(st, 0)], []

    def end(s, i):
        if n == "all":
            return INT(1 if i == len(e) else 0), s
        return _mkseq(e[:i] if n == "take_while" else e[i:]), s
    while work:
        s, i = work.pop()
        if i == len(e):
            out.append(end(s, i))
            continue
        for r, s2 in ai.call_value(fr, s, c, c.args[1], [e[i] if n == "all" else ai.refto(e[i])]):
            for b, s3 in ai.branch(s2, r):
                if b:
                    work.append((s3, i + 1))
                else:
                    out.append(end(s3, i))
    return out

