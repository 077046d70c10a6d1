"""Expected results as case lists, and the comparison of a function's abstract
outcomes against them (for every path, under the facts of that path)."""
from absint import mk, REF, INT, NULL, OPT, RES, ty_base, project, show, NOT, EQ, LT, UNIT
import capi


class Obj:
    """terms and references for fields of a named object"""

    def __init__(self, prog, name, ty):
        self.p, self.name, self.ty = prog, name, ty

    def path(self, dotted):
        ty = self.ty
        out = ()
        for part in dotted.split(".") if dotted else ():
            if part.startswith("#"):
                out = out + (("v", part[1:], "0"),)
                continue
            a = self.p.adts.get(ty)
            f = None
            if a:
                for x in a["variants"][0]["fields"]:
                    if x["name"] == part:
                        f = x
            if f is None:
                raise KeyError("no field %s in %s" % (part, ty))
            out = out + (("f", ty, part),)
            t = f["ty"]
            for w in ("std::rc::Rc<", "std::boxed::Box<", OPT + "<"):
                if t.startswith(w):
                    t = t[len(w):-1]
            ty = ty_base(t)
        return out

    def val(self, dotted):
        v = mk("sym", self.name)
        for e in self.path(dotted):
            v = project(v, e)
        return v

    def ref(self, dotted):
        return REF(("o", self.name), self.path(dotted))


# a case is (assumptions, value); an assumption is (boolean term, 0|1) or (term, variant, adt)
def optref(o, f):
    v = o.val(f)
    return [([(v, "Some", OPT)], o.ref(f + ".#Some")), ([(v, "None", OPT)], NULL)]


def ref(o, f):
    return [([], o.ref(f))]


def val(o, f):
    return [([], o.val(f))]


def fits(x, ty, none=-1):
    t = mk("app", "fits:" + ty, x)
    return [([(t, 1)], x), ([(t, 0)], INT(none))]


def optint(o, f, none=-1):
    v = o.val(f)
    return [([(v, "Some", OPT)], o.val(f + ".#Some")), ([(v, "None", OPT)], INT(none))]


def optfits(o, f, ty):
    v = o.val(f)
    r = [([(v, "None", OPT)], INT(-1))]
    for a, x in fits(o.val(f + ".#Some"), ty):
        r.append(([(v, "Some", OPT)] + a, x))
    return r


def flt(ai, st, case):
    """state refined by the case's assumptions, or None"""
    s = st.clone()
    for a in case[0]:
        if len(a) == 2:
            if not ai.assume(s, a[0], a[1]):
                return None
        else:
            if not ai.restrict(s, a[0], "in", frozenset((a[1],)), a[2]):
                return None
    return s


def compare(ai, outs, cases, rty):
    """list of mismatches between abstract outcomes and the expected cases"""
    bad = []
    seen = set()
    for ret, st in outs:
        hit = False
        for i, c in enumerate(cases):
            s = flt(ai, st, c)
            if s is None:
                continue
            hit = True
            seen.add(i)
            if not capi.same(ai, s, ret, c[1], rty):
                bad.append("when %s it yields %s, expected %s" % (cond(c), show(ret), show(c[1])))
        if not hit:
            bad.append("yields %s in a case the specification does not have" % show(ret))
    for i, c in enumerate(cases):
        if i not in seen:
            bad.append("no path handles the case %s (expected %s)" % (cond(c), show(c[1])))
    return bad


def cond(c):
    if not c[0]:
        return "called"
    out = []
    for a in c[0]:
        if len(a) == 2:
            out.append("%s%s" % ("" if a[1] else "not ", show(a[0])))
        else:
            out.append("%s is %s" % (show(a[0]), a[1]))
    return " and ".join(out)


def optref_term(t):
    """NULL, or the pointer carried by the Some of term t"""
    from absint import mk as _mk
    p = _mk("proj", t, ("v", "Some", "0"))
    return [([(t, "Some", OPT)], p), ([(t, "None", OPT)], NULL)]
