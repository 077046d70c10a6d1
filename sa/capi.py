"""The exported C interface: enumeration of its functions and of their
abstract outcomes for every combination of NULL / non-NULL pointer arguments."""
import itertools

from absint import (AI, Monitor, St, mk, REF, NULL, INT, UNIT, NONE, SOME, show, showroot, showkey, ty_base, project,
                    NOT, EQ, LT, OPT, FALSE, TRUE)

# documented as requiring initialised arguments (everything else accepts NULL)
NONNULL = {
    "bstr_len": {"x"}, "bstr_ptr": {"x"}, "bstr_size": {"x"}, "bstr_cmp_c": {"b", "c"},
    "bstr_cmp_c_nocase": {"b", "c"}, "bstr_dup_c": {"cstr"},
}


def exported(prog):
    """the C entry points, without the fuzzing support of src/test.rs"""
    r = {}
    for f in prog.code():
        if f.kind == "fn" and (f.raw.get("abi") or "").startswith("C ") and f.file.startswith("src/c_api/"):
            r[f.name] = f
    return r


class CMon(Monitor):
    def __init__(self):
        self.ev = []
        self.writes = []
        self.calls = []

    def nullderef(self, ai, fr):
        self.ev.append(("null-deref", "%s dereferences a NULL pointer" % fr.where()))

    def panic(self, ai, fr, st, why):
        self.ev.append(("panic", "%s can panic (%s)" % (fr.where(), why)))

    def ext(self, ai, fr, st, c):
        if any(a is NULL for a in c.args):
            self.ev.append(("null-arg", "%s passes NULL to %s" % (fr.where(), c.decl)))

    def call(self, ai, fr, st, c):
        t = c.target
        if t in ai.p.fns:
            self.calls.append((t, tuple(c.args)))
            if any(a is NULL for a in c.args) and not ai.should_inline(t) and t not in ai.intrinsics:
                self.ev.append(("null-arg", "%s passes NULL to %s, which is too large to follow" % (fr.where(), t)))
        return None

    def write(self, ai, fr, st, root, path, val):
        self.writes.append((root, path, val))


class Run:
    def __init__(self, prog, f, nulls=(), intrinsics=None, argv=None, inline=48):
        self.f = f
        self.names = [f.locals[i + 1].get("n") or "a%d" % i for i in range(f.argc)]
        self.tys = [f.locals[i + 1]["ty"] for i in range(f.argc)]
        self.mon = CMon()
        objt = {}
        args = []
        for n, t in zip(self.names, self.tys):
            if t.startswith(("*", "&")):
                if n in nulls:
                    args.append(NULL)
                else:
                    objt[n] = ty_base(t)
                    args.append(REF(("o", n)))
            else:
                args.append((argv or {}).get(n) or mk("sym", "arg:" + n))
        self.args = args
        self.ai = AI(prog, monitor=self.mon, objtypes=objt, tracked_all=True, step_cap=60000,
                     intrinsics=intrinsics or {}, inline_small=inline)
        self.outs = self.ai.run(f.id, args, St({}, {}, None))


def pointers(f):
    return [f.locals[i + 1].get("n") or "a%d" % i for i in range(f.argc) if f.locals[i + 1]["ty"].startswith("*")]


def combos(f):
    ps = [p for p in pointers(f) if p not in NONNULL.get(f.name, ())]
    for c in itertools.product((False, True), repeat=len(ps)):
        yield frozenset(p for p, b in zip(ps, c) if b)


def writes_desc(run):
    return sorted({"%s.%s" % (showroot(r), ".".join(showkey(e) for e in p)) for r, p, v in run.mon.writes
                   if r[0] in ("o", "s") or r[0] == "d"})


# ---------------------------------------------------------------- equality under facts
def same(ai, st, got, exp, rty=""):
    """is the abstract result `got` equal to `exp` in state st?"""
    if got is exp:
        return True
    for a, b in ((got, exp), (exp, got)):
        if a.k == "app" and a.a[0] == "cast:" + rty:
            if same(ai, st, a.a[1], b, rty):
                return True
    if got.k == "ref" and exp.k == "ref":
        return got.a == exp.a
    if got.k == "agg" and got.a[1] is not None and not got.a[2]:
        d = ai.dom(st, exp)
        return d == ("in", frozenset((got.a[1],)))
    if isbool(got) or isbool(exp) or got.k == "int" or exp.k == "int":
        if (isbool(exp) or exp.k == "int" and exp.a[0] in (0, 1)) and (isbool(got) or got.k == "int" and got.a[0] in (0, 1)):
            x, y = ai.evalb(st, got), ai.evalb(st, exp)
            if x is not None and x == y:
                return True
        if got.k == "int":
            d = ai.dom(st, exp)
            return d == ("in", frozenset((got.a[0],)))
    return False


def isbool(t):
    return t.k == "is" or (t.k == "op" and t.a[0] in ("Eq", "Lt", "Not")) or t.k in ("proj", "sym") or \
        (t.k == "app" and t.a[0] in ("isnull",))
