"""Ownership across the C interface."""
import re
import itertools
from absint import AI, St, mk, INT, REF, NULL, UNIT, Monitor, show, ty_base, EQ, SOME, NONE
import capi
import nom as NM
from nom import byte, BS
import props.p15 as U
import props.p17 as E

GIVES = {
    "bstr_alloc": ("Box", "bstr::Bstr"), "bstr_dup_c": ("Box", "bstr::Bstr"), "htp_config_create": ("Box", "config::Config"),
    "htp_connp_create": ("Box", "connection_parser::ConnectionParser"), "htp_conn_next_log": ("Box", "log::Log"),
    "htp_log_message": ("CString", ""), "htp_log_file": ("CString", ""), "bstr_util_strdup_to_c": ("malloc", ""),
}
TAKES = {
    "bstr_free": ("Box", "bstr::Bstr"), "htp_config_destroy": ("Box", "config::Config"),
    "htp_connp_destroy_all": ("Box", "connection_parser::ConnectionParser"), "htp_log_free": ("Box", "log::Log"),
    "htp_free_cstring": ("CString", ""),
}
KEEP = re.compile(r"^std::mem::(forget|ManuallyDrop::new|transmute)$|::leak$|^std::(rc::Rc|sync::Arc)::(into_raw|from_raw|increment_strong_count|decrement_strong_count)$|"
                  r"Vec::(from_raw_parts|into_raw_parts)$|String::from_raw_parts$|^std::alloc::(alloc|dealloc|realloc|alloc_zeroed)$|^std::ptr::(drop_in_place|read|write|replace|swap)$")


def kind_of(c):
    d = E.strip(c.decl or "")
    m = re.match(r"^std::(?:boxed::)?(Box|ffi::CString)(?:::<.*>)?::(into_raw|from_raw)$", d) or \
        re.match(r"^(?:std|alloc)::.*\b(Box|CString)\b.*::(into_raw|from_raw)$", d)
    if m:
        k = m.group(1).split("::")[-1]
        t = ""
        if k == "Box":
            t = next((ty_base(str(g)) for g in c.gargs or () if not str(g).startswith("'")), "?")
        return m.group(2), k, t
    if re.match(r"^libc::(malloc|calloc)$", d):
        return "into_raw", "malloc", ""
    if d == "libc::free":
        return "from_raw", "malloc", ""
    return None


class Mon(Monitor):
    def __init__(self):
        self.ev = []

    def nullderef(self, ai, fr):
        pass

    def panic(self, ai, fr, st, why):
        pass

    def ext(self, ai, fr, st, c):
        pass

    def write(self, ai, fr, st, root, path, val):
        pass

    def call(self, ai, fr, st, c):
        k = kind_of(c)
        if k is None:
            if KEEP.search(E.strip(c.decl or "")) and not (c.decl or "").endswith("mem::drop"):
                s = st.clone()
                s.mon = st.mon + (("keep", E.strip(c.decl)),)
                return [(mk("app", "kept", *[a for a in c.args if hasattr(a, "k")]), s)]
            return None
        how, kind, t = k
        s = st.clone()
        if how == "into_raw":
            r = mk("sym", "raw:%s:%s:%d" % (kind, t, len(st.mon)))
            src = c.args[0] if c.args else UNIT
            s.mon = st.mon + (("give", kind, t, r, src),)
            return [(r, s)]
        s.mon = st.mon + (("take", kind, t, c.args[0]),)
        return [(mk("app", "owned", c.args[0]), s)]


def run(ctx):
    p = ctx.prog
    fs = list(capi.exported(p).values())
    byname = {f.name: f for f in fs}
    for n in list(GIVES) + list(TAKES):
        if n not in byname:
            ctx.violation("anchor:" + n, "%s is gone" % n)
    ctx.floor("exported functions", len(fs), 150)
    sites(ctx, p, fs)
    for f in fs:
        one(ctx, p, f)


def sites(ctx, p, fs):
    """ownership is passed by hand only in functions the exported ones reach, and never thrown away"""
    reach = p.reach(fs)
    api = {g.id for g in p.fns.values() if "/c_api/" in g.file or g.file.startswith("src/c_api")}
    n = 0
    for g in p.code():
        for r in E.named(g.blocks):
            d = E.strip(r["fn"])
            if re.search(r"\b(Box|CString|Rc|Arc|Vec|String)\b.*::(from_raw|into_raw|leak|from_raw_parts|into_raw_parts)$|^std::mem::(forget|ManuallyDrop::new)$|ManuallyDrop::new$", d):
                n += 1
                if g.id not in api:
                    ctx.violation("site:%s:%s" % (g.id, d), "%s passes ownership by hand (%s) outside the C interface" % (g.where(), d))
                elif re.search(r"(forget|ManuallyDrop::new|leak)$", d):
                    ctx.violation("site:%s:%s" % (g.id, d), "%s never releases what it owns (%s)" % (g.where(), d))
                else:
                    ctx.ok("site", "%s %s" % (g.id, d))
    ctx.floor("ownership transfers", n, 8)


def one(ctx, p, f):
    if f.name == "bstr_util_strdup_to_c":
        cstring(ctx, p, f)
        return
    objs = {}
    for nulls in capi.combos(f):
        mon = Mon()
        names = [f.locals[i + 1].get("n") or "a%d" % i for i in range(f.argc)]
        objt, args = {}, []
        for i, n in enumerate(names):
            t = f.locals[i + 1]["ty"]
            if t.startswith(("*", "&")):
                if n in nulls:
                    args.append(NULL)
                else:
                    objt[n] = ty_base(t)
                    args.append(REF(("o", n)))
            else:
                args.append(mk("sym", "arg:" + n))
        rel = {x for x in p.reach([f]) if any(kind_of_ref(r) for r in E.named(p.fns[x].blocks))}
        ai = AI(p, monitor=mon, objtypes=objt, tracked_all=True, step_cap=60000, relevant=rel, inline_small=12)
        outs = ai.run(f.id, args, St({}, {}, ()))
        ctx.used(ai)
        for ret, s in outs:
            judge(ctx, f, nulls, names, args, ret, s)
    ctx.ok("function", f.name)


def kind_of_ref(r):
    return bool(re.search(r"::(from_raw|into_raw)$|^libc::", E.strip(r["fn"])))


def judge(ctx, f, nulls, names, args, ret, s):
    gives = [e for e in s.mon if e[0] == "give"]
    takes = [e for e in s.mon if e[0] == "take"]
    keeps = [e for e in s.mon if e[0] == "keep"]
    w = "%s(%s)" % (f.name, ", ".join("NULL" if n in nulls else n for n in names))
    bad = lambda k, m: ctx.violation("%s:%s" % (f.name, k), "%s: %s" % (f.where(), m))
    if keeps:
        bad("keep", "%s uses %s" % (w, keeps[0][1]))
    if f.name in TAKES:
        want = [] if args[0] is NULL else [TAKES[f.name]]
        if [e[1:3] for e in takes] != want or any(e[3] is not args[0] for e in takes):
            bad("release", "%s releases %s, not %s" % (w, [("%s<%s>" % e[1:3], show(e[3])[:40]) for e in takes],
                                                     "exactly its argument" if want else "nothing"))
    elif takes:
        bad("release", "%s releases %s, which its caller still owns" % (w, show(takes[0][3])[:60]))
    if f.name in GIVES:
        if ret is NULL or ret.k == "null":
            if gives:
                bad("leak", "%s allocates an object but returns NULL" % w)
        elif len(gives) != 1 or gives[0][1:3] != GIVES[f.name]:
            bad("fresh", "%s gives its caller %s instead of one new %s" % (w, [e[1:3] for e in gives], "%s<%s>" % GIVES[f.name]))
        elif ret is not gives[0][3]:
            bad("fresh", "%s returns %s, not the object it allocated" % (w, show(ret)[:60]))
        elif nulls and f.name != "htp_connp_create":
            pass
    elif gives:
        bad("leak", "%s allocates a %s that nobody is told to release" % (w, gives[0][1]))
    if f.name in TAKES and gives:
        bad("leak", "%s keeps its argument alive" % w)


# ------------------------------------------------------------------ C strings
class Mem(NM.ByteAI):
    """writes to the allocated block are kept cell by cell"""

    def write(self, fr, st, root, path, val):
        if root[0] == "d" and root[1].k == "app" and root[1].a[0] == "block":
            i = path[0][1] if len(path) == 1 and path[0][0] == "i" else None
            n = root[1].a[1]
            if i is None or i.k != "int" or n.k != "int":
                raise NM.Unsupported("write to the allocated block")
            if not 0 <= i.a[0] < n.a[0]:
                raise Outside(i.a[0], n.a[0])
            st.mon = tuple(e for e in st.mon if not (e[0] == "cell" and e[1] == i.a[0])) + (("cell", i.a[0], val),)
            return
        return NM.ByteAI.write(self, fr, st, root, path, val)


class Outside(Exception):
    pass


class CMon(U.Mon):
    def call(self, ai, fr, st, c):
        d = E.strip(c.decl or "")
        if d in ("libc::malloc",):
            s = st.clone()
            s.mon = st.mon + (("size", c.args[0]),)
            blk = mk("app", "block", c.args[0])
            return [(NULL, st), (blk, s)]
        if d.endswith("from_raw_parts_mut") and c.args[0].k == "app" and c.args[0].a[0] == "block":
            if c.args[1] is not c.args[0].a[1]:
                raise NM.Unsupported("a slice longer than the block")
            return [(REF(("d", c.args[0])), st)]
        if d.endswith("from_raw_parts") or d.endswith("from_raw_parts_mut"):
            s = NM.span(c.args[0])
            if s is not None:
                return [(BS(*s), st)]
        if d.endswith("::is_null") and c.args[0].k == "app" and c.args[0].a[0] == "block":
            return [(INT(0), st)]
        if d.endswith("::as_ptr") or d.endswith("::as_mut_ptr"):
            s = self.inp(ai, fr, st, c.args[0])
            if s is not None:
                return [(BS(*s), st)]
            r = self.value(ai, fr, st, c.args[0])
            if r.k == "app" and r.a[0] == "block":
                return [(r, st)]
        if d.endswith("::cast") and c.args[0].k == "app" and c.args[0].a[0] == "block":
            return [(c.args[0], st)]
        r = self.cells(ai, fr, st, c, d)
        if r is not None:
            return r
        return U.Mon.call(self, ai, fr, st, c)

    def cells(self, ai, fr, st, c, d):
        """pointer-wise writes to the block"""
        def at(v):
            k = 0
            while v.k == "app" and v.a[0] == "ptradd" and v.a[2].k == "int":
                k, v = k + v.a[2].a[0], v.a[1]
            return (v, k) if v.k == "app" and v.a[0] == "block" else (None, 0)
        last = d.split("::")[-1]
        if not c.args:
            return None
        b, k = at(c.args[0])
        if b is None:
            return None
        if last in ("add", "offset", "wrapping_add") and c.args[1].k == "int":
            return [(mk("app", "ptradd", c.args[0], c.args[1]), st)]
        if last == "write" and len(c.args) == 2:
            s = st.clone()
            ai.write(fr, s, ("d", b), (("i", INT(k)),), c.args[1])
            return [(UNIT, s)]
        return None


def cstring(ctx, p, f):
    ok = 0
    for n in range(0, 4):
        mon = CMon(ctx, f.name)
        ai0 = U.machine(p, mon)
        ai = Mem(p, monitor=mon, objtypes={"b": "bstr::Bstr"}, tracked_all=True, relevant={x for x in ai0.intrinsics if x in p.fns},
                 intrinsics=ai0.intrinsics, step_cap=200000, state_cap=20000, inline_small=48)
        ai.concrete_seq = True
        st = St({}, {}, (U.pins(n),))
        st.store[("o", "b")] = U.AGG0(p, BS(0, n))
        try:
            outs = ai.run(f.id, [REF(("o", "b"))], st)
        except Outside as e:
            ctx.violation("strdup:bounds", "%s writes at %d of a block of %d bytes" % (f.where(), e.args[0], e.args[1]))
            continue
        except NM.Unsupported as e:
            ctx.violation("strdup:form", "%s uses a construct this analysis does not know: %s" % (f.where(), e))
            continue
        ctx.used(ai)
        for ret, s in outs:
            if ret.k == "null":
                continue
            import dtable as D

            def oracle(e):
                w = []
                for i in range(n):
                    w += [INT(0x5c), INT(0x30)] if e.true(EQ(byte(i), INT(0))) else [byte(i)]
                return w + [INT(0)]
            for s2, want, trace in D.explore(ai, s, oracle):
                cells = dict((e[1], e[2]) for e in s2.mon if e[0] == "cell")
                got = [cells.get(i) for i in range(len(want))]
                if not (ret.k == "app" and ret.a[0] == "block"):
                    ctx.violation("strdup:block", "%s does not return the block it allocated" % f.where())
                elif any(g is None or not ai.same_byte(s2, strip8(g), w) for g, w in zip(got, want)):
                    ctx.violation("strdup:bytes", "%s yields %s instead of %s" % (
                        f.where(), [show(g)[:20] if g is not None else "-" for g in got], [show(x)[:20] for x in want]))
                ok += 1
                ctx.ok("C string", "%d bytes %s" % (n, [v for t, v in trace]))
    ctx.floor("C string rows", ok, 15)


def strip8(t):
    while t.k in ("op", "app") and isinstance(t.a[0], str) and t.a[0].startswith("cast:"):
        t = t.a[1]
    return t
