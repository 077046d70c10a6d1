"""Path-sensitive property simulation over MIR (in the style of ESP).

Abstract state  = store (values as hash-consed terms)
                x facts (finite value sets for enum/bool/integer terms)
                x monitor (an automaton state supplied by the check).
States are propagated over the control-flow graph of a function to a fixpoint;
calls to relevant functions of the crate are analysed through memoised
summaries, all other calls havoc what they may modify (field-based mod sets).
Terms are only compared for identity (global value numbering); there is no
solver and nothing is executed.
"""
import re
from collections import defaultdict

OPT = "std::option::Option"
RES = "std::result::Result"
CF = "std::ops::ControlFlow"
ORD = "std::cmp::Ordering"


# ---------------------------------------------------------------- terms
class V:
    __slots__ = ("k", "a", "at", "d")

    def __repr__(self):
        return show(self)


_intern = {}


def mk(k, *a):
    key = (k, a)
    v = _intern.get(key)
    if v is None:
        v = V()
        v.k = k
        v.a = a
        v.at = None
        v.d = 1 + _depth(a)
        _intern[key] = v
    return v


def _depth(x):
    if isinstance(x, V):
        return x.d
    if isinstance(x, tuple):
        m = 0
        for y in x:
            if isinstance(y, V):
                if y.d > m:
                    m = y.d
            elif isinstance(y, tuple):
                z = _depth(y)
                if z > m:
                    m = z
        return m
    return 0


MAXDEPTH = 9
EMPTY = frozenset()


def _atoms_of(x):
    if isinstance(x, V):
        return atoms(x)
    if isinstance(x, tuple):
        r = EMPTY
        for y in x:
            z = _atoms_of(y)
            if z:
                r = r | z if r else z
        return r
    return EMPTY


def atoms(v):
    if v.at is None:
        if v.k == "sym":
            v.at = frozenset((v,))
        else:
            v.at = _atoms_of(v.a)
    return v.at


def _refs_of(x, out):
    """roots referenced by a term"""
    if isinstance(x, V):
        if x.k == "ref":
            out.add(x.a[0])
            _refs_of(x.a[1], out)
            if x.a[0][0] == "d":
                _refs_of(x.a[0][1], out)
        else:
            for y in x.a:
                _refs_of(y, out)
    elif isinstance(x, tuple):
        for y in x:
            _refs_of(y, out)


_refcache = {}


def refs(v):
    r = _refcache.get(v)
    if r is None:
        o = set()
        _refs_of(v, o)
        r = frozenset(o)
        _refcache[v] = r
    return r


_leafcache = {}


def leaves(v):
    """maximal projection chains starting at a named object, e.g. self.conn.flags"""
    r = _leafcache.get(v)
    if r is None:
        o = set()
        _leaves(v, o)
        r = frozenset(o)
        _leafcache[v] = r
    return r


def _leaves(x, o):
    if isinstance(x, V):
        if x.k == "proj":
            b = x
            path = []
            while b.k == "proj":
                path.append(b.a[1])
                b = b.a[0]
            if b.k == "sym" and isinstance(b.a[0], str):
                o.add((x, b.a[0], tuple(reversed(path))))
                return
        for y in x.a:
            _leaves(y, o)
    elif isinstance(x, tuple):
        for y in x:
            _leaves(y, o)


def subst(x, m, cache=None):
    if isinstance(x, V):
        if not any(a in m for a in atoms(x)):
            return x
        if x.k == "sym":
            return m.get(x, x)
        return mk(x.k, *[subst(y, m) for y in x.a])
    if isinstance(x, tuple):
        return tuple(subst(y, m) for y in x)
    if isinstance(x, frozenset):
        return frozenset(subst(y, m) for y in x)
    return x


def show(v, d=0):
    if not isinstance(v, V):
        return str(v)
    if d > 6:
        return "…"
    s = lambda y: show(y, d + 1)
    if v.k == "int":
        return str(v.a[0])
    if v.k == "sym":
        n = v.a[0]
        if isinstance(n, tuple) and n[0] == "n":
            return "$%s.%s.%s%s" % (str(n[2]).rsplit("::", 1)[-1], n[3], shown(n[4]), "'" * n[5])
        return "$" + str(n)
    if v.k == "agg":
        return "%s%s(%s)" % (str(v.a[0]).rsplit("::", 1)[-1], "::" + str(v.a[1]) if v.a[1] else "",
                             ", ".join("%s" % s(x) for _, x in v.a[2]))
    if v.k == "ref":
        return "&%s%s" % (showroot(v.a[0]), "".join("." + showkey(e) for e in v.a[1]))
    if v.k == "proj":
        return "%s.%s" % (s(v.a[0]), showkey(v.a[1]))
    if v.k in ("op", "app"):
        return "%s(%s)" % (v.a[0], ", ".join(s(y) for y in v.a[1:]))
    if v.k == "upd":
        return "%s{%s}" % (s(v.a[0]), ", ".join("%s=%s" % (showkey(k), s(y)) for k, y in v.a[1]))
    if v.k == "is":
        return "%s∈{%s}" % (s(v.a[0]), ",".join(sorted(map(str, v.a[1]))))
    return "%s(%s)" % (v.k, ", ".join(s(y) for y in v.a))


def shown(n):
    if isinstance(n, tuple):
        return "(" + ",".join(shown(x) for x in n) + ")"
    return str(n).rsplit("::", 1)[-1]


def showroot(r):
    if r[0] == "o":
        return r[1]
    if r[0] == "d":
        return "*" + show(r[1])
    return ":".join(str(x) for x in r)


def showkey(e):
    if isinstance(e, tuple):
        return str(e[-1]) if e[0] != "v" else "%s#%s" % (e[1], e[2])
    return str(e)


def INT(n):
    return mk("int", int(n))


TRUE = INT(1)
FALSE = INT(0)
UNIT = mk("agg", "tuple", None, ())
NULL = mk("null")


def AGG(adt, variant, *fields):
    if variant is not None:
        return mk("agg", adt, variant, tuple((("v", variant, str(i)), f) for i, f in enumerate(fields)))
    return mk("agg", adt, None, tuple((("t", i), f) for i, f in enumerate(fields)))


def SOME(v):
    return AGG(OPT, "Some", v)


NONE = AGG(OPT, "None")


def OK(v):
    return AGG(RES, "Ok", v)


def ERR(v):
    return AGG(RES, "Err", v)


def place_of_term(v):
    """the place whose initial content is the term v, if there is one"""
    if v.k == "sym" and isinstance(v.a[0], str):
        return ("o", v.a[0]), ()
    if v.k == "proj":
        if v.a[1] == "*":
            return ("d", v.a[0]), ()
        r = place_of_term(v.a[0])
        if r:
            return r[0], r[1] + (v.a[1],)
    return None


def REF(root, path=()):
    if not path and root[0] == "d":
        return root[1]
    return mk("ref", root, path)


def NOT(t):
    if t.k == "int":
        return INT(0 if t.a[0] else 1)
    if t.k == "op" and t.a[0] == "Not":
        return t.a[1]
    return mk("op", "Not", t)


def EQ(a, b):
    if a is b and not many(a):
        return TRUE
    if a.k == "int" and b.k == "int":
        return INT(a.a[0] == b.a[0])
    if a.k == "int" or (b.k != "int" and id(a) > id(b)):
        a, b = b, a
    if b.k == "int" and b.a[0] in (0, 1) and isbool(a):
        return a if b.a[0] else NOT(a)
    return mk("op", "Eq", a, b)


def isbool(a):
    return a.k == "is" or a.k == "op" and a.a[0] in ("Eq", "Lt", "Not")


def LT(a, b):
    """a < b  (unsigned integers, lengths, or anything totally ordered)"""
    if a is b and not many(a):
        return FALSE
    if a.k == "int" and b.k == "int":
        return INT(a.a[0] < b.a[0])
    if a.k == "int" and a.a[0] == 0:
        return NOT(EQ(b, a))
    if b.k == "int" and b.a[0] == 0:
        return FALSE
    if b.k == "int" and b.a[0] == 1:
        return EQ(a, INT(0))
    return mk("op", "Lt", a, b)


def many(v):
    """does the term contain a symbol standing for several values?"""
    for s in atoms(v):
        n = s.a[0]
        if isinstance(n, tuple) and n[0] == "n" and n[5] >= 2:
            return True
    return False


def bspan(v):
    """bounds of an input slice value (see nom.py)"""
    if v.k == "proj" and v.a[1] == "*":
        v = v.a[0]
    if v.k == "app" and v.a[0] == "bs":
        return v.a[1].a[0], v.a[2].a[0]
    return None


def project(v, e):
    k = v.k
    if e[0] in ("i", "ci", "sub"):
        s = bspan(v)
        if s is not None:
            o, n = s
            if e[0] == "i" and e[1].k == "int" and o + e[1].a[0] < n:
                return mk("sym", "b%d" % (o + e[1].a[0]))
            if e[0] == "ci":
                return mk("sym", "b%d" % (n - e[1] if e[3] else o + e[1]))
            if e[0] == "sub":
                return mk("app", "bs", INT(o + e[1]), INT(n - e[2] if e[3] else o + e[2]))
    if k == "agg":
        for key, x in v.a[2]:
            if key == e:
                return x
        if e[0] == "v" and v.a[1] is not None and v.a[1] != e[1]:
            return mk("undef", v, e)
        if e[0] == "f":
            for key, x in v.a[2]:
                if key[0] == "f" and key[2] == e[2]:
                    return x
        return mk("proj", v, e)
    if k == "upd":
        for key, x in v.a[1]:
            if key == e:
                return x
        return project(v.a[0], e)
    if k == "clo" and e[0] == "t":
        caps = v.a[1]
        if e[1] < len(caps):
            return caps[e[1]]
    if k == "app" and e[0] == "i" and v.a[0] == "mapins":
        # keys known to differ are told apart by the caller's facts only; identical terms are found down the chain
        x = v
        while x.k == "app" and x.a[0] == "mapins":
            if x.a[2] is e[1]:
                return x.a[3]
            x = x.a[1]
    if k == "app" and e[0] == "i" and v.a[0] == "push" and e[1].k == "int":
        n, x = 0, v
        while x.k == "app" and x.a[0] == "push":
            n, x = n + 1, x.a[1]
        if x.k == "app" and x.a[0] == "empty" and 0 <= e[1].a[0] < n:
            x = v
            for _ in range(n - 1 - e[1].a[0]):
                x = x.a[1]
            return x.a[2]
    return mk("proj", v, e)


def setpath(v, path, new, unk):
    if not path:
        return new
    e = path[0]
    if e[0] == "i" and e[1].k == "int" and v.k == "app" and v.a[0] == "push":
        el, x = [], v
        while x.k == "app" and x.a[0] == "push" and len(x.a) == 3:
            el.append(x.a[2])
            x = x.a[1]
        if x.k == "app" and x.a[0] == "empty" and 0 <= e[1].a[0] < len(el):
            el.reverse()
            el[e[1].a[0]] = setpath(el[e[1].a[0]], path[1:], new, unk)
            for y in el:
                x = mk("app", "push", x, y)
            return x
    if e[0] in ("i", "ci", "sub"):
        return unk()
    sub = setpath(project(v, e), path[1:], new, unk)
    k = v.k
    if k == "agg":
        done = False
        fs = []
        for key, x in v.a[2]:
            if key == e or (e[0] == "f" and key[0] == "f" and key[2] == e[2]):
                fs.append((key, sub))
                done = True
            else:
                fs.append((key, x))
        if not done:
            if e[0] == "v" and v.a[1] not in (None, e[1]):
                return mk("agg", v.a[0], e[1], ((e, sub),))
            fs.append((e, sub))
        return mk("agg", v.a[0], v.a[1], tuple(fs))
    if k == "clo":
        caps = list(v.a[1])
        if e[0] == "t" and e[1] < len(caps):
            caps[e[1]] = sub
            return mk("clo", v.a[0], tuple(caps))
    if k == "upd":
        d = dict(v.a[1])
        base = v.a[0]
    else:
        d = {}
        base = v
    if sub is mk("proj", base, e):
        d.pop(e, None)
    else:
        d[e] = sub
    if not d:
        return base
    return mk("upd", base, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))


# ---------------------------------------------------------------- state
class St:
    __slots__ = ("store", "facts", "mon")

    def __init__(self, store, facts, mon):
        self.store = store
        self.facts = facts
        self.mon = mon

    def clone(self):
        return St(dict(self.store), dict(self.facts), self.mon)

    def key(self):
        return (frozenset(self.store.items()), frozenset(self.facts.items()), self.mon)


class Budget(Exception):
    pass


def ty_base(t):
    """strip references, lifetimes and generic arguments: `&mut a::B<'_, C>` -> a::B"""
    t = t.strip()
    while True:
        m = re.match(r"^(&('\w+ )?(mut )?|\*const |\*mut )", t)
        if not m:
            break
        t = t[m.end():]
    i = t.find("<")
    if i > 0:
        t = t[:i]
    return t


class AI:
    def __init__(self, prog, tracked=None, relevant=(), monitor=None, objtypes=None, opaque=(),
                 inline_small=48, max_depth=24, state_cap=80, tracked_all=False, intrinsics=None,
                 step_cap=2_000_000, force_inline=(), mods_extra=None):
        self.p = prog
        self.tracked = tracked or set()
        self.tracked_all = tracked_all
        self.mon = monitor
        self.objtypes = dict(objtypes or {})
        self.opaque = set(opaque)
        self.force_inline = set(force_inline)
        self.inline_small = inline_small
        self.max_depth = max_depth
        self.state_cap = state_cap
        self.memo = {}
        self.stack = []
        self.reports = {}
        self.root_ty = {}
        self.intrinsics = intrinsics or {}
        self.concrete_seq = False
        self.promoted = {}
        self.visited_fns = set()
        self.curfr = None
        self.analysed_calls = set()
        self.opaque_calls = set()
        self.steps = 0
        self.widened = set()
        self.step_cap = step_cap
        self.mods_cache = {}
        self._small = {}
        self.relevant = set(relevant)
        self._rel_closure = self._callers_of(self.relevant)

    # -------------------------------------------------- call-graph helpers
    def _callers_of(self, targets):
        loc, _ = self.p.refs()
        rev = defaultdict(set)
        for a, bs in loc.items():
            for b in bs:
                rev[b].add(a)
        seen = set()
        st = list(targets)
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(rev.get(x, ()))
        return seen

    def mods(self, fid):
        r = self.mods_cache.get(fid)
        if r is None:
            t = self.p.touches()
            r = set()
            for g in self.p.reach([fid]):
                if g in t:
                    r |= t[g][1]
            self.mods_cache[fid] = r
        return r

    def small(self, fid, lvl=0):
        """acyclic and small, including everything it calls in the crate"""
        r = self._small.get(fid)
        if r is not None:
            return r
        f = self.p.fns[fid]
        self._small[fid] = False
        n = sum(1 for b in f.blocks if not b["c"])
        ok = n <= self.inline_small
        if ok:
            succ = f.succ()
            color = {}

            def dfs(b):
                color[b] = 1
                for s in succ[b]:
                    c = color.get(s, 0)
                    if c == 1:
                        return False
                    if c == 0 and not dfs(s):
                        return False
                color[b] = 2
                return True
            ok = dfs(0)
        self._small[fid] = ok
        return ok

    def should_inline(self, fid):
        if fid in self.opaque:
            return False
        if len(self.stack) >= self.max_depth:
            return False
        if sum(1 for s in self.stack if s[0] == fid) >= 1:
            return False
        if fid in self._rel_closure or fid in self.force_inline:
            return True
        return self.small(fid)

    # -------------------------------------------------- reporting
    def report(self, key, msg):
        if key not in self.reports:
            chain = " -> ".join(shortfn(s[0]) for s in self.stack)
            self.reports[key] = "%s [via %s]" % (msg, chain)

    # -------------------------------------------------- fresh symbols
    def fresh(self, fr, st, tag):
        return mk("sym", ("n", fr.depth, fr.fn.id, fr.site, tag, 0))

    def age(self, fr, st):
        """make room for new symbols of the current site: older generations are renamed"""
        D, fid, blk = fr.depth, fr.fn.id, fr.site
        m = {}
        for s in self.state_atoms(st):
            n = s.a[0]
            if isinstance(n, tuple) and n[0] == "n" and n[1] == D and n[3] == blk and n[2] == fid:
                m[s] = mk("sym", n[:5] + (min(n[5] + 1, 2),))
        if m:
            self.rename(st, m)

    def state_atoms(self, st):
        r = set()
        for root, v in st.store.items():
            r |= atoms(v)
            if root[0] == "d":
                r |= atoms(root[1])
        for t in st.facts:
            r |= atoms(t)
        r |= _atoms_of(st.mon)
        return r

    def rename(self, st, m):
        ns = {}
        for root, v in st.store.items():
            nr = root
            if root[0] == "d":
                nt = subst(root[1], m)
                if nt is not root[1]:
                    nr = ("d", nt)
                    if root in self.root_ty:
                        self.root_ty.setdefault(nr, self.root_ty[root])
            ns[nr] = subst(v, m)
        st.store = ns
        nf = {}
        for t, f in st.facts.items():
            nt = subst(t, m)
            if many(nt):
                continue
            nf[nt] = f
        st.facts = nf
        st.mon = subst(st.mon, m)

    # -------------------------------------------------- memory
    def default(self, root):
        k = root[0]
        if k == "o":
            return mk("sym", root[1])
        if k == "d":
            return mk("proj", root[1], "*")
        if k == "b":
            return mk("bytes", root[1])
        if k == "p":
            return self.promoted[root]
        return mk("sym", root)

    def refto(self, v):
        """an immutable reference to a value"""
        root = ("p", "val", v)
        self.promoted[root] = v
        return mk("ref", root, ())

    def read(self, fr, st, root, path):
        v = st.store.get(root)
        if v is None:
            v = self.default(root)
        obj = root[0] in ("o", "d") and not self.tracked_all
        for n, e in enumerate(path):
            if e[0] in ("i", "ci", "sub"):
                v = project(v, e) if e[0] == "i" and v.k == "app" or bspan(v) else mk("proj", v, e)
                continue
            v2 = project(v, e)
            if obj and e[0] == "f" and v2.k == "proj" and v2.a[1] == e and fr is not None and \
                    (e[1], e[2]) not in self.tracked and self._islocaladt(e[1]) and \
                    not self._tracked_in(path[n + 1:]) and not (n and self._tracked_in(path[:n])):
                return self._rest(self.fresh(fr, st, ("u", e[2])), path[n + 1:])
            v = v2
        return v

    @staticmethod
    def _rest(v, path):
        for e in path:
            v = project(v, e)
        return v

    def _tracked_in(self, path):
        for e in path:
            if e[0] == "f" and (e[1], e[2]) in self.tracked:
                return True
        return False

    def keeps(self, path):
        """does a write to this object path have to be remembered?"""
        if self.tracked_all or not path or self._tracked_in(path):
            return True
        e = path[-1]
        if e[0] != "f":
            return False
        a = self.p.adts.get(e[1])
        if not a or a["kind"] != "struct":
            return not self._islocaladt(e[1])
        ty = None
        for f in a["variants"][0]["fields"]:
            if f["name"] == e[2]:
                ty = ty_base(f["ty"])
        for adt, _ in self.tracked:
            if ty == adt or self.embed(ty, adt):
                return True
        return False

    def _islocaladt(self, adt):
        return not adt.startswith(("std::", "core::", "alloc::"))

    def write(self, fr, st, root, path, val):
        if val.d > MAXDEPTH and fr is not None and val.k in ("op", "app", "proj", "upd", "undef"):
            val = self.fresh(fr, st, ("deep", path[-1] if path else None))
        if root[0] in ("p", "b"):
            return
        if root[0] in ("o", "d", "s") and self.mon is not None and fr is not None:
            self.mon.write(self, fr, st, root, path, val)
        if root[0] in ("o", "d") and not self.keeps(path):
            return
        v = st.store.get(root)
        if not path:
            st.store[root] = val
            return
        if v is None:
            v = self.default(root)
        st.store[root] = setpath(v, path, val, lambda: self.fresh(fr, st, ("w", showkey(path[0]))))

    def place(self, fr, st, pl):
        root = ("l", fr.depth, pl["l"])
        path = ()
        pend = None
        for e in pl["p"]:
            k = e[0]
            if k == "*":
                v = self.read(fr, st, root, path)
                root, path = self.target(v, e[1])
            elif k == "f":
                if pend is not None:
                    path = path + (("v", pend, e[1]),)
                    pend = None
                elif e[2] == "tuple" or e[2].startswith("closure:") or e[2] == "?":
                    path = path + (("t", int(e[3])),)
                else:
                    path = path + (("f", e[2], e[1]),)
            elif k == "d":
                pend = e[1]
            elif k == "i":
                path = path + (("i", self.read(fr, st, ("l", fr.depth, e[1]), ())),)
            else:
                path = path + (tuple(e),)
        return root, path

    def target(self, v, ty=None):
        if v.k == "ref":
            return v.a[0], v.a[1]
        if v.k == "null" and self.mon is not None:
            self.mon.nullderef(self, self.curfr)
        r = ("d", v)
        if ty and r not in self.root_ty:
            self.root_ty[r] = ty_base(ty)
        return r, ()

    def deref(self, fr, st, v, ty=None):
        root, path = self.target(v, ty)
        return self.read(fr, st, root, path)

    def store_to(self, fr, st, v, val, ty=None):
        root, path = self.target(v, ty)
        self.write(fr, st, root, path, val)

    # -------------------------------------------------- operands
    def operand(self, fr, st, o):
        if o["k"] in ("cp", "mv"):
            root, path = self.place(fr, st, o["pl"])
            return self.read(fr, st, root, path)
        return self.const(o)

    def const(self, o):
        if "fn" in o:
            return mk("fn", o.get("res") or o["fn"], o["fn"])
        if "promoted" in o:
            return self.eval_promoted(o["promoted"])
        if "variant" in o and o["variant"] is not None:
            return mk("agg", o.get("adt") or ty_base(o["ty"]), o["variant"], ())
        if "int" in o:
            return INT(signed(int(o["int"]), o.get("ty", "")))
        if "bytes" in o:
            b = o["bytes"]
            return REF(("b", b if isinstance(b, str) else tuple(b)))
        if "static" in o:
            return REF(("s", o["static"]))
        if o.get("ty") == "()":
            return UNIT
        if o.get("zst") and o.get("ty", "").startswith("{closure"):
            return mk("sym", ("const", o["ty"]))
        if "closuredef" in o:
            return mk("clo", o["closuredef"], ())
        return mk("sym", ("const", o.get("item") or o.get("ty"), str(o.get("dbg", ""))))

    def eval_promoted(self, pid):
        key = ("pv", pid)
        if key in self.promoted:
            return self.promoted[key]
        f = self.p.fns.get(pid)
        if f is None:
            v = mk("sym", ("promoted", pid))
            self.promoted[key] = v
            return v
        # straight-line body
        fr = Frame(f, -1)
        st = St({}, {}, None)
        b = 0
        n = 0
        save, self.mon = self.mon, None
        sta, self.tracked_all = self.tracked_all, True
        ok = True
        while n < 50:
            n += 1
            blk = f.blocks[b]
            fr.blk = b
            for s in blk["s"]:
                if "setd" not in s:
                    self.assign(fr, st, s)
            t = blk["t"]
            if t["t"] in ("goto", "drop", "assert"):
                b = t["to"]
            elif t["t"] == "return":
                break
            elif t["t"] == "call" and t["f"].get("fn") == "std::ops::RangeInclusive::<Idx>::new" and t.get("to") is not None:
                b = t["to"]
                outs = self.call(fr, st, t)
                if len(outs) != 1:
                    ok = False
                    break
                st = outs[0]
            else:
                ok = False
                break
        self.mon = save
        self.tracked_all = sta
        v = st.store.get(("l", -1, 0)) if ok else None
        if v is None:
            v = mk("sym", ("promoted", pid))
        else:
            def conv(x):
                if isinstance(x, V):
                    if x.k == "ref":
                        r = x.a[0]
                        if r[0] == "l" and r[1] == -1:
                            nr = ("p", pid, r[2])
                            if nr not in self.promoted:
                                self.promoted[nr] = mk("undef")
                                self.promoted[nr] = conv(st.store.get(r, mk("undef")))
                            return mk("ref", nr, x.a[1])
                        return x
                    return mk(x.k, *[conv(y) for y in x.a])
                if isinstance(x, tuple):
                    return tuple(conv(y) for y in x)
                return x
            v = conv(v)
        self.promoted[key] = v
        return v

    # -------------------------------------------------- facts
    def dom(self, st, t, adt=None):
        """('in', S) / ('ni', S) for an enum or integer term"""
        if t.k == "agg":
            return ("in", frozenset((t.a[1],)))
        if t.k == "int":
            return ("in", frozenset((t.a[0],)))
        f = st.facts.get(t)
        if f is None and adt:
            vs = self.p.variants(adt)
            if vs:
                return ("in", frozenset(vs))
        return f or ("ni", EMPTY)

    def restrict(self, st, t, kind, S, adt=None):
        """intersect the domain of t; False when it becomes empty"""
        cur = self.dom(st, t, adt)
        if cur[0] == "in":
            new = cur[1] & S if kind == "in" else cur[1] - S
            if not new:
                return False
            if t.k not in ("agg", "int"):
                st.facts[t] = ("in", new)
            return True
        if kind == "in":
            new = S - cur[1]
            if not new:
                return False
            st.facts[t] = ("in", new)
            return True
        st.facts[t] = ("ni", cur[1] | S)
        return True

    def evalb(self, st, t):
        """truth value of a boolean term under the facts: 0, 1 or None"""
        if t.k == "int":
            return 1 if t.a[0] else 0
        if t.k == "op":
            o = t.a[0]
            if o == "Not":
                r = self.evalb(st, t.a[1])
                return None if r is None else 1 - r
            if o in ("BitAnd", "BitOr"):
                x, y = self.evalb(st, t.a[1]), self.evalb(st, t.a[2])
                if o == "BitAnd":
                    if x == 0 or y == 0:
                        return 0
                    if x == 1 and y == 1:
                        return 1
                else:
                    if x == 1 or y == 1:
                        return 1
                    if x == 0 and y == 0:
                        return 0
                f = st.facts.get(t)
                return self._single(f)
            f = self._single(st.facts.get(t))
            if f is not None:
                return f
            if o == "Eq":
                a, b = t.a[1], t.a[2]
                m = mask(t)
                if m is not None:
                    # a masked comparison is decided bit by bit
                    x, bs, want = m
                    got = [self.evalb(st, BIT(x, n)) for n in bs]
                    if any(g is not None and g != want for g in got):
                        return 0
                    if all(g == want for g in got):
                        return 1
                    return None
                if b.k == "int" and b.a[0] == 0 and sizes(a):
                    # a sum of sizes is zero exactly when every one of them is
                    x, y = self.evalb(st, EQ(a.a[1], b)), self.evalb(st, EQ(a.a[2], b))
                    if x == 0 or y == 0:
                        return 0
                    if x == 1 and y == 1:
                        return 1
                if b.k == "int":
                    c = self.dom(st, a)
                    if c[0] == "in":
                        if b.a[0] not in c[1]:
                            return 0
                        if len(c[1]) == 1:
                            return 1
                    elif b.a[0] in c[1]:
                        return 0
                for x in (mk("op", "Lt", a, b), mk("op", "Lt", b, a)):
                    if self._single(st.facts.get(x)) == 1:
                        return 0
                return None
            if o == "Lt":
                a, b = t.a[1], t.a[2]
                da, db = self.dom(st, a), self.dom(st, b)
                if da[0] == "in" and db[0] == "in" and all(isinstance(x, int) for x in da[1] | db[1]):
                    r = {x < y for x in da[1] for y in db[1]}
                    if len(r) == 1:
                        return int(r.pop())
                if self._single(st.facts.get(mk("op", "Lt", b, a))) == 1:
                    return 0
                e = EQ(a, b)
                if e.k == "op" and self._single(st.facts.get(e)) == 1:
                    return 0
                return None
            return None
        if t.k == "is":
            c = self.dom(st, t.a[0], t.a[2])
            if c[0] == "in":
                if c[1] <= t.a[1]:
                    return 1
                if not (c[1] & t.a[1]):
                    return 0
            elif t.a[1] <= c[1]:
                return 0
            return None
        return self._single(st.facts.get(t))

    @staticmethod
    def _single(f):
        if f and f[0] == "in" and len(f[1]) == 1:
            x = next(iter(f[1]))
            if isinstance(x, int):
                return 1 if x else 0
        if f and f[0] == "ni" and 0 in f[1]:
            return 1
        return None

    def assume(self, st, t, val):
        """refine st with t == val; False if infeasible"""
        r = self.evalb(st, t)
        if r is not None:
            return r == val
        if t.k == "op":
            o = t.a[0]
            if o == "Not":
                return self.assume(st, t.a[1], 1 - val)
            if o == "BitAnd" and val == 1:
                return self.assume(st, t.a[1], 1) and self.assume(st, t.a[2], 1)
            if o == "BitOr" and val == 0:
                return self.assume(st, t.a[1], 0) and self.assume(st, t.a[2], 0)
            m = mask(t) if o == "Eq" else None
            if m is not None:
                x, bs, want = m
                if val == 1:
                    return all(self.assume(st, BIT(x, n), want) for n in bs)
                open_ = [n for n in bs if self.evalb(st, BIT(x, n)) is None]
                if len(open_) == 1:
                    return self.assume(st, BIT(x, open_[0]), 1 - want)
                st.facts[t] = ("in", frozenset((0,)))
                return True
            if o == "Eq" and val == 1 and t.a[2].k == "int" and t.a[2].a[0] == 0 and sizes(t.a[1]):
                return self.assume(st, EQ(t.a[1].a[1], t.a[2]), 1) and self.assume(st, EQ(t.a[1].a[2], t.a[2]), 1)
            if o == "Eq" and t.a[2].k == "int":
                S = frozenset((t.a[2].a[0],))
                return self.restrict(st, t.a[1], "in" if val else "ni", S)
        if t.k == "is":
            return self.restrict(st, t.a[0], "in" if val else "ni", t.a[1], t.a[2])
        if not many(t):
            st.facts[t] = ("in", frozenset((val,)))
        if t.k == "bit":
            # a masked comparison known to be false excludes the one remaining combination
            for u in list(st.facts):
                m = mask(u)
                if m is not None and m[0] is t.a[0] and self._single(st.facts[u]) == 0 and \
                        all(self.evalb(st, BIT(m[0], n)) == m[2] for n in m[1]):
                    return False
        return True

    def branch(self, st, t):
        """[(0|1, state)] feasible outcomes of a boolean term"""
        r = self.evalb(st, t)
        if r is not None:
            return [(r, st)]
        out = []
        for v in (1, 0):
            s = st.clone()
            if self.assume(s, t, v):
                out.append((v, s))
        return out

    def cases(self, st, v, adt):
        """[(variant, state)] for an enum value"""
        if v.k == "agg" and v.a[1] is not None:
            return [(v.a[1], st)]
        d = self.dom(st, v, adt)
        vs = self.p.variants(adt) or []
        poss = [x for x in vs if (x in d[1]) == (d[0] == "in")]
        out = []
        for x in poss:
            s = st.clone()
            if len(poss) > 1 and not many(v):
                s.facts[v] = ("in", frozenset((x,)))
            out.append((x, s))
        return out

    # -------------------------------------------------- rvalues
    def assign(self, fr, st, s):
        d = s["d"]
        v = self.rvalue(fr, st, s["v"])
        root, path = self.place(fr, st, d)
        self.write(fr, st, root, path, v)

    def rvalue(self, fr, st, v):
        r = v["r"]
        if r == "use":
            return self.operand(fr, st, v["o"])
        if r == "ref" or r == "addr":
            root, path = self.place(fr, st, v["pl"])
            return REF(root, path)
        if r == "bin":
            return self.binop(v["op"], self.operand(fr, st, v["a"]), self.operand(fr, st, v["b"]))
        if r == "un":
            x = self.operand(fr, st, v["o"])
            o = v.get("op", "")
            if o == "Not":
                if v.get("ty", "bool") == "bool" or x.k in ("is",):
                    return NOT(x)
                return mk("app", "bitnot", x)
            if o == "PtrMetadata":
                return self.length(fr, st, x)
            return mk("op", o, x)
        if r == "cast":
            x = self.operand(fr, st, v["o"])
            ck = v["ck"]
            if "Transmute" in ck:
                # Box<T> seen through its pointer: the box is transparent
                return self.unbox(fr, st, v, x)
            if ck.startswith("IntToInt"):
                if x.k == "int":
                    return x
                if v["ty"] in ("u64", "usize", "u128", "i64", "i128", "isize"):
                    return x
                if v["ty"] in ("u8", "u16", "u32", "i8", "i16", "i32"):
                    return mk("app", "cast:" + v["ty"], x)
                return x
            if "ReifyFnPointer" in ck or "ClosureFnPointer" in ck or "Unsize" in ck or "Ptr" in ck or "MutToConst" in ck:
                return x
            return mk("app", "cast:" + v["ty"], x)
        if r == "discr":
            root, path = self.place(fr, st, v["pl"])
            x = self.read(fr, st, root, path)
            adt = v.get("adt")
            if x.k == "agg" and x.a[1] is not None and adt in self.p.adts:
                n = self.p.discr(adt, x.a[1])
                if n is not None:
                    return INT(n)
            return mk("discr", x, adt)
        if r == "agg":
            ops = [self.operand(fr, st, o) for o in v["ops"]]
            ak = v["ak"]
            if ak == "adt":
                if v.get("enum"):
                    return mk("agg", v["adt"], v["variant"],
                              tuple((("v", v["variant"], n), x) for n, x in zip(v["fields"], ops)))
                return mk("agg", v["adt"], None,
                          tuple((("f", v["adt"], n), x) for n, x in zip(v["fields"], ops)))
            if ak == "closure":
                return mk("clo", v["closure"], tuple(ops))
            if ak == "tuple":
                return AGG("tuple", None, *ops)
            if ak == "array":
                return mk("app", "array", *ops)
            return mk("app", "agg:" + ak, *ops)
        if r == "repeat":
            return mk("app", "repeat", self.operand(fr, st, v["o"]))
        return self.fresh(fr, st, "rv")

    def unbox(self, fr, st, v, x):
        o = v["o"]
        if o["k"] in ("cp", "mv"):
            root, path = self.place(fr, st, o["pl"])
            p = list(path)
            n = 0
            while p and p[-1][0] == "f" and p[-1][1].startswith(("std::boxed::Box", "std::ptr::Unique",
                                                                 "std::ptr::NonNull", "core::ptr")):
                p.pop()
                n += 1
            if n:
                # a box copied out of an object is still that object's box
                if root[0] == "l" and not p:
                    v = st.store.get(root)
                    o = v is not None and place_of_term(v)
                    if o and self.read(None, st, o[0], o[1]) is v:
                        return REF(*o)
                return REF(root, tuple(p))
        return mk("app", "transmute", x)

    def binop(self, op, a, b):
        ov = op.endswith("WithOverflow")
        if ov:
            op = op[:-len("WithOverflow")]
        op = op.replace("Unchecked", "")
        if op == "Eq":
            r = self.eqv(a, b)
        elif op == "Ne":
            r = NOT(self.eqv(a, b))
        elif op == "Lt":
            r = LT(a, b)
        elif op == "Gt":
            r = LT(b, a)
        elif op == "Le":
            r = NOT(LT(b, a))
        elif op == "Ge":
            r = NOT(LT(a, b))
        else:
            r = arith(op, a, b)
        if ov:
            return AGG("tuple", None, r, mk("app", "ovf", r))
        return r

    def eqv(self, a, b):
        return EQ(a, b)

    def length(self, fr, st, ptr):
        """length of the slice/vec/string/map behind a pointer"""
        if ptr.k == "app" and ptr.a[0] == "slice":
            _, base, lo, hi = ptr.a
            return arith("Sub", hi, lo)
        if ptr.k == "ref":
            root = ptr.a[0]
            if root[0] == "b":
                return INT(len(root[1]))
        v = self.deref(fr, st, ptr)
        return self.length_of(v)

    def length_of(self, v):
        s = bspan(v)
        if s is not None:
            return INT(s[1] - s[0])
        if v.k == "app" and v.a[0] == "empty":
            return INT(0)
        if v.k == "bytes":
            return INT(len(v.a[0]))
        if v.k == "app" and v.a[0] == "array":
            return INT(len(v.a) - 1)
        if v.k == "app" and v.a[0] == "push":
            n, x = 0, v
            while x.k == "app" and x.a[0] == "push":
                n, x = n + 1, x.a[1]
            if x.k == "app" and x.a[0] == "empty":
                return INT(n)
        if v.k == "app" and v.a[0] == "concat":
            return arith("Add", self.length_of(v.a[1]), self.length_of(v.a[2]))
        if v.k == "proj" and v.a[1] == "*" and v.a[0].k == "app" and v.a[0].a[0] == "slice":
            return arith("Sub", v.a[0].a[3], v.a[0].a[2])
        if v.k == "app" and v.a[0] == "slice":
            return arith("Sub", v.a[3], v.a[2])
        if v.k == "proj" and isinstance(v.a[1], tuple) and v.a[1][0] == "f" and v.a[0].k == "app" and v.a[0].a[0] == "empty":
            return INT(0)
        return mk("app", "len", v)

    # -------------------------------------------------- execution of a body
    def run(self, fid, args, st):
        """outcomes of calling fid: list of (ret, St)"""
        f = self.p.fns[fid]
        return self.exec_fn(f, args, st, 0)

    def exec_fn(self, f, args, st, depth):
        # split the state into what the callee can see and the rest
        vis = set()
        work = []
        for a in args:
            work.extend(refs(a))
        argatoms = set()
        for a in args:
            argatoms |= atoms(a)
        for root, v in st.store.items():
            if root[0] != "l":
                vis.add(root)
                work.extend(refs(v))
        work.extend(self._monroots(st.mon))
        while work:
            r = work.pop()
            if r in vis:
                continue
            vis.add(r)
            v = st.store.get(r)
            if v is not None:
                work.extend(refs(v))
        inner = {}
        aside = {}
        at = set(argatoms)
        for root, v in st.store.items():
            if root in vis:
                inner[root] = v
                at |= atoms(v)
                if root[0] == "d":
                    at |= atoms(root[1])
            else:
                aside[root] = v
        at |= _atoms_of(st.mon)
        fin, fas = {}, {}
        for t, x in st.facts.items():
            ta = atoms(t)
            if all(a in at or not (isinstance(a.a[0], tuple) and a.a[0][0] == "n") for a in ta):
                fin[t] = x
            else:
                fas[t] = x
        key = (f.id, depth, tuple(args), frozenset(inner.items()), frozenset(fin.items()), st.mon)
        outs = self.memo.get(key)
        if outs is None:
            s0 = St(inner, fin, st.mon)
            for i, a in enumerate(args):
                s0.store[("l", depth, i + 1)] = a
            self.visited_fns.add(f.id)
            outs = self._fix(f, s0, depth)
            self.memo[key] = outs
        res = []
        for ret, s in outs:
            ns = dict(s.store)
            for k, v in aside.items():
                ns[k] = v
            nf = dict(s.facts)
            for k, v in fas.items():
                nf[k] = v
            res.append((ret, St(ns, nf, s.mon)))
        return res

    def _monroots(self, m):
        o = set()
        _refs_of(m, o)
        return o

    def _fix(self, f, s0, depth):
        fr = Frame(f, depth)
        pre = self.state_atoms(s0)
        work = [(0, s0)]
        seen = defaultdict(set)
        cnt = defaultdict(int)
        joined = {}
        outs = {}
        while work:
            b, st = work.pop()
            self.gc(fr, st, b)
            k = st.key()
            if k in seen[b]:
                continue
            if cnt[b] >= self.state_cap:
                st = self.widen(fr, b, st, joined)
                self.widened.add((f.id, b))
                k = st.key()
                if k in seen[b]:
                    continue
            cnt[b] += 1
            seen[b].add(k)
            self.steps += 1
            if self.steps > self.step_cap:
                raise Budget("analysis budget exceeded in %s" % f.id)
            fr.blk = fr.site = b
            self.curfr = fr
            st = st.clone()
            blk = f.blocks[b]
            if blk["s"]:
                self.age(fr, st)
                for s in blk["s"]:
                    if "setd" in s:
                        self.setdiscr(fr, st, s)
                    else:
                        fr.ln = s.get("ln")
                        self.assign(fr, st, s)
            t = blk["t"]
            fr.ln = t.get("ln")
            fr.site = ~b
            k = t["t"]
            if k == "goto" or k == "drop":
                work.append((t["to"], st))
            elif k == "assert":
                c = self.operand(fr, st, t["o"])
                if c.k == "app" and c.a[0] == "ovf":
                    work.append((t["to"], st))
                elif self.assume(st, c, 1 if t["exp"] else 0):
                    work.append((t["to"], st))
            elif k == "switch":
                work.extend(self.switch(fr, st, t))
            elif k == "call":
                for ns in self.call(fr, st, t):
                    if t["to"] is not None:
                        work.append((t["to"], ns))
            elif k == "return":
                ret = st.store.get(("l", depth, 0), UNIT)
                ns = {r: v for r, v in st.store.items() if not (r[0] == "l" and r[1] >= depth)}
                o = St(ns, st.facts, st.mon)
                self.gc_ret(ret, o)
                ret = self.canon(ret, o, f, depth, pre)
                outs.setdefault((ret, o.key()), (ret, o))
        return list(outs.values())

    def setdiscr(self, fr, st, s):
        root, path = self.place(fr, st, s["setd"])
        self.write(fr, st, root, path, self.fresh(fr, st, "setd"))

    def widen(self, fr, b, st, joined):
        """join with the accumulated state of this block (same monitor)"""
        key = (b, st.mon)
        j = joined.get(key)
        if j is None:
            joined[key] = st
            return st
        ns = {}
        for r in set(j.store) | set(st.store):
            x = j.store.get(r)
            y = st.store.get(r)
            if x is None:
                x = self.default(r)
            if y is None:
                y = self.default(r)
            ns[r] = self.joinv(fr, b, r, x, y, ())
        nf = {}
        for t, f in j.facts.items():
            g = st.facts.get(t)
            if g is None:
                continue
            if f == g:
                nf[t] = f
            elif f[0] == "in" and g[0] == "in":
                nf[t] = ("in", f[1] | g[1])
            elif f[0] == "ni" and g[0] == "ni":
                nf[t] = ("ni", f[1] & g[1])
        n = St(ns, nf, st.mon)
        joined[key] = n
        return n

    def joinv(self, fr, b, r, x, y, path):
        if x is y:
            return x
        if x.k == "agg" and y.k == "agg" and x.a[0] == y.a[0] and x.a[1] == y.a[1] and len(x.a[2]) == len(y.a[2]):
            return mk("agg", x.a[0], x.a[1], tuple((k, self.joinv(fr, b, r, v, w, path + (k,)))
                                                  for (k, v), (_, w) in zip(x.a[2], y.a[2])))
        bx, dx = (x.a[0], dict(x.a[1])) if x.k == "upd" else (x, {})
        by, dy = (y.a[0], dict(y.a[1])) if y.k == "upd" else (y, {})
        if bx is by:
            d = {}
            for k in set(dx) | set(dy):
                d[k] = self.joinv(fr, b, r, dx.get(k) or project(bx, k), dy.get(k) or project(by, k), path + (k,))
            return mk("upd", bx, tuple(sorted(d.items(), key=lambda kv: repr(kv[0]))))
        return mk("sym", ("n", fr.depth, fr.fn.id, b, ("j", r if r[0] != "d" else "d", path), 0))

    # -------------------------------------------------- garbage collection
    def gc(self, fr, st, b):
        live = fr.live[b]
        D = fr.depth
        keep = {}
        work = []
        at = set()
        pend = {}
        for root, v in st.store.items():
            if root[0] == "l" and root[1] == D:
                if root[2] in live:
                    keep[root] = v
                    work.extend(refs(v))
                    at |= atoms(v)
                else:
                    pend[root] = v
            elif root[0] == "l" and root[1] > D:
                continue
            elif root[0] == "d":
                pend[root] = v
            else:
                keep[root] = v
                work.extend(refs(v))
                at |= atoms(v)
        work.extend(self._monroots(st.mon))
        at |= _atoms_of(st.mon)
        while True:
            while work:
                r = work.pop()
                v = pend.pop(r, None)
                if v is not None:
                    keep[r] = v
                    at |= atoms(v)
                    work.extend(refs(v))
                if r[0] == "d":
                    at |= atoms(r[1])
            for r in list(pend):
                if r[0] == "d" and all(a in at or not _isfresh(a) for a in atoms(r[1])):
                    work.append(r)
            if not work:
                break
        st.store = keep
        self.gc_facts(st, at)

    def gc_facts(self, st, at, extra=None):
        if not st.facts:
            return
        lv = None
        nf = {}
        for t, f in st.facts.items():
            ok = True
            for a in atoms(t):
                if a not in at and _isfresh(a):
                    ok = False
                    break
            if not ok:
                continue
            for term, obj, path in leaves(t):
                if self.read(None, st, ("o", obj), path) is term:
                    continue
                if lv is None:
                    lv = set()
                    for v in st.store.values():
                        lv |= leaves(v)
                    if extra is not None:
                        lv |= leaves(extra)
                    o = set()
                    _leaves(st.mon, o)
                    lv |= o
                if (term, obj, path) not in lv:
                    ok = False
                    break
            if ok:
                nf[t] = f
        st.facts = nf

    def canon(self, ret, st, f, depth, pre):
        """alpha-rename the symbols born in this call in order of appearance"""
        order = []
        seen = set()

        def walk(x):
            if isinstance(x, V):
                if x.k == "sym":
                    if x not in seen:
                        seen.add(x)
                        order.append(x)
                    return
                if not atoms(x):
                    return
                for y in x.a:
                    walk(y)
            elif isinstance(x, tuple):
                for y in x:
                    walk(y)
        walk(ret)
        for root in sorted(st.store, key=_rootkey):
            if root[0] == "d":
                walk(root[1])
            walk(st.store[root])
        walk(st.mon)
        m = {}
        i = 0
        for a in order:
            if _isfresh(a) and a not in pre:
                m[a] = mk("sym", ("n", depth, f.id, "R", i, 2 if a.a[0][5] >= 2 else 0))
                i += 1
        if m:
            self.rename(st, m)
            ret = subst(ret, m)
        return ret

    def gc_ret(self, ret, st):
        keep = {}
        work = list(refs(ret))
        at = set(atoms(ret))
        pend = {}
        for root, v in st.store.items():
            if root[0] == "d":
                pend[root] = v
            else:
                keep[root] = v
                work.extend(refs(v))
                at |= atoms(v)
        work.extend(self._monroots(st.mon))
        at |= _atoms_of(st.mon)
        while True:
            while work:
                r = work.pop()
                v = pend.pop(r, None)
                if v is not None:
                    keep[r] = v
                    at |= atoms(v)
                    work.extend(refs(v))
                if r[0] == "d":
                    at |= atoms(r[1])
            for r in list(pend):
                if all(a in at or not _isfresh(a) for a in atoms(r[1])):
                    work.append(r)
            if not work:
                break
        st.store = keep
        self.gc_facts(st, at, ret)

    # -------------------------------------------------- switch
    def switch(self, fr, st, t):
        v = self.operand(fr, st, t["o"])
        cases = [(signed(int(c), t["oty"]), tgt) for c, tgt in t["cases"]]
        if t["oty"] == "bool":
            zero = None
            for c, tgt in cases:
                if int(c) == 0:
                    zero = tgt
            out = []
            for val, s in self.branch(st, v):
                out.append((zero if val == 0 else t["else"], s))
            return out
        if v.k == "discr":
            x, adt = v.a
            out = []
            taken = set()
            if adt in self.p.adts and self.p.variants(adt):
                names = {int(w["discr"]): w["name"] for w in self.p.adts[adt]["variants"]}
                for c, tgt in cases:
                    n = names.get(int(c))
                    taken.add(n)
                    s = st.clone()
                    if self.restrict(s, x, "in", frozenset((n,)), adt):
                        out.append((tgt, s))
                s = st.clone()
                if self.restrict(s, x, "ni", frozenset(taken), adt):
                    if not self._unreach(fr, t["else"]):
                        out.append((t["else"], s))
                return out
            for c, tgt in cases:
                out.append((tgt, st.clone()))
            if not self._unreach(fr, t["else"]):
                out.append((t["else"], st.clone()))
            return out
        out = []
        taken = set()
        for c, tgt in cases:
            c = int(c)
            taken.add(c)
            s = st.clone()
            if self.restrict(s, v, "in", frozenset((c,))):
                out.append((tgt, s))
        s = st.clone()
        if self.restrict(s, v, "ni", frozenset(taken)) and not self._unreach(fr, t["else"]):
            out.append((t["else"], s))
        return out

    def _unreach(self, fr, b):
        return fr.fn.blocks[b]["t"]["t"] == "unreachable"

    # -------------------------------------------------- calls
    def call(self, fr, st, t):
        self.age(fr, st)
        args = [self.operand(fr, st, o) for o in t["a"]]
        f = t["f"]
        c = Call(fr, t, args)
        if f["k"] == "c" and "fn" in f:
            c.decl = f["fn"]
            c.res = f.get("res")
            c.gargs = f.get("args") or []
            c.rargs = f.get("rargs") or []
            outs = self.dispatch(fr, st, c)
        else:
            fv = self.operand(fr, st, f)
            c.decl = None
            c.res = None
            outs = self.call_value(fr, st, c, fv, args)
        res = []
        for ret, s in outs:
            root, path = self.place(fr, s, t["d"])
            self.write(fr, s, root, path, ret)
            res.append(s)
        return res

    def dispatch(self, fr, st, c):
        self.analysed_calls.add((fr.fn.id, fr.blk))
        tgt = c.res or c.decl
        if self.mon is not None:
            r = self.mon.call(self, fr, st, c)
            if r is not None:
                return r
        h = self.intrinsics.get(tgt)
        if h is not None:
            r = h(self, fr, st, c)
            if r is not None:
                return r
        from models import model
        r = model(self, fr, st, c)
        if r is not None:
            return r
        if tgt in self.p.fns:
            g = self.p.fns[tgt]
            if g.kind == "closure":
                return self.invoke(fr, st, c, tgt, self.untuple(c.args))
            if self.should_inline(tgt):
                return self.invoke(fr, st, c, tgt, c.args)
            return self.opaque_local(fr, st, c, tgt)
        return self.opaque_ext(fr, st, c)

    def untuple(self, args):
        """closure bodies take (env, a, b..) where the call passes (env, (a, b..))"""
        if len(args) == 2 and args[1].k == "agg" and args[1].a[0] == "tuple":
            return [args[0]] + [x for _, x in args[1].a[2]]
        return args

    def invoke(self, fr, st, c, fid, args):
        g = self.p.fns[fid]
        if len(args) != g.argc:
            args = list(args)[:g.argc] + [self.fresh(fr, st, ("arg", i)) for i in range(len(args), g.argc)]
        pre = self.state_atoms(st)
        for a in args:
            pre |= atoms(a)
        self.stack.append((fid, fr.fn.id, fr.blk))
        try:
            outs = self.exec_fn(g, args, st, fr.depth + 1)
        finally:
            self.stack.pop()
            self.curfr = fr
        res = []
        D, me, blk = fr.depth, fr.fn.id, fr.site
        for ret, s in outs:
            new = set(atoms(ret))
            new |= self.state_atoms(s)
            m = {}
            for a in new:
                if a not in pre and _isfresh(a):
                    n = a.a[0]
                    m[a] = mk("sym", ("n", D, me, blk, ("r", n[4]), n[5] if n[5] >= 2 else 0))
            if m:
                s = s.clone()
                self.rename(s, m)
                ret = subst(ret, m)
            if self.mon is not None:
                s2 = self.mon.ret(self, fr, s, c, fid, args, ret)
                if s2 is not None:
                    s = s2
            res.append((ret, s))
        return res

    def opaque_local(self, fr, st, c, fid):
        self.opaque_calls.add(fid)
        st = st.clone()
        mods = self.mods(fid)
        self.havoc_fields(fr, st, mods, fid)
        outs = [st]
        for i, (a, ty) in enumerate(zip(c.args, c.t["aty"])):
            if ty.startswith("&mut ") or re.match(r"^&'\w+ mut ", ty):
                self.havoc_ptr(fr, st, a, i, local_only=True)
            if a.k == "clo":
                outs = self.maybe_calls(fr, outs, c, a)
        return [(self.fresh(fr, s, "ret"), s) for s in outs]

    def opaque_ext(self, fr, st, c):
        if self.mon is not None:
            self.mon.ext(self, fr, st, c)
            if c.t["to"] is None and c.decl and "panic" in c.decl:
                self.mon.panic(self, fr, st, c.decl)
        st = st.clone()
        outs = [st]
        for i, (a, ty) in enumerate(zip(c.args, c.t["aty"])):
            if ty.startswith("&mut ") or re.match(r"^&'\w+ mut ", ty):
                for s in outs:
                    self.havoc_ptr(fr, s, a, i)
            if a.k == "clo" or (a.k == "fn" and a.a[0] in self.p.fns):
                outs = self.maybe_calls(fr, outs, c, a)
        return [(self.fresh(fr, s, "ret"), s) for s in outs]

    def maybe_calls(self, fr, outs, c, fv):
        """an unknown callee may call the closure any number of times"""
        fid = fv.a[0]
        if fid not in self.p.fns:
            return outs
        g = self.p.fns[fid]
        seen = {}
        work = list(outs)
        n = 0
        while work and n < 40:
            s = work.pop()
            k = s.key()
            if k in seen:
                continue
            seen[k] = s
            n += 1
            args = [self.fresh(fr, s, ("carg", i)) for i in range(g.argc)]
            if g.kind == "closure":
                args[0] = self.closure_self(fr, s, g, fv)
            for _, s2 in self.invoke(fr, s.clone(), c, fid, args):
                self.age(fr, s2)
                work.append(s2)
        return list(seen.values())

    def closure_self(self, fr, st, g, fv):
        ty = g.locals[1]["ty"]
        if ty.startswith("&"):
            r = ("l", fr.depth, "clo%d" % fr.blk)
            st.store[r] = fv
            return REF(r)
        return fv

    def call_value(self, fr, st, c, fv, args):
        """call a function value with already-untupled arguments"""
        if fv.k == "ref":
            fv2 = self.deref(fr, st, fv)
            if fv2.k in ("clo", "fn"):
                fv = fv2
        if fv.k == "clo" and fv.a[0] in self.p.fns:
            g = self.p.fns[fv.a[0]]
            st = st.clone()
            return self.invoke(fr, st, c, fv.a[0], [self.closure_self(fr, st, g, fv)] + list(args))
        if fv.k == "fn":
            c2 = Call(fr, c.t, list(args))
            c2.decl = fv.a[1]
            c2.res = fv.a[0]
            c2.aty = None
            if fv.a[0] in self.p.fns:
                if self.mon is not None:
                    r = self.mon.call(self, fr, st, c2)
                    if r is not None:
                        return r
                h = self.intrinsics.get(fv.a[0])
                if h is not None:
                    r = h(self, fr, st, c2)
                    if r is not None:
                        return r
                if self.should_inline(fv.a[0]):
                    return self.invoke(fr, st, c, fv.a[0], list(args))
            from models import model
            r = model(self, fr, st, c2)
            if r is not None:
                return r
            if ctor(self.p, fv.a[0], args) is not None:
                return [(ctor(self.p, fv.a[0], args), st)]
        if self.mon is not None:
            r = self.mon.indirect(self, fr, st, c, fv, args)
            if r is not None:
                return r
        st = st.clone()
        for i, a in enumerate(args):
            if a.k == "ref" and a.a[0][0] == "l":
                pass
        return [(self.fresh(fr, st, "iret"), st)]

    def havoc_ptr(self, fr, st, a, i, local_only=False):
        if a.k == "ref":
            root, path = a.a
            if root[0] == "l" or not local_only:
                if root[0] in ("p", "b", "s"):
                    return
                v = self.fresh(fr, st, ("h", i))
                self.write(fr, st, root, path, v)
        elif not local_only:
            self.write(fr, st, ("d", a), (), self.fresh(fr, st, ("h", i)))

    def havoc_fields(self, fr, st, mods, why):
        """fields the callee may write become unknown in every object of that type"""
        todo = [(adt, fld) for adt, fld in mods if self.tracked_all or (adt, fld) in self.tracked]
        if not todo:
            return
        roots = [("o", n) for n in self.objtypes] + [r for r in st.store if r[0] == "d"]
        for r in roots:
            ty = self.objtypes.get(r[1]) if r[0] == "o" else self.root_ty.get(r)
            for adt, fld in todo:
                if ty == adt:
                    self.hwrite(fr, st, r, (("f", adt, fld),), fld)
                else:
                    for path in self.embed(ty, adt):
                        self.hwrite(fr, st, r, path + (("f", adt, fld),), fld)
        for r, v in list(st.store.items()):
            if r[0] == "l" and v.k in ("upd", "agg"):
                # aggregates held by value in locals are only reachable through references
                pass

    def hwrite(self, fr, st, root, path, tag):
        v = st.store.get(root)
        if v is None:
            v = self.default(root)
        st.store[root] = setpath(v, path, self.fresh(fr, st, ("m", showroot(root) if root[0] == "o" else "d", tag)),
                                 lambda: self.fresh(fr, st, "w"))
        if self.mon is not None:
            self.mon.havoc(self, fr, st, root, path)

    _embed = {}

    def embed(self, ty, adt):
        """field paths from struct `ty` to embedded-by-value struct `adt`"""
        if ty is None or ty not in self.p.adts:
            return ()
        k = (id(self.p), ty, adt)
        r = self._embed.get(k)
        if r is None:
            self._embed[k] = ()
            r = []
            a = self.p.adts[ty]
            if a["kind"] == "struct":
                for f in a["variants"][0]["fields"]:
                    ft = f["ty"]
                    if ft.startswith(("&", "*")):
                        continue
                    fb = ty_base(ft)
                    step = (("f", ty, f["name"]),)
                    if fb == adt:
                        r.append(step)
                    elif fb in self.p.adts and fb != ty:
                        for sub in self.embed(fb, adt):
                            r.append(step + sub)
            r = tuple(r)
            self._embed[k] = r
        return r


def sizes(t):
    """a sum of object sizes (which cannot wrap around)"""
    def ok(x):
        return x.k == "int" or x.k == "app" and x.a[0] in ("len", "linelen") or \
            x.k == "op" and x.a[0] == "Add" and ok(x.a[1]) and ok(x.a[2])
    return t.k == "op" and t.a[0] == "Add" and ok(t)


def _rootkey(r):
    if r[0] == "d":
        return ("d", repr(r[1]))
    return (r[0], str(r[1:]))


_SW = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "i128": 128}


def signed(n, ty):
    w = _SW.get(ty)
    if w and n >= 1 << (w - 1):
        return n - (1 << w)
    return n


def _isfresh(a):
    n = a.a[0]
    return isinstance(n, tuple) and n[0] == "n"


def _shorten(n):
    return (n[2], n[3], n[4], n[5])


def BIT(x, n):
    """bit n of x"""
    while True:
        if x.k == "int":
            return INT(x.a[0] >> n & 1)
        if x.k == "op" and x.a[0] in ("BitOr", "BitAnd"):
            a, b = x.a[1], x.a[2]
            if a.k == "int":
                a, b = b, a
            if b.k == "int":
                v = b.a[0] >> n & 1
                if x.a[0] == "BitOr" and v:
                    return TRUE
                if x.a[0] == "BitAnd" and not v:
                    return FALSE
                x = a
                continue
        return mk("bit", x, n)


def mask(t):
    """(x, bits, wanted bit value) of the comparison of x & constant with 0 or with that constant"""
    if t.k == "op" and t.a[0] == "Eq" and t.a[2].k == "int" and t.a[1].k == "op" and t.a[1].a[0] == "BitAnd":
        a, b = t.a[1].a[1], t.a[1].a[2]
        if a.k == "int":
            a, b = b, a
        if b.k == "int" and a.k != "int":
            m = b.a[0]
            if 0 < m < 1 << 128 and t.a[2].a[0] in (0, m):
                return a, [i for i in range(m.bit_length()) if m >> i & 1], int(t.a[2].a[0] == m)
    return None


def arith(op, a, b):
    if a.k == "int" and b.k == "int":
        x, y = a.a[0], b.a[0]
        try:
            r = {"Add": x + y, "Sub": x - y, "Mul": x * y, "BitAnd": x & y, "BitOr": x | y,
                 "BitXor": x ^ y, "Div": x // y if y else None, "Rem": x % y if y else None,
                 "Shl": x << y if y < 128 else None, "Shr": x >> y if y < 128 else None}.get(op)
        except Exception:
            r = None
        if r is not None:
            return INT(r)
    if op in ("Add", "Sub") and b.k == "int" and b.a[0] == 0:
        return a
    if op == "Add" and a.k == "int" and a.a[0] == 0:
        return b
    if op == "Sub" and a is b and not many(a):
        return INT(0)
    if op == "BitOr":
        if a.k == "int":
            a, b = b, a
        if b.k == "int":
            if b.a[0] == 0:
                return a
            if a.k == "op" and a.a[0] == "BitOr" and a.a[2].k == "int":
                return arith("BitOr", a.a[1], INT(a.a[2].a[0] | b.a[0]))
            return mk("op", op, a, b)
    if op in ("Add", "Mul", "BitAnd", "BitOr", "BitXor") and id(a) > id(b):
        a, b = b, a
    return mk("op", op, a, b)


def ctor(p, path, args):
    """tuple-variant constructors used as functions (Some, Ok, Err, Enum::X)"""
    base, _, last = path.rpartition("::")
    base = re.sub(r"::<.*>$", "", base)
    a = p.adts.get(base)
    if a and a["kind"] == "enum" and any(v["name"] == last for v in a["variants"]):
        return AGG(base, last, *args)
    return None


class Frame:
    __slots__ = ("fn", "depth", "blk", "ln", "live", "site")

    def __init__(self, fn, depth):
        self.fn = fn
        self.depth = depth
        self.blk = 0
        self.site = 0
        self.ln = None
        self.live = fn.liveness()

    def where(self):
        return "%s:%s" % (self.fn.file, self.ln or self.fn.line)


class Call:
    __slots__ = ("fr", "t", "args", "decl", "res", "gargs", "rargs", "aty")

    def __init__(self, fr, t, args):
        self.fr = fr
        self.t = t
        self.args = args
        self.decl = None
        self.res = None
        self.gargs = []
        self.rargs = []
        self.aty = t["aty"]

    @property
    def target(self):
        return self.res or self.decl


class Monitor:
    """default: observe nothing"""

    def call(self, ai, fr, st, c):
        return None

    def ret(self, ai, fr, st, c, fid, args, ret):
        return None

    def write(self, ai, fr, st, root, path, val):
        pass

    def havoc(self, ai, fr, st, root, path):
        pass

    def indirect(self, ai, fr, st, c, fv, args):
        return None

    def iternext(self, ai, fr, st, it, ix):
        """iterator `it` yields the element with index ix, or is exhausted (None); False: prune"""

    def ext(self, ai, fr, st, c):
        """a call that leaves the crate and is not modelled"""

    def nullderef(self, ai, fr):
        """a pointer known to be NULL is dereferenced"""

    def panic(self, ai, fr, st, why):
        """a path that ends in a panic"""


def shortfn(fid):
    parts = re.sub(r"<[^<>]*>", "", fid)
    parts = parts.split("::")
    tail = [x for x in parts if x]
    if tail and tail[-1].startswith("{"):
        return "::".join(tail[-2:])
    return tail[-1] if tail else fid
