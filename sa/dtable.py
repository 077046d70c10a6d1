"""Decision tables: an oracle is a function of the facts about the inputs; it is
evaluated lazily on every path of the analysed function, forking where the path
leaves a fact open (both answers must then agree with what the path does)."""
from absint import mk, INT, REF, SOME, NONE, EQ, LT, project, OPT
from parser import domset

TXN = "transaction::Transaction"
HDR = "transaction::Header"
NAMES = ("content-length", "transfer-encoding", "content-type", "content-encoding", "host", "upgrade", "expect",
         "authorization", "cookie", "connection")


class Fork(Exception):
    def __init__(self, opts):
        self.opts = opts


class Env:
    def __init__(self, ai, st):
        self.ai, self.st, self.trace = ai, st, []

    def true(self, t, name=None):
        v = self.ai.evalb(self.st, t)
        if v is None or v not in (0, 1):
            raise Fork([(lambda s, x=x: self.ai.assume(s, t, x)) for x in (0, 1)])
        self.trace.append((name or t, v))
        return v == 1

    def variant(self, t, adt, name=None):
        d = domset(self.ai, self.st, t, adt)
        if len(d) != 1:
            raise Fork([(lambda s, x=x: self.ai.restrict(s, t, "in", frozenset((x,)), adt)) for x in sorted(d)])
        v = next(iter(d))
        self.trace.append((name or t, v))
        return v

    def oneof(self, t, adt, names, name=None):
        """is the variant of t among names?"""
        d = domset(self.ai, self.st, t, adt)
        if d <= set(names) or not d & set(names):
            self.trace.append((name or t, d <= set(names)))
            return d <= set(names)
        raise Fork([(lambda s, x=x: self.ai.restrict(s, t, "in", frozenset(x), adt))
                    for x in (d & set(names), d - set(names))])

    def some(self, t, name=None):
        return self.variant(t, OPT, name) == "Some"


def explore(ai, st, oracle, cap=4000):
    """(state, expected, trace) for every completion of the path's facts the oracle distinguishes"""
    work = [st]
    n = 0
    while work:
        s = work.pop()
        n += 1
        if n > cap:
            raise RuntimeError("too many completions")
        e = Env(ai, s)
        try:
            x = oracle(e)
        except Fork as f:
            for o in f.opts:
                y = s.clone()
                if o(y):
                    work.append(y)
            continue
        yield s, x, e.trace


def objects():
    r = {}
    for t in ("request", "response"):
        for n in NAMES:
            r["h:%s:%s" % (t, n)] = HDR
    return r


def hdr(side, name):
    """presence of a header, as a term"""
    return mk("app", "header", "%s:%s" % (side, name))


def hobj(side, name):
    return mk("sym", "h:%s:%s" % (side, name))


def text(ai, fr, st, v):
    """constant string/bytes argument, or None"""
    for _ in range(4):
        if v.k == "bytes":
            return bytes(v.a[0])
        if v.k == "str":
            return v.a[0].encode()
        if v.k == "ref":
            v = ai.deref(fr, st, v)
        elif v.k == "proj" and v.a[1] == "*":
            v = v.a[0]
        else:
            return None
    return None


def table_of(ai, fr, st, v):
    if v.k == "ref":
        for e in reversed(v.a[1]):
            if e[0] == "f" and e[2] in ("request_headers", "response_headers"):
                return e[2].split("_")[0]
    return None


def header_intrinsics(p):
    r = {}

    def look(ai, fr, st, c):
        side = table_of(ai, fr, st, c.args[0])
        n = text(ai, fr, st, c.args[1])
        if side is None or n is None or n.decode("latin1").lower() not in NAMES:
            return None
        n = n.decode().lower()
        t = hdr(side, n)
        return [(SOME(REF(("o", "h:%s:%s" % (side, n)))) if v else NONE, s) for v, s in ai.branch(st, t)]
    for m in ("get_nocase_nozero", "get_nocase_nozero_mut", "get_nocase", "get_nocase_mut"):
        for f in p.method("Headers", m):
            r[f.id] = look

    def find(ai, fr, st, c):
        n = text(ai, fr, st, c.args[1])
        if n is None:
            return None
        v = ai.deref(fr, st, c.args[0]) if c.args[0].k == "ref" else c.args[0]
        return [(mk("app", "find", v, mk("bytes", tuple(n.lower()))), st)]
    for m in ("index_of_nocase_nozero", "index_of_nocase"):
        for f in p.method("Bstr", m):
            r[f.id] = find

    def clen(ai, fr, st, c):
        v = ai.deref(fr, st, c.args[0]) if c.args[0].k == "ref" else c.args[0]
        return [(mk("app", "clen", owner(v)), st)]
    for f in p.find("parse_content_length"):
        r[f.id] = clen
    return r


def owner(v):
    """the header object a value comes from (or the value itself)"""
    x = v
    for _ in range(20):
        if x.k == "sym":
            return x if isinstance(x.a[0], str) and x.a[0].startswith("h:") else v
        if x.k == "proj":
            x = x.a[0]
        elif x.k == "ref":
            r = x.a[0]
            if r[0] == "o" and r[1].startswith("h:"):
                return mk("sym", r[1])
            return v
        elif x.k == "app" and len(x.a) > 1 and hasattr(x.a[1], "k"):
            x = x.a[1]
        else:
            return v
    return v


def bits(v, base):
    """the flag bits or-ed into base to give v, or None if v is anything else"""
    if v is base:
        return 0
    if v.k == "op" and v.a[0] == "BitOr":
        for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if b.k == "int":
                x = bits(a, base)
                if x is not None:
                    return x | b.a[0]
    return None
