"""Loading of the MIR facts and the structural queries every check shares.

Nothing here looks at source text: functions, callees, fields, constants and
control flow all come from the compiler's own MIR for the current tree.
"""
import json
import re
from collections import defaultdict


class Fn:
    __slots__ = ("id", "kind", "file", "line", "argc", "locals", "blocks", "raw",
                 "_live", "_succ", "_addr", "_preds", "_dom")

    def __init__(self, d):
        self.raw = d
        self.id = d["id"]
        self.kind = d["kind"]
        self.file = d["file"]
        self.line = d["line"]
        self.argc = d["argc"]
        self.locals = d["locals"]
        self.blocks = d["blocks"]
        self._live = None
        self._succ = None
        self._addr = None
        self._preds = None
        self._dom = None

    @property
    def name(self):
        return self.raw.get("name") or self.id.rsplit("::", 1)[-1]

    def __repr__(self):
        return "<Fn %s>" % self.id

    def where(self, ln=None):
        return "%s:%s (%s)" % (self.file, ln if ln else self.line, self.id)

    # ---- control flow -------------------------------------------------
    def succ(self):
        """successors per block on the non-unwinding graph"""
        if self._succ is None:
            s = []
            for b in self.blocks:
                t = b["t"]
                k = t["t"]
                if k in ("goto", "drop", "assert"):
                    s.append([t["to"]])
                elif k == "switch":
                    s.append([c[1] for c in t["cases"]] + [t["else"]])
                elif k == "call":
                    s.append([t["to"]] if t["to"] is not None else [])
                else:
                    s.append([])
            self._succ = s
        return self._succ

    def preds(self):
        if self._preds is None:
            p = [[] for _ in self.blocks]
            for i, ss in enumerate(self.succ()):
                for x in ss:
                    p[x].append(i)
            self._preds = p
        return self._preds

    def reachable(self, start=0, without=()):
        seen = set()
        st = [start]
        succ = self.succ()
        while st:
            b = st.pop()
            if b in seen or b in without:
                continue
            seen.add(b)
            st.extend(succ[b])
        return seen

    def addr_taken(self):
        if self._addr is None:
            a = set()
            for b in self.blocks:
                for s in b["s"]:
                    v = s.get("v")
                    if v and v["r"] in ("ref", "addr"):
                        pl = v["pl"]
                        if not any(p[0] == "*" for p in pl["p"]):
                            a.add(pl["l"])
            self._addr = a
        return self._addr

    def liveness(self):
        """live-in locals per block (locals whose value may be read later)"""
        if self._live is None:
            n = len(self.blocks)
            use = [set() for _ in range(n)]
            de = [set() for _ in range(n)]

            def rd_place(i, pl):
                l = pl["l"]
                if l not in de[i]:
                    use[i].add(l)
                for p in pl["p"]:
                    if p[0] == "i" and p[1] not in de[i]:
                        use[i].add(p[1])

            def wr_place(i, pl):
                if pl["p"]:
                    rd_place(i, pl)
                else:
                    de[i].add(pl["l"])

            for i, b in enumerate(self.blocks):
                for s in b["s"]:
                    if "setd" in s:
                        rd_place(i, s["setd"])
                        continue
                    for pl in rv_places(s["v"]):
                        rd_place(i, pl)
                    wr_place(i, s["d"])
                t = b["t"]
                for o in term_operands(t):
                    if o["k"] in ("cp", "mv"):
                        rd_place(i, o["pl"])
                if t["t"] == "drop":
                    pass
                if t["t"] == "return":
                    use[i].add(0) if 0 not in de[i] else None
                if t["t"] == "call":
                    wr_place(i, t["d"])
            live = [set() for _ in range(n)]
            succ = self.succ()
            ch = True
            while ch:
                ch = False
                for i in range(n - 1, -1, -1):
                    o = set()
                    for s in succ[i]:
                        o |= live[s]
                    new = use[i] | (o - de[i])
                    if new != live[i]:
                        live[i] = new
                        ch = True
            self._live = live
        return self._live


def rv_places(v):
    r = v["r"]
    out = []
    if r in ("use", "repeat", "cast", "un"):
        o = v["o"]
        if o["k"] in ("cp", "mv"):
            out.append(o["pl"])
    elif r in ("ref", "addr", "discr"):
        out.append(v["pl"])
    elif r == "bin":
        for o in (v["a"], v["b"]):
            if o["k"] in ("cp", "mv"):
                out.append(o["pl"])
    elif r == "agg":
        for o in v["ops"]:
            if o["k"] in ("cp", "mv"):
                out.append(o["pl"])
    return out


def rv_operands(v):
    r = v["r"]
    if r in ("use", "repeat", "cast", "un"):
        return [v["o"]]
    if r == "bin":
        return [v["a"], v["b"]]
    if r == "agg":
        return list(v["ops"])
    return []


def term_operands(t):
    k = t["t"]
    if k == "switch":
        return [t["o"]]
    if k == "assert":
        return [t["o"]] + list(t["mo"])
    if k == "call":
        return [t["f"]] + list(t["a"])
    return []


def callee(t):
    """(declared path, resolved path or None, operand) of a call terminator"""
    f = t["f"]
    if f["k"] == "c" and "fn" in f:
        return f["fn"], f.get("res"), f
    return None, None, f


class Program:
    def __init__(self, path):
        with open(path) as fh:
            d = json.load(fh)
        self.fns = {}
        for f in d["fns"]:
            fn = Fn(f)
            self.fns[fn.id] = fn
        self.adts = {a["path"]: a for a in d["adts"]}
        self.statics = d["statics"]
        for path, vs in (("std::ops::ControlFlow", ["Continue", "Break"]),
                         ("std::borrow::Cow", ["Borrowed", "Owned"]),
                         ("std::collections::btree_map::Entry", ["Vacant", "Occupied"]),
                         ("nom::Err", ["Incomplete", "Error", "Failure"])):
            self.adts.setdefault(path, {"path": path, "kind": "enum", "variants": [
                {"name": n, "discr": str(i), "fields": [{"name": "0", "ty": "?"}]} for i, n in enumerate(vs)]})
        self.adts.setdefault("std::cmp::Ordering", {"path": "std::cmp::Ordering", "kind": "enum", "variants": [
            {"name": n, "discr": str(i - 1), "fields": []} for i, n in enumerate(["Less", "Equal", "Greater"])]})
        self._calls = None
        self._touch = None

    # code under analysis: everything of the crate except the test-support module
    def is_test(self, fn):
        return fn.file.endswith("src/test.rs")

    def code(self):
        for f in self.fns.values():
            if f.kind in ("fn", "closure") and not self.is_test(f):
                yield f

    def find(self, suffix, kind=None):
        """functions whose id ends with ::suffix"""
        return [f for f in self.fns.values()
                if (f.id == suffix or f.id.endswith("::" + suffix))
                and (kind is None or f.kind == kind)]

    def method(self, selfty, name):
        """the inherent/trait method `name` of type `selfty` (last path segment)"""
        r = []
        for f in self.fns.values():
            if f.kind == "fn" and f.raw.get("name") == name:
                st = f.raw.get("self_ty", "")
                base = re.sub(r"<.*", "", st).rsplit("::", 1)[-1]
                if base == selfty:
                    r.append(f)
        return r

    def variants(self, adt):
        a = self.adts.get(adt)
        if not a or a["kind"] != "enum":
            return None
        return [v["name"] for v in a["variants"]]

    def discr(self, adt, variant):
        for v in self.adts[adt]["variants"]:
            if v["name"] == variant:
                return int(v["discr"])
        return None

    # ---- call graph ---------------------------------------------------
    def refs(self):
        """fn id -> set of local fn ids it calls, creates as closure, or names as a value;
        and fn id -> set of external callee paths"""
        if self._calls is None:
            loc = defaultdict(set)
            ext = defaultdict(set)
            for f in self.fns.values():
                def op(o):
                    if o["k"] == "c":
                        if "fn" in o:
                            tgt = o.get("res") or o["fn"]
                            if tgt in self.fns:
                                loc[f.id].add(tgt)
                            else:
                                ext[f.id].add(tgt)
                            # closures among generic args are reached through creation
                        if "promoted" in o and o["promoted"] in self.fns:
                            loc[f.id].add(o["promoted"])
                        if "fnptr" in o and o["fnptr"] in self.fns:
                            loc[f.id].add(o["fnptr"])
                        if "closuredef" in o and o["closuredef"] in self.fns:
                            loc[f.id].add(o["closuredef"])
                for b in f.blocks:
                    for s in b["s"]:
                        v = s.get("v")
                        if not v:
                            continue
                        for o in rv_operands(v):
                            op(o)
                        if v["r"] == "agg" and v.get("ak") == "closure":
                            if v["closure"] in self.fns:
                                loc[f.id].add(v["closure"])
                    for o in term_operands(b["t"]):
                        op(o)
            self._calls = (loc, ext)
        return self._calls

    def calls_of(self, fid):
        return self.refs()[0].get(fid, ())

    def reach(self, roots):
        loc, _ = self.refs()
        seen = set()
        st = [r.id if isinstance(r, Fn) else r for r in roots]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            st.extend(loc.get(x, ()))
        return seen

    # ---- field touches ------------------------------------------------
    def touches(self):
        """fn id -> (fields read or borrowed, fields written or &mut-borrowed)
        as (adt, field) pairs, syntactically in that body"""
        if self._touch is None:
            res = {}
            for f in self.fns.values():
                rd, wr = set(), set()

                def place(pl, write):
                    ps = [p for p in pl["p"] if p[0] == "f"]
                    for i, p in enumerate(ps):
                        k = (p[2], p[1])
                        if write:
                            wr.add(k)
                        else:
                            rd.add(k)
                for b in f.blocks:
                    if b["c"]:
                        continue
                    for s in b["s"]:
                        if "setd" in s:
                            place(s["setd"], True)
                            continue
                        place(s["d"], True)
                        v = s["v"]
                        for pl in rv_places(v):
                            m = (v["r"] == "ref" and v["m"]) or (v["r"] == "addr" and v["m"] != "Const")
                            place(pl, m)
                            if m:
                                place(pl, False)
                    t = b["t"]
                    for o in term_operands(t):
                        if o["k"] in ("cp", "mv"):
                            place(o["pl"], False)
                    if t["t"] == "call":
                        place(t["d"], True)
                res[f.id] = (rd, wr)
            self._touch = res
        return self._touch
