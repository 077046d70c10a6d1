"""Result collection: obligations, violations, known findings, evidence."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(VERIF, "known_findings.json")


class Ctx:
    def __init__(self, prop, tier):
        self.id = prop
        self.tier = tier if tier in ("quick", "thorough") else "quick"
        self.prog = None
        self.rule = ""
        self.viol = {}
        self.obl = {}
        self.counts = {}
        self.samples = []
        self.assume = []
        self.fns = set()
        self.verbose = False

    # a violation is keyed by what it is about, never by a line number
    def violation(self, key, msg):
        self.viol.setdefault(key, msg)

    def ok(self, kind, name):
        """one decided obligation"""
        self.obl.setdefault(kind, set()).add(name)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def floor(self, what, n, least):
        """fail closed when the analysis found less to look at than there must be"""
        self.counts[what] = n
        if n < least:
            self.violation("floor:" + what, "only %d %s found, at least %d expected: the anchor of this property is gone"
                           % (n, what, least))

    def used(self, ai):
        self.fns |= ai.visited_fns
        self.count("abstract_states", ai.steps)

    def each(self, fn, items):
        """fn(ctx, item) for every item, in parallel processes; what they collect is merged"""
        items = list(items)
        if len(items) < 2 or os.environ.get("HTP_SERIAL"):
            for x in items:
                fn(self, x)
            return
        import multiprocessing as mp
        global _job
        _job = (self, fn, items)
        with mp.get_context("fork").Pool(min(len(items), 8)) as pool:
            for viol, obl, counts, fns in pool.map(_work, range(len(items)), chunksize=1):
                for k, m in viol.items():
                    self.viol.setdefault(k, m)
                for k, v in obl.items():
                    self.obl.setdefault(k, set()).update(v)
                for k, v in counts.items():
                    self.count(k, v)
                self.fns |= fns

    def finish(self, wall):
        known = {}
        if os.path.exists(KNOWN):
            with open(KNOWN) as fh:
                for e in json.load(fh)["findings"]:
                    if e["property"] == self.id:
                        known[e["key"]] = e["what"]
        new = {k: m for k, m in self.viol.items() if k not in known}
        for k in self.viol:
            if k in known:
                print("KNOWN-FINDING: property=%s %s" % (self.id, known[k]))
        tot = sum(len(x) for x in self.obl.values())
        cov = {
            "explanation": "static analysis of the compiler's MIR of /repo's current tree. Rule: " + self.rule,
            "obligations_by_kind": {k: len(v) for k, v in sorted(self.obl.items())},
            "obligations": tot,
            "counts": self.counts,
            "functions_analysed": len(self.fns),
            "functions": sorted(self.fns)[:400],
            "samples": self.samples or [x for k in sorted(self.obl) for x in sorted(self.obl[k])[:4]][:12],
        }
        ev = {"property": self.id, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
              "level": "other", "coverage": cov, "wall_s": round(wall, 2), "violations": len(new),
              "assumptions": self.assume}
        d = os.environ.get("HTP_EVIDENCE") or os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.id + ".json"), "w") as fh:
            json.dump(ev, fh, indent=1, sort_keys=True)
            fh.write("\n")
        rp = os.path.join(d, self.id + ".violations.txt")
        if os.path.exists(rp):
            os.remove(rp)
        print("%s: %d obligations decided over %d functions in %.1fs (%s)" % (
            self.id, tot, len(self.fns), wall, ", ".join("%s=%s" % kv for kv in sorted(self.counts.items()))))
        if new:
            with open(rp, "w") as fh:
                for k, m in sorted(new.items()):
                    fh.write("[%s]\n%s\n\n" % (k, m))
            for k, m in sorted(new.items()):
                print("  [%s] %s" % (k, m))
            print("VIOLATION property=%s replay=%s" % (self.id, rp))
            return 1
        return 0


_job = None


def _work(i):
    base, fn, items = _job
    c = Ctx(base.id, base.tier)
    c.prog = base.prog
    c.verbose = base.verbose
    fn(c, items[i])
    return c.viol, c.obl, c.counts, c.fns
