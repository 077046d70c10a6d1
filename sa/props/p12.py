"""The transaction registry: which transaction is the current one of each
direction, when one is created, counted, looked up and dropped.  Every public
operation of the connection parser on transactions is abstractly executed over
an arbitrary map, both indexes and all configuration values left open; on each
path the result, the map, the two indexes and the connection flags afterwards
must be those of the specification."""
from absint import AI, St, mk, INT, REF, SOME, NONE, UNIT, OPT, show, EQ, LT, project, arith, ty_base, BIT
import parser as P
import dtable as D
from parser import CP, TX, domset

TXS = "transactions::Transactions"
QP, RP = "transaction::HtpRequestProgress", "transaction::HtpResponseProgress"
PIPELINED = 1
BLANK = {"request_ignored_lines": 0, "response_ignored_lines": 0, "request_line": None, "request_method": None,
         "request_method_number": "UNKNOWN", "request_uri": None, "request_protocol": None,
         "request_protocol_number": "UNKNOWN", "is_protocol_0_9": 0, "parsed_uri": None, "parsed_uri_raw": None,
         "complete_normalized_uri": None, "partial_normalized_uri": None, "request_message_len": 0,
         "request_entity_len": 0, "request_transfer_coding": "UNKNOWN", "request_content_encoding": "NONE",
         "request_content_encoding_processing": "NONE", "request_content_type": None, "request_content_length": None,
         "request_decompressor": None, "request_auth_type": "UNKNOWN", "request_auth_username": None,
         "request_auth_password": None, "request_auth_token": None, "request_hostname": None,
         "request_port_number": None, "response_line": None, "response_protocol": None,
         "response_protocol_number": "UNKNOWN", "response_status": None, "response_status_number": "UNKNOWN",
         "response_message": None, "seen_100continue": 0, "is_http_2_upgrade": 0, "response_message_len": 0,
         "response_entity_len": 0, "response_content_length": None, "response_transfer_coding": "UNKNOWN",
         "response_content_encoding": "NONE", "response_content_encoding_processing": "NONE",
         "response_content_type": None, "response_decompressor": None, "flags": 0, "request_progress": "NOT_STARTED",
         "response_progress": "NOT_STARTED", "request_header_repetitions": 0, "response_header_repetitions": 0,
         "user_data": None}


class Mon(P.Base):
    def call(self, ai, fr, st, c):
        from models import norm
        if c.decl and norm(c.decl) in ("std::cmp::max", "std::cmp::Ord::max", "std::cmp::min", "std::cmp::Ord::min") and \
                c.aty and c.aty[0] == "usize":
            a, b = c.args
            big = "max" in c.decl
            return [((b if big else a) if v else (a if big else b), s) for v, s in ai.branch(st, LT(a, b))]
        return None


def progress(t):
    return tuple(mk("proj", t, ("f", TX, n)) for n in ("request_progress", "response_progress"))


def machine(p, mon, extra=None):
    ix = P.log_intrinsics(p)
    ix.update(extra or {})
    rel = {f.id for f in p.code() if f.file.endswith("transactions.rs")}
    for t in ("Transaction", "HeaderParser", "Headers"):
        rel |= {f.id for f in p.method(t, "new")} | {f.id for f in p.method(t, "with_capacity")}
    ai = AI(p, monitor=mon, objtypes={"connp": CP}, tracked_all=True, relevant=rel, intrinsics=ix,
            step_cap=60000, state_cap=4000)
    return ai


class Names:
    """the registry's parts, found by type and by what the index accessors return"""

    def __init__(self, p):
        fs = {f["name"]: f["ty"] for f in p.adts[CP]["variants"][0]["fields"]}
        self.reg = [n for n, t in fs.items() if t == TXS][0]
        maps = [f["name"] for f in p.adts[TXS]["variants"][0]["fields"] if "BTreeMap<usize" in f["ty"]]
        self.map = maps[0]
        self.regv = mk("proj", mk("sym", "connp"), ("f", CP, self.reg))
        self.M = mk("proj", self.regv, ("f", TXS, self.map))
        self.path = (("f", CP, self.reg), ("f", TXS, self.map))
        self.ix = {}

    def idx(self, name):
        return mk("proj", self.regv, ("f", TXS, self.ix[name]))


def call(ctx, ai, f, *args):
    st = St({}, {}, (("pin", N.M) + tuple(N.idx(d) for d in N.ix) +
                     sum((progress(mk("proj", N.M, ("i", N.idx(d)))) for d in N.ix), ()),))
    outs = ai.run(f.id, [REF(("o", "connp"))] + list(args), st)
    ctx.used(ai)
    return outs


def pub(ctx, name):
    return P.one(ctx, name)


def run(ctx):
    p = ctx.prog
    global N
    if TXS not in p.adts:
        ctx.violation("anchor:registry", "the transaction registry type %s is gone" % TXS)
        return
    N = Names(p)
    for d in ("request", "response"):
        f = pub(ctx, d + "_index")
        if f is None:
            return
        outs = machine(p, Mon(ctx, d + "_index")).run(f.id, [REF(("o", "connp"))], St({}, {}, ()))
        v = outs[0][0] if len(outs) == 1 else None
        if v is None or v.k != "proj" or v.a[0] is not N.regv:
            ctx.violation(d + "_index", "%s_index() does not return the registry's current index (%s)"
                          % (d, "nothing" if v is None else show(v)[:80]))
            return
        N.ix[d] = v.a[1][2]
    if N.ix["request"] == N.ix["response"]:
        ctx.violation("index:shared", "request_index() and response_index() return the same counter")
        return
    ctx.ok("index", "two separate counters")
    for d in ("request", "response"):
        current(ctx, p, d)
        advance(ctx, p, d)
    lookup(ctx, p)
    size(ctx, p)
    flush(ctx, p)
    fresh(ctx, p)
    writers(ctx, p)
    ctx.floor("registry rows", ctx.counts.get("registry rows", 0), 20)


def state_of(ai, s):
    m = ai.read(None, s, ("o", "connp"), N.path)
    ix = {d: ai.read(None, s, ("o", "connp"), (("f", CP, N.reg), ("f", TXS, N.ix[d]))) for d in N.ix}
    return m, ix


def judge(ctx, mon, ai, outs, where, oracle):
    """oracle(e) -> {"ret": predicate(v, s)->complaint|None, "map": term|pred, "request"/"response": term, "flag": bool}"""
    for ret, s in outs:
        for s2, exp, trace in D.explore(ai, s, oracle):
            ctx.count("registry rows")
            m, ix = state_of(ai, s2)
            w = "; ".join("%s=%s" % (n if isinstance(n, str) else show(n)[:60], v) for n, v in trace)
            c = exp["ret"](ret, s2)
            if c:
                mon.bad("result", "%s: the result %s; when %s" % (where, c, w))
            em = exp.get("map", N.M)
            c = em(m, s2) if callable(em) else (None if m is em else "are %s, not %s" % (show(m)[:160], show(em)[:120]))
            if c:
                mon.bad("stored", "%s: the stored transactions %s; when %s" % (where, c, w))
            for d in N.ix:
                want = exp.get(d, N.idx(d))
                if ix[d] is not want:
                    mon.bad(d + "-index", "%s: the %s index becomes %s, not %s; when %s"
                            % (where, d, show(ix[d])[:80], show(want)[:80], w))
            ctx.ok("row", "%s %s" % (mon.label, w))


def is_none(v, s):
    return None if v.k == "agg" and v.a[1] == "None" else "is %s, not None" % show(v)[:80]


def stored(k):
    return mk("app", "has", N.M, k)


def elem(k):
    return REF(("o", "connp"), N.path + (("i", k),))


def some_elem(k):
    def h(v, s):
        if v.k == "agg" and v.a[1] == "Some":
            x = v.a[2][0][1]
            if x is elem(k):
                return None
        return "is %s, not the transaction stored at %s" % (show(v)[:120], show(k)[:60])
    return h


def current(ctx, p, d):
    """request()/request_mut(): the stored transaction, else a new one while the limit allows, else none"""
    k = N.idx(d)
    for nm in (d, d + "_mut"):
        f = pub(ctx, nm)
        if f is None:
            continue
        mon = Mon(ctx, nm)
        ai = machine(p, mon)
        outs = call(ctx, ai, f)
        lim = limit_term(ai, outs)
        if lim is None:
            ctx.violation(nm + ":limit", "%s: a transaction is created without regard to the configured maximum number of "
                          "transactions (max_tx)" % f.where())
            continue

        def oracle(e):
            if e.true(stored(k), "current transaction stored"):
                return {"ret": some_elem(k)}
            if not e.true(LT(mk("app", "len", N.M), lim), "fewer transactions than max_tx"):
                return {"ret": is_none}

            def newmap(m, s):
                if not (m.k == "app" and m.a[0] == "mapins" and m.a[1] is N.M and m.a[2] is k):
                    return "are %s, not the old ones plus one at the current index" % show(m)[:160]
                return blank(ai, s, m.a[3], k)
            return {"ret": some_elem(k), "map": newmap}
        judge(ctx, mon, ai, outs, f.where(), oracle)


def limit_term(ai, outs):
    """the value max_tx as it appears in the facts of the paths (field max_tx of the shared configuration)"""
    found = set()

    def walk(t, depth=0):
        if not hasattr(t, "k") or depth > 30:
            return
        if t.k == "proj" and isinstance(t.a[1], tuple) and t.a[1][0] == "f" and t.a[1][2] == "max_tx":
            found.add(t)
        for x in t.a:
            if hasattr(x, "k"):
                walk(x, depth + 1)
            elif isinstance(x, tuple):
                for y in x:
                    walk(y, depth + 1)
    for ret, s in outs:
        for t in s.facts:
            walk(t)
    return next(iter(found)) if len(found) == 1 else None


def blank(ai, s, v, k):
    """complaint if v is not a blank transaction numbered k"""
    if v.k != "agg" or not str(v.a[0]).endswith("Transaction"):
        return "hold %s instead of a new transaction" % show(v)[:80]
    got = {key[2]: x for key, x in v.a[2] if key[0] == "f"}
    if got.get("index") is not k:
        return "number the new transaction %s, not %s" % (show(got.get("index"))[:60], show(k)[:60])
    for n, want in BLANK.items():
        x = got.get(n)
        if x is None:
            continue
        if want is None:
            if not (x.k == "agg" and x.a[1] == "None"):
                return "start a new transaction with %s = %s, not None" % (n, show(x)[:60])
        elif isinstance(want, int):
            if x is not INT(want):
                return "start a new transaction with %s = %s, not %s" % (n, show(x)[:60], want)
        elif not (x.k == "agg" and x.a[1] == want):
            return "start a new transaction with %s = %s, not %s" % (n, show(x)[:60], want)
    return None


def advance(ctx, p, d):
    f = pub(ctx, d + "_next")
    if f is None:
        return
    mon = Mon(ctx, d + "_next")
    ai = machine(p, mon)
    outs = call(ctx, ai, f)
    k, o = N.idx(d), N.idx("response" if d == "request" else "request")
    t = mk("proj", N.M, ("i", k))
    fl0 = mk("proj", mk("proj", mk("sym", "connp"), ("f", CP, "conn")), ("f", "connection::Connection", "flags"))
    auto = field_term(outs, "tx_auto_destroy")
    if auto is None:
        ctx.violation(d + "_next:auto-destroy", "%s: finished transactions are kept or dropped without regard to tx_auto_destroy"
                      % f.where())
        return

    def oracle(e):
        r = {}
        if e.true(auto, "auto destroy") and e.true(stored(k), "stored"):
            done = e.oneof(mk("proj", t, ("f", TX, "request_progress")), QP, ("COMPLETE",), "request complete") and \
                e.oneof(mk("proj", t, ("f", TX, "response_progress")), RP, ("COMPLETE",), "response complete")
            if done:
                r["map"] = mk("app", "maprem", N.M, k)
        n = plus1(k)
        r[d] = n
        r["ret"] = lambda v, s: None if v is n else "is %s, not the next index" % show(v)[:80]
        if d == "request":
            r["pipe"] = e.true(LT(o, k), "a response is outstanding")
        else:
            r["pipe"] = False
        return r
    judge(ctx, mon, ai, outs, f.where(), oracle)
    for ret, s in outs:
        for s2, exp, trace in D.explore(ai, s, oracle):
            v = ai.read(None, s2, ("o", "connp"), (("f", CP, "conn"), ("f", "connection::Connection", "flags")))
            b = D.bits(v, fl0)
            if b != (PIPELINED if exp["pipe"] else 0):
                mon.bad("pipelined", "%s: the connection's flags become %s; pipelining (flag %d) is to be recorded exactly when the "
                        "request index is ahead of the response index; when %s"
                        % (f.where(), show(v)[:100], PIPELINED, "; ".join("%s=%s" % (a if isinstance(a, str) else show(a)[:60], c)
                                                                          for a, c in trace)))
            ctx.ok("pipelined", "%s %s" % (d, trace))


def plus1(k):
    return arith("Add", k, INT(1))


def field_term(outs, name):
    found = set()

    def walk(t, depth=0):
        if not hasattr(t, "k") or depth > 30:
            return
        if t.k == "proj" and isinstance(t.a[1], tuple) and t.a[1][0] == "f" and t.a[1][2] == name:
            found.add(t)
        for x in t.a:
            if hasattr(x, "k"):
                walk(x, depth + 1)
    for ret, s in outs:
        for t in s.facts:
            walk(t)
    return next(iter(found)) if len(found) == 1 else None


def lookup(ctx, p):
    k = mk("sym", "key")
    for nm in ("tx", "tx_mut"):
        f = pub(ctx, nm)
        if f is None:
            continue
        mon = Mon(ctx, nm)
        ai = machine(p, mon)
        judge(ctx, mon, ai, call(ctx, ai, f, k), f.where(),
              lambda e: {"ret": some_elem(k) if e.true(stored(k), "stored") else is_none})
    f = pub(ctx, "remove_tx")
    if f is not None:
        mon = Mon(ctx, "remove_tx")
        ai = machine(p, mon)
        judge(ctx, mon, ai, call(ctx, ai, f, k), f.where(),
              lambda e: {"ret": lambda v, s: None,
                         "map": mk("app", "maprem", N.M, k) if e.true(stored(k), "stored") else N.M})


def size(ctx, p):
    f = pub(ctx, "tx_size")
    if f is None:
        return
    mon = Mon(ctx, "tx_size")
    ai = machine(p, mon)
    outs = call(ctx, ai, f)
    a, b = N.idx("request"), N.idx("response")

    def oracle(e):
        if e.true(LT(a, b), "response index ahead"):
            k = b
        else:
            k = a
            if not e.true(LT(b, a), "request index ahead") and ai.evalb(e.st, stored(b)) is not None:
                # both are the same: the code looked it up under the other name
                k = b
        if not e.true(stored(k), "latest transaction stored"):
            return {"ret": lambda v, s: None if ai.evalb(s, EQ(v, k)) == 1 or v is k else "is %s, not the latest index"
                    % show(v)[:80]}
        t = mk("proj", N.M, ("i", k))
        started = not (e.oneof(mk("proj", t, ("f", TX, "request_progress")), QP, ("NOT_STARTED",), "request not started") and
                       e.oneof(mk("proj", t, ("f", TX, "response_progress")), RP, ("NOT_STARTED",), "response not started"))
        base = mk("proj", t, ("f", TX, "index"))
        ok = {plus1(base), plus1(k)} if started else {base, k}
        return {"ret": lambda v, s: None if known(ai, s, v) in ok else "is %s, not the latest index%s" % (show(v)[:80], " + 1" if started
                                                                                             else "")}
    judge(ctx, mon, ai, outs, f.where(), oracle)


def known(ai, s, v):
    """a sum with its decided boolean part evaluated"""
    if v.k == "op" and v.a[0] == "Add":
        for a, b in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if b.k != "int":
                x = ai.evalb(s, b)
                if x in (0, 1):
                    return arith("Add", a, INT(x))
    return v


def flush(ctx, p):
    """closing with flush_incomplete: exactly the started, unfinished transactions get their transaction_complete
    callback (with their own index), and only they are dropped, when tx_auto_destroy is set (two transactions stored)"""
    f = pub(ctx, "flush_incomplete_transactions")
    if f is None:
        return
    mon = Mon(ctx, "flush_incomplete_transactions")
    hooks = [g for g in p.code() if g.name == "run_all" and g.argc == 3]

    def hook(ai, fr, st, c):
        n = P.hook_name(c.args[0]) or P.hook_name(ai.deref(fr, st, c.args[0]))
        v = c.args[2] if c.args[2].k != "ref" else ai.deref(fr, st, c.args[2])
        if len(st.mon) > 6:
            raise RuntimeError("more callbacks than stored transactions")
        s = st.clone()
        s.mon = s.mon + (("hook", n, v),)
        r = mk("app", "hookret", INT(len(s.mon)))
        return [(r, s)]
    ai = machine(p, mon, {g.id: hook for g in hooks})
    ai.concrete_seq = True
    t = [mk("sym", "tx%d" % i) for i in range(2)]
    k = [mk("proj", x, ("f", TX, "index")) for x in t]
    m0 = mk("app", "empty")
    for a, b in zip(k, t):
        m0 = mk("app", "mapins", m0, a, b)
    st = St({}, {}, (("pin",) + tuple(k) + sum((progress(x) for x in t), ()),))
    ai.write(None, st, ("o", "connp"), N.path, m0)
    ai.assume(st, EQ(k[0], k[1]), 0)
    outs = ai.run(f.id, [REF(("o", "connp"))], st)
    ctx.used(ai)
    auto = field_term(outs, "tx_auto_destroy")
    if auto is None:
        ctx.violation("flush:auto-destroy", "%s: flushed transactions are kept or dropped without regard to tx_auto_destroy" % f.where())
        return

    def oracle(e):
        r = []
        for i in range(2):
            q, o = (mk("proj", t[i], ("f", TX, n)) for n in ("request_progress", "response_progress"))
            started = not (e.oneof(q, QP, ("NOT_STARTED",), "tx%d request not started" % i) and
                           e.oneof(o, RP, ("NOT_STARTED",), "tx%d response not started" % i))
            done = e.oneof(q, QP, ("COMPLETE",), "tx%d request complete" % i) and \
                e.oneof(o, RP, ("COMPLETE",), "tx%d response complete" % i)
            if started and not done:
                r.append(i)
        return r, (e.true(auto, "auto destroy") if r else False)
    n = 0
    for ret, s in outs:
        for s2, (want, rm), trace in D.explore(ai, s, oracle):
            n += 1
            w = "; ".join("%s=%s" % x for x in trace if isinstance(x[0], str))
            ev = [(x[1], x[2]) for x in s2.mon if x and x[0] == "hook"]
            if ev != [("hook_transaction_complete", k[i]) for i in want]:
                mon.bad("callback", "%s: with two transactions stored, the callbacks run on flush are [%s], not transaction_complete of "
                        "the started and unfinished ones (%s); when %s" % (
                            f.where(), ", ".join("%s(%s)" % (a, show(b)[:40]) for a, b in ev), want or "none", w))
            m = ai.read(None, s2, ("o", "connp"), N.path)
            left = [x for x in range(2) if _has(ai, s2, m, k[x]) != 0]
            exp = [x for x in range(2) if not (rm and x in want)]
            if left != exp:
                mon.bad("dropped", "%s: after the flush transactions %s of two remain, not %s; when %s" % (f.where(), left, exp, w))
            ctx.ok("flush row", w)
    ctx.floor("flush rows", n, 9)


def _has(ai, s, m, k):
    from models import map_has
    v = map_has(ai, s, m, k)
    return v.a[0] if v.k == "int" else None


def fresh(ctx, p):
    """a new parser starts with no transaction and both indexes 0"""
    fs = p.method("Transactions", "new")
    if len(fs) != 1:
        ctx.violation("anchor:new", "the registry's constructor is gone")
        return
    ai = machine(p, Mon(ctx, "new"))
    f = fs[0]
    outs = ai.run(f.id, [mk("sym", "a%d" % i) for i in range(f.argc)], St({}, {}, ()))
    for v, s in outs:
        got = {key[2]: x for key, x in v.a[2] if key[0] == "f"} if v.k == "agg" else {}
        for d in N.ix:
            if got.get(N.ix[d]) is not INT(0):
                ctx.violation("new:" + d, "%s: a new parser's %s index is %s, not 0" % (f.where(), d, show(got.get(N.ix[d]))[:60]
                                                                                         if got.get(N.ix[d]) else "unset"))
        ctx.ok("new", "indexes 0")


def writers(ctx, p):
    """a transaction's number is set only where it is created"""
    t = p.touches()
    ctx.count("functions scanned for writes of a transaction's number", len(t))
    for f in p.code():
        if (TX, "index") in t.get(f.id, ((), ()))[1]:
            ctx.violation("index-write:" + f.id, "%s changes the number of an existing transaction" % f.where())
