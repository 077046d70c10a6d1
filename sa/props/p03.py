"""For every configuration setter and hook registration (C and Rust) the
analysis computes the abstract configuration after the call on every path and
compares it, field by field, with the one before: the field the setter is
named after holds exactly the given value, every other field is unchanged, and
a registered callback is appended to exactly the hook named.  Every server
personality yields exactly its documented table (an unsupported one yields an
error and no change), and fresh configurations hold the documented defaults."""
import capi
import expect as X
from absint import mk, INT, NULL, REF, LT, NOT, EQ, OPT, show, SOME, NONE, AGG, TRUE, FALSE, RES, project, ty_base, St, AI

C, DC, O = "config::Config", "config::DecoderConfig", "decompressors::Options"
HK = "hook::Hook"


def leaves_of(p, ty, pre=()):
    """field paths of the configuration down to scalars and hook lists"""
    a = p.adts.get(ty)
    if not a or a["kind"] != "struct" or ty.startswith("std::"):
        return [pre]
    out = []
    for f in a["variants"][0]["fields"]:
        t = f["ty"]
        q = pre + (("f", ty, f["name"]),)
        b = ty_base(t)
        if b in p.adts and p.adts[b]["kind"] == "struct" and not t.startswith("&") and p.adts[b].get("local", True):
            out += leaves_of(p, b, q)
        else:
            out.append(q)
    return out


def dotted(path):
    return ".".join(str(e[2]) for e in path)


def get(v, path):
    for e in path:
        v = project(v, e)
    return v


BOOL_INT = {  # C setters taking an int flag
    "backslash_convert_slashes": "decoder_cfg.backslash_convert_slashes",
    "convert_lowercase": "decoder_cfg.convert_lowercase",
    "nul_encoded_terminates": "decoder_cfg.nul_encoded_terminates",
    "nul_raw_terminates": "decoder_cfg.nul_raw_terminates",
    "path_separators_compress": "decoder_cfg.path_separators_compress",
    "plusspace_decode": "decoder_cfg.plusspace_decode",
    "path_separators_decode": "decoder_cfg.path_separators_decode",
    "request_decompression": "request_decompression_enabled",
    "u_encoding_decode": "decoder_cfg.u_encoding_decode",
    "utf8_convert_bestfit": "decoder_cfg.utf8_convert_bestfit",
    "tx_auto_destroy": "tx_auto_destroy",
    "flush_incomplete": "flush_incomplete",
    "parse_urlencoded": "parse_urlencoded",
}
PLAIN_C = {
    "allow_space_uri": "decoder_cfg.allow_space_uri",
    "double_decode_normalized_query": "decoder_cfg.double_decode_normalized_query",
    "double_decode_normalized_path": "decoder_cfg.double_decode_normalized_path",
    "normalized_uri_include_all": "decoder_cfg.normalized_uri_include_all",
    "url_encoding_invalid_handling": "decoder_cfg.url_encoding_invalid_handling",
    "field_limit": "field_limit", "max_tx": "max_tx",
    "compression_time_limit": "compression_options.time_limit",
}
PLAIN_RUST = {
    "set_" + k: v for k, v in {
        "double_decode_normalized_path": "decoder_cfg.double_decode_normalized_path",
        "double_decode_normalized_query": "decoder_cfg.double_decode_normalized_query",
        "parse_urlencoded": "parse_urlencoded", "field_limit": "field_limit",
        "allow_space_uri": "decoder_cfg.allow_space_uri", "tx_auto_destroy": "tx_auto_destroy",
        "flush_incomplete": "flush_incomplete", "bestfit_map": "decoder_cfg.bestfit_map",
        "bestfit_replacement_byte": "decoder_cfg.bestfit_map.replacement_byte",
        "url_encoding_invalid_handling": "decoder_cfg.url_encoding_invalid_handling",
        "nul_raw_terminates": "decoder_cfg.nul_raw_terminates",
        "nul_encoded_terminates": "decoder_cfg.nul_encoded_terminates",
        "u_encoding_decode": "decoder_cfg.u_encoding_decode",
        "backslash_convert_slashes": "decoder_cfg.backslash_convert_slashes",
        "path_separators_decode": "decoder_cfg.path_separators_decode",
        "path_separators_compress": "decoder_cfg.path_separators_compress",
        "plusspace_decode": "decoder_cfg.plusspace_decode", "convert_lowercase": "decoder_cfg.convert_lowercase",
        "utf8_convert_bestfit": "decoder_cfg.utf8_convert_bestfit",
        "u_encoding_unwanted": "decoder_cfg.u_encoding_unwanted",
        "control_chars_unwanted": "decoder_cfg.control_chars_unwanted",
        "normalized_uri_include_all": "decoder_cfg.normalized_uri_include_all",
        "url_encoding_invalid_unwanted": "decoder_cfg.url_encoding_invalid_unwanted",
        "requestline_leading_whitespace_unwanted": "requestline_leading_whitespace_unwanted",
        "request_decompression": "request_decompression_enabled",
        "decompression_layer_limit": "compression_options.layer_limit"}.items()}
OPT_RUST = {"lzma_layers": "lzma_layers", "bomb_limit": "bomb_limit", "bomb_ratio": "bomb_ratio",
            "time_limit": "time_limit", "time_test_freq": "time_test_freq", "layer_limit": "layer_limit"}
HOOKS = ["log", "request_body_data", "request_complete", "request_headers", "request_header_data", "request_line",
         "request_start", "request_trailer", "request_trailer_data", "response_body_data", "response_complete",
         "response_headers", "response_header_data", "response_start", "response_trailer", "response_trailer_data",
         "transaction_complete"]
UN, UE, SP = "config::HtpUnwanted", "config::HtpUrlEncodingHandling", "config::HtpServerPersonality"
ON, OFF = TRUE, FALSE
b, s, k, lc, bf, u, ih, iu, cc, lw, uu = ("decoder_cfg." + n for n in (
    "backslash_convert_slashes", "path_separators_decode", "path_separators_compress", "convert_lowercase",
    "utf8_convert_bestfit", "u_encoding_decode", "url_encoding_invalid_handling", "url_encoding_invalid_unwanted",
    "control_chars_unwanted", "x", "u_encoding_unwanted"))
lw = "requestline_leading_whitespace_unwanted"
IGN, C400, PP = ("IGNORE", UN), ("CODE_400", UN), ("PRESERVE_PERCENT", UE)
PERS = {
    "MINIMAL": {},
    "GENERIC": {b: ON, s: ON, k: ON},
    "IDS": {b: ON, s: ON, k: ON, lc: ON, bf: ON, u: ON, lw: IGN},
    "APACHE_2": {b: OFF, s: OFF, k: ON, u: OFF, ih: PP, iu: C400, cc: IGN, lw: C400},
    "IIS_5_1": {b: ON, s: ON, k: ON, u: OFF, ih: PP, cc: IGN, lw: IGN},
    "IIS_6_0": {b: ON, s: ON, k: ON, u: ON, ih: PP, uu: C400, cc: C400, lw: IGN},
    "IIS_7_0": {b: ON, s: ON, k: ON, u: ON, ih: PP, iu: C400, cc: C400, lw: IGN},
    "IIS_7_5": {b: ON, s: ON, k: ON, u: ON, ih: PP, iu: C400, cc: C400, lw: IGN},
    "IIS_4_0": None, "IIS_5_0": None,
}
DEF = {
    "field_limit": 18000, "log_level": "NOTICE", "tx_auto_destroy": 0, "server_personality": "MINIMAL",
    "parameter_processor": "None", "response_decompression_enabled": 1, "parse_urlencoded": 0,
    "parse_request_auth": 1, lw: "IGNORE", "request_decompression_enabled": 0, "flush_incomplete": 0, "max_tx": 512,
    "decoder_cfg.plusspace_decode": 1, "decoder_cfg.bestfit_map.replacement_byte": 63,
    "compression_options.bomb_limit": 1048576, "compression_options.bomb_ratio": 2048,
    "compression_options.time_limit": 100000, "compression_options.time_test_freq": 256,
    "compression_options.lzma_layers": ("Some", 1), "compression_options.layer_limit": ("Some", 2),
    ih: "PRESERVE_PERCENT",
}
for _n in ("double_decode_normalized_path", "double_decode_normalized_query", "backslash_convert_slashes",
           "convert_lowercase", "path_separators_compress", "path_separators_decode", "nul_raw_terminates",
           "allow_space_uri", "u_encoding_decode", "nul_encoded_terminates", "normalized_uri_include_all",
           "utf8_convert_bestfit"):
    DEF["decoder_cfg." + _n] = 0
for _n in ("path_separators_encoded_unwanted", "nul_raw_unwanted", "control_chars_unwanted", "u_encoding_unwanted",
           "url_encoding_invalid_unwanted", "nul_encoded_unwanted", "utf8_invalid_unwanted"):
    DEF["decoder_cfg." + _n] = "IGNORE"


class Cfg:
    def __init__(self, ctx, name, ty):
        self.ctx, self.p, self.name, self.ty = ctx, ctx.prog, name, ty
        self.o = X.Obj(self.p, name, ty)
        self.leaves = leaves_of(self.p, ty)

    def check(self, label, f, r, cases, rty=None):
        """cases: [(assumptions, {dotted: value or callable(got, ai, st)}, ret or None)]"""
        ctx = self.ctx
        ctx.used(r.ai)
        ctx.ok("setter", label)
        for kind, msg in r.mon.ev:
            ctx.violation("%s:%s" % (kind, label), "%s: %s" % (label, msg))
        for root, path, val in r.mon.writes:
            if root[0] in ("s", "d"):
                ctx.violation("write:" + label, "%s writes outside the configuration it was given" % f.where())
        seen = set()
        for ret, st in r.outs:
            hit = False
            for i, (cond, exp, eret) in enumerate(cases):
                s = X.flt(r.ai, st, (cond,))
                if s is None:
                    continue
                hit = True
                seen.add(i)
                exp = dict(exp)
                cur = st.store.get(("o", self.name), mk("sym", self.name))
                want = {}
                for d, v in exp.items():
                    want[self.o.path(d)] = v
                for path in set(self.leaves) | set(want):
                    if any(len(w) < len(path) and path[:len(w)] == w for w in want):
                        continue
                    got = get(cur, path)
                    v = want.get(path, get(mk("sym", self.name), path))
                    if any(len(path) < len(w) and w[:len(path)] == path for w in want):
                        continue
                    good = v(got) if callable(v) else (got is v or capi.same(r.ai, s, got, v))
                    if not good:
                        ctx.violation("%s:%s" % (label, dotted(path)),
                                      "%s: when %s, %s becomes %s, expected %s" % (
                                          f.where(), X.cond((cond,)), dotted(path), show(got),
                                          "unchanged" if path not in want else
                                          ("the given value appended" if callable(v) else show(v))))
                if eret is not None and not eret(ret):
                    ctx.violation("%s:status" % label, "%s: when %s it returns %s" % (
                        f.where(), X.cond((cond,)), show(ret)))
            if not hit:
                ctx.violation("%s:case" % label, "%s: a path outside the specified cases" % f.where())
        for i in range(len(cases)):
            if i not in seen:
                ctx.violation("%s:path" % label, "%s: no path for the case %s" % (f.where(), X.cond((cases[i][0],))))


def sym(r, n):
    """the value parameter of a setter: the only one that is not the object"""
    vals = [a for a, t in zip(r.args, r.tys) if not t.startswith(("*", "&"))]
    return vals[0] if len(vals) == 1 else mk("sym", "?")


def appended(kind, fn, before):
    def chk(got):
        if not (got.k == "app" and got.a[0] == "push" and got.a[1] is before):
            return False
        e = got.a[2]
        return e.k == "agg" and e.a[1] == kind and len(e.a[2]) == 1 and e.a[2][0][1] is fn
    return chk


def run(ctx):
    p = ctx.prog
    ex = capi.exported(p)
    c = Cfg(ctx, "cfg", C)
    ctx.floor("configuration_fields", len(c.leaves), 55)
    n = 0

    def need(name, d=ex):
        f = d.get(name)
        if f is None:
            ctx.violation("missing:" + name, "the setter %s no longer exists" % name)
        return f

    for nm, fld in BOOL_INT.items():
        f = need("htp_config_set_" + nm)
        if f:
            r = capi.Run(p, f)
            a = sym(r, f)
            c.check(f.name, f, r, [([(EQ(a, INT(1)), 1)], {fld: ON}, None), ([(EQ(a, INT(1)), 0)], {fld: OFF}, None)])
    for nm, fld in PLAIN_C.items():
        f = need("htp_config_set_" + nm)
        if f:
            r = capi.Run(p, f)
            c.check(f.name, f, r, [([], {fld: sym(r, f)}, None)])
    f = need("htp_config_set_bestfit_replacement_byte")
    if f:
        r = capi.Run(p, f)
        c.check(f.name, f, r, [([], {"decoder_cfg.bestfit_map.replacement_byte": mk("app", "cast:u8", sym(r, f))}, None)])
    f = need("htp_config_set_compression_bomb_limit")
    if f:
        r = capi.Run(p, f)
        a = sym(r, f)
        # every size_t fits on the platforms supported; a value that does not is ignored
        c.check(f.name, f, r, fitcases(r, a, "u64", "compression_options.bomb_limit"))
    for nm, fld in (("lzma_layers", "compression_options.lzma_layers"),
                    ("decompression_layer_limit", "compression_options.layer_limit")):
        f = need("htp_config_set_" + nm)
        if f:
            r = capi.Run(p, f)
            a = sym(r, f)
            pos = LT(INT(0), a)
            c.check(f.name, f, r, poscases(r, a, fld))
    f = need("htp_config_set_lzma_memlimit")
    if f:
        r = capi.Run(p, f)
        c.check(f.name, f, r, lzma(sym(r, f), "compression_options.lzma"))
    f = need("htp_config_set_parse_request_cookies")
    if f:
        c.check(f.name, f, capi.Run(p, f), [([], {}, None)])
    for h in HOOKS:
        f = need("htp_config_register_" + h)
        if f:
            r = capi.Run(p, f)
            fld = "hook_%s.callbacks" % h
            c.check(f.name, f, r, [([], {fld: appended("External", sym(r, f), c.o.val(fld))}, None)])
    f = need("htp_tx_register_response_body_data")
    if f:
        r = capi.Run(p, f)
        t = Cfg(ctx, "tx", "transaction::Transaction")
        fld = "hook_response_body_data.callbacks"
        t.check(f.name, f, r, [([], {fld: appended("External", sym(r, f), t.o.val(fld))}, None)])
    # Rust interface
    cs = Cfg(ctx, "self", C)
    for nm, fld in PLAIN_RUST.items():
        for f in meth(ctx, "Config", nm):
            r = capi.Run(p, f)
            cs.check("Config::" + nm, f, r, [([], {fld: sym(r, f)}, None)])
    for h in HOOKS + ["response_line"]:
        for f in meth(ctx, "Config", "register_" + h):
            r = capi.Run(p, f)
            fld = "hook_%s.callbacks" % h
            cs.check("Config::register_" + h, f, r, [([], {fld: appended("Native", sym(r, f), cs.o.val(fld))}, None)])
    for nm in ("register_request_body_data",):
        for f in meth(ctx, "Transaction", nm):
            r = capi.Run(p, f)
            t = Cfg(ctx, "self", "transaction::Transaction")
            fld = "hook_%s.callbacks" % nm[len("register_"):]
            t.check("Transaction::" + nm, f, r, [([], {fld: appended("Native", sym(r, f), t.o.val(fld))}, None)])
    os_ = Cfg(ctx, "self", O)
    for nm, fld in OPT_RUST.items():
        for f in meth(ctx, "Options", "set_" + nm):
            r = capi.Run(p, f)
            os_.check("Options::set_" + nm, f, r, [([], {fld: sym(r, f)}, None)])
        for f in meth(ctx, "Options", "get_" + nm):
            r = capi.Run(p, f)
            for bmsg in X.compare(r.ai, r.outs, X.val(os_.o, fld), f.locals[0]["ty"]):
                ctx.violation("value:Options::get_" + nm, "%s: %s" % (f.where(), bmsg))
            ctx.ok("getter", "Options::get_" + nm)
    for f in meth(ctx, "Options", "set_lzma_memlimit"):
        r = capi.Run(p, f)
        os_.check("Options::set_lzma_memlimit", f, r, lzma(sym(r, f), "lzma"))
    personalities(ctx, p, ex)
    defaults(ctx, p)
    ctx.floor("setters", len(ctx.obl.get("setter", ())), 93)


def meth(ctx, ty, name):
    fs = ctx.prog.method(ty, name)
    if not fs:
        ctx.violation("missing:%s::%s" % (ty, name), "the setter %s::%s no longer exists" % (ty, name))
    return fs


def fitcases(r, a, ty, fld):
    t = mk("app", "fits:" + ty, a)
    used = any(t in st.facts for _, st in r.outs)
    if not used:
        return [([], {fld: a}, None)]
    return [([(t, 1)], {fld: a}, None), ([(t, 0)], {}, None)]


def poscases(r, a, fld):
    """<= 0: no limit; otherwise the limit itself"""
    t = mk("app", "fits:u32", a)
    pos = LT(INT(0), a)
    val = lambda g: g.k == "agg" and g.a[1] == "Some" and strip(g.a[2][0][1]) is a
    none = lambda g: g is NONE
    if any(t in st.facts for _, st in r.outs):
        # a positive int always fits; the conversion failure is only reachable for negative values
        return [([(pos, 0)], {fld: none}, None), ([(pos, 1), (t, 1)], {fld: val}, None),
                ([(pos, 1), (t, 0)], {fld: none}, None)]
    return [([(pos, 0)], {fld: none}, None), ([(pos, 1)], {fld: val}, None)]


def strip(v):
    while v.k == "app" and isinstance(v.a[0], str) and v.a[0].startswith("cast:"):
        v = v.a[1]
    return v


def lzma(a, fld):
    def some(g):
        if not (g.k == "agg" and g.a[1] == "Some"):
            return False
        v = g.a[2][0][1]
        d = dict((e[2], x) for e, x in v.a[2]) if v.k == "agg" else {}
        if v.k == "upd":
            d = dict((e[2], x) for e, x in v.a[1])
        m = d.get("memlimit")
        return m is not None and m.k == "agg" and m.a[1] == "Some" and m.a[2][0][1] is a
    return [([(EQ(a, INT(0)), 1)], {fld: lambda g: g is NONE}, None), ([(EQ(a, INT(0)), 0)], {fld: some}, None)]


def personalities(ctx, p, ex):
    vs = p.variants(SP) or []
    if set(vs) - set(PERS):
        ctx.sample("personalities without a table: %s" % sorted(set(vs) - set(PERS)))
    todo = [("Config::set_server_personality", f, "self") for f in meth(ctx, "Config", "set_server_personality")]
    if ex.get("htp_config_set_server_personality"):
        todo.append(("htp_config_set_server_personality", ex["htp_config_set_server_personality"], "cfg"))
    for label, f, obj in todo:
        c = Cfg(ctx, obj, C)
        for v in vs:
            if v not in PERS:
                continue
            val = mk("agg", SP, v, ())
            r = capi.Run(p, f, inline=400, argv={"personality": val} if "personality" in
                         [l.get("n") for l in f.locals] else {f.locals[2].get("n"): val})
            t = PERS[v]
            ok = lambda ret: ret.k == "agg" and ret.a[1] in ("Ok", "OK")
            er = lambda ret: ret.k == "agg" and (ret.a[1] == "ERROR" or (
                ret.a[1] == "Err" and ret.a[2][0][1].k == "agg" and ret.a[2][0][1].a[1] == "ERROR"))
            if t is None:
                c.check("%s(%s)" % (label, v), f, r, [([], {}, er)])
            else:
                exp = {k_: (x if not isinstance(x, tuple) else mk("agg", x[1], x[0], ())) for k_, x in t.items()}
                exp["server_personality"] = val
                c.check("%s(%s)" % (label, v), f, r, [([], exp, ok)])
            ctx.ok("personality", "%s %s" % (label, v))
    ctx.floor("personalities", len([v for v in vs if v in PERS]), len(PERS))


def defaults(ctx, p):
    fs = [f for f in p.code() if f.name == "default" and f.locals[0]["ty"] == C]
    ctx.floor("default_constructors", len(fs), 1)
    for f in fs:
        mon = capi.CMon()
        ai = AI(p, monitor=mon, tracked_all=True, step_cap=60000)
        outs = ai.run(f.id, [], St({}, {}, None))
        ctx.used(ai)
        o = X.Obj(p, "d", C)
        for ret, st in outs:
            for path in leaves_of(p, C):
                d = dotted(path)
                g = get(ret, path)
                if d.endswith(".callbacks"):
                    if not (g.k == "app" and g.a[0] == "empty"):
                        ctx.violation("default:" + d, "%s: %s does not start empty" % (f.where(), d))
                    ctx.ok("default", d)
                    continue
                if d not in DEF:
                    continue
                w = DEF[d]
                if isinstance(w, int):
                    good = g.k == "int" and g.a[0] == w
                elif isinstance(w, tuple):
                    good = g.k == "agg" and g.a[1] == "Some" and g.a[2][0][1] is INT(w[1])
                else:
                    good = g.k == "agg" and g.a[1] == w
                if not good:
                    ctx.violation("default:" + d, "%s: %s defaults to %s, documented is %s" % (f.where(), d, show(g), w))
                ctx.ok("default", d)
    ctx.floor("defaults", len(ctx.obl.get("default", ())), len(DEF))
