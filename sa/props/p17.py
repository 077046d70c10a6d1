"""Isolation: an effect analysis of the whole crate.  No shared mutable state,
no effects on the outside, no hidden inputs, no change of a configuration in use."""
import re
from absint import ty_base

CELLS = re.compile(r"\b(UnsafeCell|Cell|RefCell|OnceCell|LazyCell|SyncUnsafeCell|Mutex|RwLock|OnceLock|LazyLock|Condvar|Once|Atomic\w+|"
                   r"ReentrantLock|mpsc::\w+|Rc|Arc|Lazy|LocalKey)\b")
LAZY = re.compile(r"^(lazy_static::lazy::Lazy|std::sync::(Once|Lazy)Lock|once_cell::sync::(Lazy|OnceCell)|std::sync::LazyLock)<(.*?)(, fn\(\) -> .*)?>$")

EFFECT = [
    (r"^std::fs\b|^std::os\b|^std::path::Path::(exists|metadata|read|is_file|is_dir|canonicalize)", "the file system"),
    (r"^std::env\b", "the environment"),
    (r"^std::process\b|^std::panic::(set_hook|take_hook)|^std::alloc::set", "the process"),
    (r"^std::net::(Tcp|Udp|Unix|ToSocketAddrs)", "the network"),
    (r"^std::thread\b", "threads or thread-local state"),
    (r"^std::io::(stdin|stdout|stderr|_print|_eprint|Std\w+|set_output)|^std::io::stdio\b", "standard streams"),
    (r"^std::sync::mpsc::Receiver.*::(recv|recv_timeout|iter)$|^std::sync::(Condvar|Barrier)", "blocking"),
    (r"_volatile$", "volatile memory"),
    (r"::expose_provenance$|^std::ptr::(const_ptr|mut_ptr)::.*::addr$|::new_pointer$|fmt::Pointer::fmt$|RandomState|random\b", "addresses or randomness"),
    (r"OffsetDateTime::now|^std::time::SystemTime::(now|elapsed)|UtcDateTime::now", "the wall clock"),
    (r"^std::time::Instant::(now|elapsed)|^time::.*Instant.*::now", "the stop watch"),
    (r"^libc::(?!malloc$|free$|calloc$|strlen$|memcpy$)", "the C library"),
    (r"^(std|core)::arch\b|core_arch", "processor state"),
]
EFFECT = [(re.compile(a), b) for a, b in EFFECT]
HASHITER = {"iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "drain", "retain", "into_keys", "into_values", "extract_if"}


def named(o):
    """function constants in a piece of MIR"""
    if isinstance(o, dict):
        if "fn" in o and "crate" in o:
            yield o
        for v in o.values():
            if isinstance(v, (dict, list)):
                yield from named(v)
    elif isinstance(o, list):
        for v in o:
            yield from named(v)


def strip(n):
    return re.sub(r"::<[^>]*>", "", n)


def effects(r):
    out = set()
    for n in {r["fn"], r.get("res") or r["fn"]}:
        n = strip(n)
        for rx, what in EFFECT:
            if rx.search(n):
                out.add(what)
        if n.split("::")[-1] in HASHITER and re.search(r"\bHash(Map|Set)<|hash::(map|set)::|hash_(map|set)::", " ".join([n] + list(map(str, (r.get("rargs") or []) + (r.get("args") or []))))):
            if not all(re.match(r"^'|^[a-z]\w*$", str(x)) for x in (r.get("args") or [])) or "Hash" in n:
                out.add("the order of a hash table")
    return out


def deep(p, ty, seen=None):
    """interior-mutability types a type is made of, through crate types"""
    seen = set() if seen is None else seen
    if ty in seen:
        return None
    seen.add(ty)
    ty = re.sub(r"\bfn\(.*", "fn", ty)      # a function pointer holds nothing
    m = CELLS.search(ty)
    if m:
        return m.group(0)
    for a in set(re.findall(r"[\w:]+", ty)):
        d = p.adts.get(a)
        if d:
            for v in d["variants"]:
                for f in v["fields"]:
                    r = deep(p, f["ty"], seen)
                    if r:
                        return r
    return None


def run(ctx):
    p = ctx.prog
    statics(ctx, p)
    code = [f for f in p.fns.values() if not p.is_test(f)]
    roots = [f for f in code if f.kind == "fn" and any(
        re.match(r"^(&('\w+ )?(mut )?|\*(mut|const) )(\w+::)*(ConnectionParser|Transaction)\b", f.locals[i]["ty"]) for i in range(1, f.argc + 1))]
    ctx.floor("parser operations", len(roots), 100)
    parsing = p.reach(roots)
    n = 0
    for f in code:
        ctx.fns.add(f.id)
        for r in named(f.blocks):
            n += 1
            if r.get("local") and (r.get("res") or r["fn"]) not in p.fns and r["fn"] not in p.fns:
                foreign(ctx, p, f, r)
                continue
            for what in effects(r):
                if what == "the wall clock" and f.id not in parsing:
                    ctx.ok("clock", "%s reads the clock while an object is created" % f.id)
                elif what == "the stop watch" and watch(p, f):
                    ctx.ok("clock", "%s measures decoding time" % f.id)
                else:
                    ctx.violation("effect:%s:%s" % (f.id, strip(r["fn"])), "%s uses %s (%s)" % (f.where(), what, strip(r["fn"])))
        for k in casts(f.blocks):
            ctx.violation("address:%s" % f.id, "%s turns an address into a number (%s)" % (f.where(), k))
        ctx.ok("effects", f.id)
    ctx.floor("function references", n, 2500)
    config(ctx, p, code, parsing)


def foreign(ctx, p, f, r):
    """a crate item without a body: a constructor, a trait method, or a foreign function"""
    n = r["fn"]
    if r.get("trait") or r.get("ctor") or any(n.startswith(a + "::") or n == a for a in p.adts):
        return
    if re.search(r"extern ", r.get("ty", "")):
        ctx.violation("effect:%s:%s" % (f.id, n), "%s calls the foreign function %s" % (f.where(), n))


def watch(p, f):
    """a function of the decompressor's own time accounting"""
    if not f.file.endswith("decompressors.rs"):
        return False
    return f.argc >= 1 and "Decompressor" in f.locals[1]["ty"] or any("Instant" in f.locals[i]["ty"] for i in range(0, f.argc + 1))


def casts(o):
    if isinstance(o, dict):
        k = o.get("ck")
        if isinstance(k, str) and "Expose" in k:
            yield k
        for v in o.values():
            if isinstance(v, (dict, list)):
                yield from casts(v)
    elif isinstance(o, list):
        for v in o:
            yield from casts(v)


def statics(ctx, p):
    for s in p.statics:
        if s["file"].endswith("src/test.rs"):
            continue
        w = "%s:%s static %s: %s" % (s["file"], s["line"], s["path"], s["ty"])
        t = s["ty"]
        m = LAZY.match(t)
        if m and s["mut"] is False:
            t = m.group(4)
        elif s["mut"] or not s["freeze"]:
            ctx.violation("static:" + s["path"], w + " can be modified")
            continue
        c = deep(p, t)
        if c:
            ctx.violation("static:" + s["path"], "%s holds a %s" % (w, c))
        else:
            ctx.ok("static", w)
    ctx.floor("statics", len(p.statics), 1)


CFG = ("config::Config", "config::DecoderConfig")


def config(ctx, p, code, parsing):
    for a in CFG:
        if a not in p.adts:
            ctx.violation("anchor:" + a, a + " is gone")
            return
        for v in p.adts[a]["variants"]:
            for f in v["fields"]:
                c = deep(p, f["ty"]) if not f["ty"].startswith("&'static") else None
                if c:
                    ctx.violation("config:%s.%s" % (a, f["name"]), "%s.%s holds a %s: it can change while the configuration is in use" % (a, f["name"], c))
                else:
                    ctx.ok("config", "%s.%s" % (a, f["name"]))
    tch = p.touches()
    n = 0
    for f in code:
        for r in named(f.blocks):
            if re.search(r"::(get_mut|make_mut|get_mut_unchecked|unwrap_unchecked)$", strip(r["fn"])) and \
                    re.search(r"\bRc\b", r["fn"]) and any("Config" in str(x) for x in r.get("args") or []):
                ctx.violation("config:%s" % f.id, "%s gets write access to a shared configuration (%s)" % (f.where(), strip(r["fn"])))
        if f.id in parsing:
            n += 1
            wr = [x for x in tch.get(f.id, ((), ()))[1] if x[0] in CFG]
            if wr and not own(f):
                ctx.violation("config:%s:%s" % (f.id, wr[0][1]), "%s writes %s.%s while parsing" % (f.where(), wr[0][0], wr[0][1]))
            else:
                ctx.ok("config", f.id)
    ctx.floor("parsing functions", n, 200)


def own(f):
    """a function that was given the configuration to change, or builds a fresh one"""
    return any(re.search(r"(&('\w+ )?mut |\*mut )(\w+::)*(Config|DecoderConfig)\b", f.locals[i]["ty"]) for i in range(1, f.argc + 1)) \
        or ty_base(f.locals[0]["ty"]) in CFG
