"""Elements of lines: numbers, protocol, status, method, white space, line ends."""
from absint import mk, INT, REF, SOME, NONE
import bset as B
from bset import ALL, lit, variations
from nom import BS

SPACE = b" \t\r\n\x0b\x0c"          # is_space
WS = b" \t\n\x0c\r"                 # is_ascii_whitespace
BLANK = b" \t"                      # nom's is_space
D = b"0123456789"
H = b"0123456789abcdefABCDEF"
SEPS = b"()<>@,;:\\\"/[]?={} \t"
TOKEN = frozenset(x for x in range(32, 127) if x not in SEPS)
RULE = "every path of the recogniser gives, for every byte value, what the specification gives"

METHODS = ["GET", "PUT", "POST", "DELETE", "CONNECT", "OPTIONS", "TRACE", "PATCH", "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK",
           "UNLOCK", "VERSION-CONTROL", "CHECKOUT", "UNCHECKOUT", "CHECKIN", "UPDATE", "LABEL", "REPORT", "MKWORKSPACE", "MKACTIVITY",
           "BASELINE-CONTROL", "MERGE", "INVALID", "HEAD"]


def free(n):
    return [[ALL] * k for k in range(n + 1)]


def inp(n):
    return [BS(0, n)]


# ---- oracles
def o_token(s):
    return int(s.isin(0, TOKEN))


def o_space(s):
    return int(s.isin(0, SPACE))


def o_chomp(s):
    e = s.n
    while e and s.isin(e - 1, b"\r\n"):
        e -= 1
    return s.span(0, e)


def o_trimmed(s):
    o, e = 0, s.n
    while o < e and s.isin(o, SPACE):
        o += 1
    while e > o and s.isin(e - 1, SPACE):
        e -= 1
    return s.span(o, e)


def taker(S):
    def f(s):
        i = s.whil(0, S)
        return ("Ok", ("t", s.span(i, s.n), s.span(0, i)))
    return f


def till(S, eol=False):
    def f(s):
        for i in range(s.n):
            if s.isin(i, S):
                return ("Ok", ("t", s.span(i + 1, s.n), s.span(0, i + 1)))
        return "Err"
    return f


def o_eol(s):
    for i in range(s.n):
        if not s.isin(i, b"\r\n"):
            continue
        cr = s.is_(i, 13)
        if i + 1 == s.n:
            return "Err"                      # what follows decides
        if cr:
            k, eol = (i + 2, "CRLF") if s.is_(i + 1, 10) else (i + 1, "CR")
        elif not s.is_(i + 1, 13):
            k, eol = i + 1, "LF"
        elif i + 2 == s.n:
            return "Err"
        else:
            k, eol = (i + 1, "LF") if s.is_(i + 2, 10) else (i + 2, "LFCR")
        return ("Ok", ("t", s.span(k, s.n), ("t", s.span(0, k), eol)))
    return "Err"


def o_asbody(s):
    i = s.whil(0, SPACE + b"\0")
    for c in b"http":
        if i >= s.n or not s.isin(i, bytes([c, c - 32])):
            return 1
        i += 1
    return 0


def o_ctl(s):
    return int(s.whil(0, SPACE) == s.n)


def o_clvalid(s):
    i = s.whil(0, SPACE)
    return int(i == s.n or s.isin(i, H))


def ascii_digits(s):
    i = s.whil(0, BLANK)
    j = i
    while j < s.n and not s.isin(j, D):
        j += 1
    if j == s.n:
        return None
    k = s.whil(j, D)
    m = s.whil(k, BLANK)
    return i, j, k, m


def o_clen(s):
    r = ascii_digits(s)
    if r is None:
        return "None"
    i, j, k, m = r
    if not s.below(j, k, 10, 1 << 64):
        return "None"
    return ("Some", s.num(j, k))


def o_chunk(s):
    i = s.whil(s.whil(0, SPACE), BLANK)
    k = s.whil(i, H)
    m = s.whil(k, BLANK)
    if i == k:
        return ("Ok", ("t", "None", 0)) if m == s.n else "Err"
    if not s.below(i, k, 16, 1 << 31):
        return ("Ok", ("t", "None", 0)) if s.below(i, k, 16, 1 << 64) else "Err"
    ext = any(s.is_(x, 0x3b) for x in range(m, s.n))
    return ("Ok", ("t", ("Some", s.num(i, k, 16)), int(ext)))


def o_status(s):
    r = ascii_digits(s)
    if r is None:
        return "INVALID"
    i, j, k, m = r
    if j > i or m < s.n or s.below(j, k, 10, 100) or not s.below(j, k, 10, 1000):
        return "INVALID"
    return ("VALID", s.num(j, k))


def o_port(s):
    if s.n == 0 or s.whil(0, D) < s.n or s.below(0, s.n, 10, 1) or not s.below(0, s.n, 10, 65536):
        return "None"
    return ("Some", s.num(0, s.n))


def o_protocol(s):
    i = s.whil(0, WS)
    for c in b"HTTP":
        if i >= s.n or not s.isin(i, bytes([c, c + 32])):
            return "INVALID"
        i += 1
    i = s.whil(i, WS)
    if i >= s.n or not s.is_(i, 0x2f):
        return "INVALID"
    i = s.whil(i + 1, WS + b"0")
    for word, v in ((b".9", "V0_9"), (b"1.0", "V1_0"), (b"1.1", "V1_1")):
        if i + len(word) <= s.n and all(s.is_(i + k, c) for k, c in enumerate(word)):
            return v if s.whil(i + len(word), WS) == s.n else "INVALID"
    return "INVALID"


def o_method(s):
    for m in METHODS:
        if len(m) == s.n and all(s.is_(i, c) for i, c in enumerate(m.encode())):
            return m.replace("-", "_")
    return "UNKNOWN"


def o_ctype(s):
    i = s.whil(0, WS)
    k = i
    while k < s.n and not s.isin(k, b";, "):
        k += 1
    if k == i:
        return "Err"
    return ("Ok", ("low",) + tuple(range(i, k)))


PERS = mk("sym", "pers")


def o_ignorable(s):
    if s.e.variant(PERS, "config::HtpServerPersonality") == "IIS_5_0" and s.whil(0, SPACE) == s.n:
        return 1
    if s.n == 1:
        return int(s.isin(0, b"\r\n"))
    return int(s.n == 2 and s.is_(0, 13) and s.is_(1, 10))


def longnum(digits, lens, tail=((),)):
    return [[frozenset(digits)] * n + list(t) for n in lens for t in tail]


def run(ctx):
    ctx.rule = RULE
    work = sorted(TABLE)
    ctx.each(one, work)
    ctx.floor("rows", ctx.counts.get("rows", 0), 2000)


PROTO = [b"HTTP/1.1", b"HTTP/0.9", b"HTTP/1.0", b"HTTP/.9"]
LOGGER = mk("sym", "logger")
TABLE = {
    # name: (file, scenarios, arguments, oracle)
    "is_token": ("util.rs", [[ALL]], lambda n: [B.byte(0)], o_token),
    "is_space": ("util.rs", [[ALL]], lambda n: [B.byte(0)], o_space),
    "chomp": ("util.rs", free(4), inp, o_chomp),
    "trimmed": ("util.rs", free(4), inp, o_trimmed),
    "take_is_space": ("util.rs", free(3), inp, taker(SPACE)),
    "nom_take_is_space": ("util.rs", free(3), inp, taker(BLANK)),
    "take_is_space_or_null": ("util.rs", free(3), inp, taker(SPACE + b"\0")),
    "take_not_is_space": ("util.rs", free(3), inp, taker(ALL - frozenset(SPACE))),
    "take_until_null": ("util.rs", free(3), inp, taker(ALL - frozenset((0,)))),
    "take_chunked_ctl_chars": ("util.rs", free(3), inp, taker(SPACE)),
    "take_till_lf": ("util.rs", free(4), inp, till(b"\n")),
    "take_till_lf_null": ("util.rs", free(4), inp, till(b"\n\0")),
    "take_till_eol": ("util.rs", free(5), inp, o_eol),
    "treat_response_line_as_body": ("util.rs", free(2) + variations([b"http", b"HTTP", b" hTtP", b"\0\nhttp/"]), inp, o_asbody),
    "is_chunked_ctl_line": ("util.rs", free(3), inp, o_ctl),
    "is_valid_chunked_length_data": ("util.rs", free(4), inp, o_clvalid),
    "is_line_ignorable": ("util.rs", free(3), lambda n: [PERS, BS(0, n)], o_ignorable),
    "parse_content_length": ("parsers.rs", free(4) + longnum(D, (19, 20, 21)), lambda n: [BS(0, n), NONE], o_clen),
    "parse_chunked_length": ("parsers.rs", free(4) + longnum(H, (7, 8, 9, 16, 17)), inp, o_chunk),
    "parse_status": ("parsers.rs", free(4) + longnum(D, (4, 5, 6)) + [lit(b" ") + [frozenset(D)] * 3 + [ALL, ALL]], inp, o_status),
    "convert_port": ("util.rs", free(3) + longnum(D, (4, 5, 6)) + [[ALL] + [frozenset(D)] * 4, [frozenset(D)] * 4 + [ALL]], inp, o_port),
    "parse_protocol": ("parsers.rs", free(2) + variations(PROTO, two=True), lambda n: [BS(0, n), REF(("o", "logger"))], o_protocol),
    "HtpMethod::new": ("request.rs", free(3) + variations([m.encode() for m in METHODS]), inp, o_method),
    "parse_content_type": ("parsers.rs", free(4), inp, o_ctype),
}


# the others are helpers; what they do also shows in these and in P21/P22
PRINCIPAL = ("is_token", "is_space", "parse_content_length", "parse_chunked_length", "parse_status", "convert_port", "parse_protocol",
             "HtpMethod::new", "parse_content_type", "is_line_ignorable", "treat_response_line_as_body", "take_till_lf", "take_till_eol",
             "is_chunked_ctl_line", "is_valid_chunked_length_data")


def one(ctx, name):
    p = ctx.prog
    file, scen, args, oracle = TABLE[name]
    if "::" in name:
        fs = [f for f in p.fns.values() if f.kind == "fn" and f.argc == 1 and f.locals[0]["ty"].split("::")[-1] == name.split("::")[0] and
              f.locals[1]["ty"].endswith("[u8]")]
    else:
        fs = [f for f in p.find(name) if f.kind == "fn" and f.file.endswith(file)]
    if len(fs) != 1:
        if name in PRINCIPAL:
            ctx.violation("anchor:" + name, name + " is gone")
        return
    B.decide(ctx, name, fs[0], scen, args, oracle, objtypes={"logger": "log::Logger"})
