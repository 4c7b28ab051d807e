"""Product spaces of operations per property.  They are too large for TLC to
judge case by case, so the compiled specification screens them (screen.py) and
TLC judges what it flags, plus a sample.  A space that fits the budget is
enumerated completely, a larger one is sampled uniformly."""
import gen as G
import plans as Q
from plans import (CL_PARSE, CL_SET, CL_UP, CL_VALID, CL_ALL, SET_BASES, SET_VALUES, RELS, bobj, eq, pat, psl, hist,
                   host, hval, new, org, ovr, parse, pop, setev)
from rec import cps


class Space:
    cap = None      # cases per worker (of a quick run), for expensive ones

    def __init__(self, weight, build, *axes):
        self.w, self.build, self.axes = weight, build, [list(a) for a in axes]
        self.size = 1
        for a in self.axes:
            self.size *= len(a)

    def at(self, i):
        xs = []
        for a in self.axes:
            i, k = divmod(i, len(a))
            xs.append(a[k])
        return self.build(*xs)


def strings(tokens, n):
    """All concatenations of at most n tokens, as n axes."""
    return [[""] + list(tokens)] * n


# ------------------------------------------------------------------ URL texts
SCH = ["http:", "https:", "ws:", "wss:", "ftp:", "file:", "foo:", "HTTP:", "blob:", "data:", "File:", "x-y.z+1:"]
SLS = ["//", "//", "//", "//", "/", "", "///", "\\\\", "/\\", "////"]
USR = ["", "", "", "u@", "u:p@", ":p@", "@", ":@", "u:@", "a@b@", "\u00e9:'@", "u:p:q@", "%41:%zz@", ";=@", "a:b@c:d@"]
HST = ["h", "h", "H.x", "", "1.2", "[::1]", "localhost", "LocalHost", "C:", "C|", "%41", "a.b.", "\u00e9", "256.1", "x y",
       "0x7f.1", "xn--zca", "0", "[1::F]", "a..b", "a%2fb", "127.0.0.1", "0.0.0.0", "[::", "a_b", "\u00ad", "%", "h%00",
       "1.2.3.4.", "c"]
PRT = ["", "", "", ":", ":80", ":443", ":21", ":0", ":8", ":65535", ":65536", ":8x", ":080", ":00", ":9:", ":99999"]
PTH = ["", "/", "//", "/a", "/a/b", "/a/..", "/..", "/.", "//a", "/C|", "/C:/..", "/C|/../x", "\\a", "/%2e%2E/", "/a b",
       "/a;p", "/\u00e9", ".", "..", "a", "a/b", "/a//b", "/./C|/", "/../C:/", "/a/../..//x", "/a\\b", "/%", "/~'\"",
       "/.//p", "/c:\\..\\..", "a ", "a  ", " ", "/;", "/a/./", "/a/%2e", "/a/.%2E/..", "/..a", "/...", "/C|x", "C|/..",
       "/C%7C/..", "/a/c:/../..", "/?", "/|", "/[", "/^`{}"]
QRY = ["", "", "", "?", "?q", "?a=b&c", "?'\"<>", "?\u00e9 ", "??", "?%zz", "?;", "? "]
FRG = ["", "", "", "#", "#f", "#`\u00e9 ", "##", "#?", "#\x00", "#a=b"]
URL_AXES = [SCH, SLS, USR, HST, PRT, PTH, QRY, FRG]
TOK = ["/", "\\", ":", "@", "?", "#", ".", "..", "a", "%2e", "C|", "[", "]", "8", " ", "\t", "c:", "\u00e9", "//", "%"]
PRE = ["http:", "foo:", "file:", "ws://", "foo://", "http://h/", "file:///", "https://u", "foo:/", "http://h:"]


def join(*xs):
    return "".join(xs)


def url_spaces(cl, w=1, enc=None):
    return [Space(2 * w, lambda *x: parse(join(*x), None, cl), *URL_AXES),
            Space(2 * w, lambda p, *x: parse(p + join(*x), None, cl), PRE, *strings(TOK, 4)),
            Space(w, lambda p, *x: parse(p + join(*x), None, cl), PRE, *strings(TOK, 6))]


# A base for every shape of record.
BSC = ["http:", "file:", "foo:", "ws:", "http:", "file:", "foo:", "https:", "wss:", "ftp:"]
BAU = ["//h", "//u:p@h:8", "//:p@h", "//h:0", "//", "", "//u@h:80", "//[::1]", "//1.2", "//localhost"]
BPA = ["", "/", "/a/b", "/C|/x", "/C:", "/c:/x", "//x", "/.//p", "x", "x ", "/a/", "/a//", "/C|", "/a/C|/b", "/;", "/.."]
BQU = ["", "?", "?q", "?a=1&b"]
BFR = ["", "#", "#f"]
REL = RELS + ["x?y#z", "/x/../C|/y", "..//x", ".//x", "/.//x", "//x/..", "//C|/y", "/C|/..", "C|/..", "../C|/y", "\\C|",
              "?q ", "#f ", "file:///C|", "file:C|/x", "file:\\x", "http:\\x", "http:?q", "http:#f", "http:..", "foo:..",
              "foo:?q", "ws:", "ws:x", "file:\\\\x\\y", "//localhost/x", "//127.1", "///localhost", "x@y", "x:y", "1:2",
              "/x;y", "..\\x", ".\\..", "/\\C:", "\\/", "file:/..", "file:.", "file:/C:/..", "file:///..", "%2E%2e/..",
              "C", "C:x", "C|\\x", "\tC|", "/\n/x", "C|%", "c%7C", " ?q", "", ""]


def base_texts():
    return [BSC, BAU, BPA, BQU, BFR]


def sets(*attrs):
    return [(a, v) for a in (attrs or SET_VALUES) for v in SET_VALUES[a]]


MORPH = [(a, v) for a, v in sets("protocol", "hostname", "host", "pathname", "port", "search", "hash", "username")]
# Changes that turn a record into one no parse yields directly.
TWIST = [("protocol", "file"), ("protocol", "http"), ("protocol", "https"), ("protocol", "ws"), ("protocol", "foo"),
         ("hostname", ""), ("host", ""), ("hostname", "localhost"), ("hostname", "C|"), ("pathname", ""),
         ("pathname", "//x"), ("pathname", "C|/x"), ("pathname", "/C|"), ("search", ""), ("hash", ""), ("port", ""),
         ("port", "0"), ("port", "443"), ("username", ""), ("password", ""), ("username", "u"), ("password", "p"),
         ("search", "?"), ("hash", "#"), ("host", "x:80"), ("host", "x:443"), ("host", "x:0"), ("pathname", "/.//p"),
         ("pathname", "/.."), ("hash", "z"), ("search", "y=1")]


def set_spaces(cl, w=1):
    def one(a, b, c, d, e, s):
        return hist([new(join(a, b, c, d, e)), setev(1, *s)], cl)

    def two(a, b, c, d, e, s, t):
        return hist([new(join(a, b, c, d, e)), setev(1, *s), setev(1, *t)], cl)
    return [Space(3 * w, one, *base_texts(), sets()),
            Space(2 * w, two, *base_texts(), TWIST, sets()),
            Space(w, lambda b, s, t, u: hist([new(b), setev(1, *s), setev(1, *t), setev(1, *u)], cl),
                  SET_BASES, TWIST, TWIST, sets())]


PMUT = [pop("append", "a", "1"), pop("append", "", ""), pop("append", "a", ""), pop("append", "\u00e9 &=+%", "~'()*!\ud800"),
        pop("delete", "a"), pop("delete", "a", "1"), pop("delete", "a", ""), pop("delete", "b"), pop("delete", "b", "2"),
        pop("delete", ""), pop("delete", "", ""), pop("set", "a", "9"), pop("set", "a", ""), pop("set", "z", "%41"),
        pop("set", "", "x"), pop("set", "b", "a"), pop("sort"), pop("append", "n", "1", True), pop("append", "\U0001f308", "x"),
        pop("append", "\ufffd", "y"), pop("delete", "z"), pop("set", "\ud83c\udf08", "q"), pop("delete", "a", "1", True),
        pop("append", "b", "1"), pop("set", "b", "2", True), pop("append", "A", "1")]
PQRY = [pop("get", "a"), pop("get", ""), pop("get", "z"), pop("get_all", "a"), pop("get_all", "z"), pop("has", "a"),
        pop("has", "a", "1"), pop("has", "a", ""), pop("has", ""), pop("has", "b", "1", True), pop("in", "a"), pop("in", ""),
        pop("len"), pop("str"), pop("add", "&x"), pop("add", ""), pop("keys"), pop("values"), pop("has", "z"),
        pop("has", "a", "9"), pop("get", "b"), pat(0), pat(-1), pat(1), pat(2), pat(-3), psl([1], []), psl([], [-1]), psl([], [], -1),
        psl([-2], [9], 2), psl([2], [], -2), psl([0], [2])]
QTXT = ["", "?", "?a=1", "?a", "?b=2&a=1&b=1", "?a=&a=1&a=2", "?=", "?&&", "?%zz", "?a=%26+%C3%A9", "?z&y&x", "?%F0%9F%8C%88=1&%EF%BF%BD=2",
        "??a=1", "?a=1&a=1", "?+=%2B", "?'", "?a=1=2", "?\u00e9", "?a=1&&b", "?A=1&a=1"]
QBASE = ["http://h/", "foo:x", "foo:x ", "foo:x  ", "file:///C:/", "foo:/.//p", "foo://h", "https://u:p@h:1/a", "data: "]


def par_cases():
    def mk(b, q, f, m1, m2, x):
        ev = [new(b + q + f), m1(1), m2(1), x(1)]
        return hist(ev, ["raises", "href", "list", "ret", "g"])
    muts = [lambda i, m=m, h=h: {"op": "upar", "i": i, "p": m, "h": h} for m in PMUT for h in (True, False)]
    sts = [lambda i, s=s: setev(i, *s) for s in sets("search", "hash", "pathname") + TWIST + [
        ("href", "http://x/?z=1"), ("href", "x"), ("href", "foo:o  ?k"), ("href", "http://x/"), ("href", "foo:o  "),
        ("href", "foo:o  #f"), ("href", "http://h/?b=2&a=1&b=1")]]
    qs = [lambda i, m=m, h=h: {"op": "uqry", "i": i, "p": m, "h": h} for m in PQRY for h in (True, False)]
    return mk, muts, sts, qs


INITS = ([{"k": "none"}] + [{"k": "str", "s": cps(s)} for s in QTXT + ["a=1&b", "&", "a;b", "#a", "a%", "%41=1"]]
         + [{"k": "pairs", "ps": [[cps(a), cps(b)] for a, b in ps], "t": t} for t in (0, 1, 2) for ps in (
             [], [("a", "1")], [("a", "1"), ("b", "2"), ("a", "2")], [("", "")], [("b", "1"), ("a", "1"), ("b", "")],
             [("\ufffd", "1"), ("\U0001f308", "2"), ("\ue000", "3")], [("a", "1"), ("a", "1"), ("a", "2")],
             [("\ud800", "\udc00"), ("%41", "+")], [("c", ""), ("a", "0"), ("b", ""), ("a", "")])]
         + [{"k": "map", "ps": [[cps(a), cps(b)] for a, b in ps]} for ps in (
             [("b", "1"), ("a", "%41+")], [("", "x")], [("\ud800", "2"), ("a b", "=&")])])


def par_history(x, *ops):
    ev = [{"op": "npar", "x": x}]
    for o in ops:
        ev.append({"op": "par" if o["op"] in ("append", "delete", "set", "sort") else "pqry", "i": 1, "p": o})
    return hist(ev, ["raises", "ret", "pars"])


# ------------------------------------------------------------------ hosts
V4T = ["0", "1", "9", "255", "256", "65535", "65536", "16777215", "16777216", "4294967295", "4294967296", "0x", "0X", "0xff",
       "0x100", "0377", "0400", "08", "00", "a", "", "0xg", "+1", "1_0", "\uff11", "%31", "0xffffff", "0x1000000", "010", "-1",
       "0xFFFFFFFF", "99999999999", "0x0000000000f", "1e1", " 1", "x1", "0x0.", "1000", "300", "0b1", "0o7", "00000000377"]
V6T = [":", "::", "1", "0", "f", "ffff", "1.2.3.4", "00000", "g", "0:", ":0", "1:", ":1", "2:2:2:", ":3:3", "255.", "1.2", ".",
       "01.1.1.1", "abcd:EF01:", "0:0:0", "256.1.1.1", "%", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6", "1:2:3:4:5:6:7"]
DOMT = ["a", "b", ".", "-", "xn--", "A", "0", "1", "%41", "%2e", "%", "\u00e9", "\u00df", "\u3002", "\uff0e", "\u00ad", "_",
        "\u05d0", "x", "9ca", "zca", "0x", "\u65e5", " ", "<", "|", "^", "@", ":", "\x7f", "\x00", "%00", "%ff", "\ud800",
        "\U0001f308", "\uff21", "\u2100", "\u200d", "~", "!", "'", "%C3%A9", "[", "]", "/", "\\", "?", "#", "\t", "localhost"]
IDNT = ["a", "b", "xn--", ".", "-", "--", "\u00e9", "\u00df", "\u1e9e", "\u05d0", "\u0627", "1", "\u0661", "\u200c", "\u200d", "\u094d",
        "\u0915", "\u0301", "\u3002", "\u00ad", "\U0001f308", "\u2615", "\uff21", "\u212a", "\ufb01", "\u0130", "\u0131", "\u03c2", "\u03c3",
        "\ufffd", "\u0378", "\ue000", "\ufdd0", "9ca", "zca", "mnchen-3ya", "A", "_", " ", "%", "\x7f", "x" * 20, "\u65e5", "\u30fb",
        "\u0660", "\u06f0", "\u00b7", "l\u00b7l", "\u2488", "\u33c2", "\u2024", "\ud800", "\u2260", "\u226e", "<", "=", ">", "\u0338"]


def v6text(*x):
    return host("[" + join(*x) + "]", True, ["idem", "cls", "errs"])


PIECES = ["0", "0", "1", "ffff", "10", "a0"]


# ------------------------------------------------------------------ codecs
CHARS = ([chr(c) for c in range(0, 0x180)] + ["\u0800", "\ud7ff", "\ud800", "\udbff", "\udc00", "\udfff", "\ue000", "\ufdcf",
                                              "\ufdd0", "\ufdef", "\ufdf0", "\ufffd", "\ufffe", "\uffff", "\U00010000",
                                              "\U0001fffe", "\U0010fffd", "\U0010ffff", "\U0001f308", "\ud83c\udf08",
                                              "\udf08\ud83c", "%", "%4", "%41", "%zz", "\ufeff", "\u2028", "\u3000"])
FORMS = Q.BLOCK_FORMS + ["http://h/a/%s/b", "ws://h/?%s", "blob:%s", "foo:/a/%s", "file://h/%s", "http://h/%s?%s#%s",
                         "foo:a%sb?%s", "foo://u%s:p%s@h", "http://u@%s@h/", "foo://h#%s", "file:///C|/%s", "https://h/?a=%s&%s=b",
                         "%shttp://h/", "http://h/%s", "ht%stp://h", "http:/%s/h", "http://h:8%s/"]
SAFES = ["", "/", "~", "!*'()", "%", "/?", "&=", ";/?:@&=+$,", "!'()*~", " ", "+", "a", "%/", "'", "\"<>", "-._~"]
FTOK = ["a", "b", "&", "=", "+", "%41", "%", "%4", "%zz", "%C3%A9", "\xc3\xa9", "%FF", "\xff", ";", "?", "#", " ", "%26", "%3D",
        "%2B", "\xf0\x9f\x8c\x88", "%00", "&&", "=="]
U8T = [0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5, 0xff, 0x9f, 0xa0, 0x8f, 0x90, 0xbb]

ORG = [sc + "://" + us + h + p for sc in ("http", "https", "ws", "wss", "ftp", "file", "foo", "HTTP") for us in ("", "u:p@")
       for h in ("h", "H", "i", "1.2.3.4", "[::1]", "h.") for p in ("", ":80", ":443", ":21", ":0", ":1")] + [
    "data:x", "about:blank", "file:///x", "foo:x", "foo:/x", "http://\u00e9", "http://xn--9ca"]
ORG2 = ORG + ["blob:" + u for u in ORG] + ["blob:blob:" + u for u in ORG[::7]] + [
    "blob:", "blob:x", "blob:/x", "blob://h/http://h/", "blob: http://h", "blob:http://h:80/x?y#z", "blob:https:h",
    "blob:http:/h", "blob:http:h", "BLOB:http://h", "blob:HTTP://H:80", "blob:http://h:443", "blob:http://", "blob:http://h#f"]


ENC_RECS = ["http://h/", "https://h/?\u00e9", "file:///x", "file:///C:/?q#f", "ftp://h/p", "foo://h/", "foo:/x?q", "ws://h/", "wss://h/?q",
            "http://h/?q#f", "foo:x", "http://u:p@h:8/a/b?\u65e5#\u00e9"]


def enc_spaces(w=2):
    def mk(sc, e, p, *ts):
        enc, py = e
        t = join(*[x if x is not None else "" for x in ts])
        return parse(sc + p + "?" + t, None, ["rec", "href", "up"], enc, py)
    out = []
    for e in Q.QENCS:
        chars = list(Q.LEGACY[e[0]])[:24] + ["\u65e5", "\U0001f308", "'", "\"", "<", "#", " ", "%", "&", "a", "~", "\ud800",
                                             "\x7f", "\x01", "&#1;", ">", "\\", "^", "`", "{", "|"]
        out.append(Space(w, lambda sc, p, a, b, c, e=e: mk(sc, e, p, a, b, c),
                         ["http://h/", "https://h/", "file:///", "ftp://h/", "foo://h/", "foo:x", "ws://h/", "wss://h/",
                          "HTTPS://h/"], ["", "\u00e9"], chars, chars, [""] + chars))
        # onto an existing record, and against a base
        out.append(Space(w / 2, lambda b, st, a, x, e=e: ovr(a + x, Q.prep(Q.mkrec(b), st), st, *e), ENC_RECS,
                         ["query", "query", "fragment", "path start"], chars, [""] + chars))
        out.append(Space(w / 2, lambda b, r, a, x, e=e: parse(r.replace("%s", a + x), b, ["rec", "href", "up"], *e), ENC_RECS,
                         ["?%s", "x?%s", "?%s#%s", "#%s", "%s", "//h/?%s", "http:?%s", "file:?%s", "ws:?%s", "/%s?%s"], chars,
                         [""] + chars))
    return out


# ------------------------------------------------------------------ records
def rec_axes():
    S = lambda s: {"k": "str", "v": cps(s)}  # noqa: E731
    hosts = [{"k": "none", "v": []}, S(""), S("h"), {"k": "v4", "v": [256, 1]}, {"k": "v6", "v": [0] * 7 + [1]}, S("localhost")]
    return [[cps(s) for s in ("http", "https", "ws", "ftp", "file", "foo")], [("", ""), ("u", ""), ("", "p"), ("u", "p")],
            hosts, [-1, 0, 80, 443, 8, 21], [[], [[]], ["a"], ["a", "b"], ["C:"], ["C|"], ["", "x"], ["c:", "x"]],
            [[], [[]], [cps("q")]], [[], [[]], [cps("f")]]]


def rec_ok(r):
    """A record a parse or a setter can leave (Wf in the specification)."""
    sc = "".join(map(chr, r["scheme"]))
    special = sc in ("http", "https", "ws", "wss", "ftp", "file")
    default = {"http": 80, "https": 443, "ws": 80, "wss": 443, "ftp": 21}
    nohost = r["host"]["k"] == "none" or r["host"]["v"] == []
    if nohost and (r["user"] or r["pass"] or r["port"] != -1):
        return False
    if sc == "file" and (r["user"] or r["pass"] or r["port"] != -1 or r["host"] == {"k": "str", "v": cps("localhost")}):
        return False
    if special and r["host"]["k"] == "none":
        return False
    if special and sc != "file" and nohost:
        return False
    if special and not r["path"]:
        return False
    if default.get(sc) == r["port"]:
        return False
    if not special and r["host"]["k"] == "v4":
        return False
    return True


def mk_rec(sc, up, h, port, path, q, f):
    return {"scheme": sc, "user": cps(up[0]), "pass": cps(up[1]), "host": dict(h), "port": port, "opq": False,
            "path": [cps(x) if isinstance(x, str) else x for x in path], "query": q, "frag": f}


def mk_rq(*x):
    return Q.rq(mk_rec(*x))


def mk_rq2(*x):
    """A record and one that differs from it in a component or two."""
    a, k, b = list(x[:6]) + [[]], x[6], list(x[7:]) + [[[]]]
    c = list(a)
    c[k] = b[k]
    return Q.rq(mk_rec(*a), mk_rec(*c))


def mk_opq(sc, p, q, f):
    return Q.rq(dict(mk_rec(sc, ("", ""), {"k": "none", "v": []}, -1, [], q, f), opq=True, path=[cps(p)]))


def relabel(c, cl):
    return c and dict(c, cl=cl)


def vs_pool():
    out = []
    for f in (Q.c14_seeds, Q.c15_seeds, Q.c08_seeds, Q.c09_seeds, Q.c10_seeds, Q.c20_seeds):
        cs = [e for c in f("quick") for e in Q.vs_of(c)]
        out += cs[::max(1, len(cs) // 160)]
    return out


def mk_ovr(sc, up, h, port, path, q, f, st, v, colon):
    r = {"scheme": sc, "user": cps(up[0]), "pass": cps(up[1]), "host": dict(h), "port": port, "opq": False,
         "path": [cps(x) if isinstance(x, str) else x for x in path], "query": q, "frag": f}
    if not rec_ok(r):
        return None
    vals = Q.ovr_values(st)
    s = vals[v % len(vals)]
    if st == "scheme start" and colon:
        s += ":"
    return ovr(s, Q.prep(r, st), st)


# Names and values that recur: what is set is already there.
REUSE = ["a", "!", "a b", "'", "~", "\u00e9", "%41", "+", "1", "", "&", "\ud800", "%2B", "A"]


def reuse_text(n1, v1, j, n2, v2):
    return "?" + n1 + "=" + v1 + j + (n2 + "=" + v2 if j == "&" else "")


def reuse(b, f, t, kind, n, v, h, x):
    p = pop(kind, n, v or "" if kind in ("append", "set") else v)
    ev = [new(b + reuse_text(*t) + f), {"op": "upar" if kind in ("append", "set", "delete") else "uqry", "i": 1, "p": p, "h": h}]
    if x is not None:
        ev.append({"op": "upar", "i": 1, "p": dict(x), "h": not h})
    return hist(ev, ["raises", "href", "list", "ret", "g"])


def reuse_list(t, kind, n, v, x):
    p = pop(kind, n, v or "" if kind in ("append", "set") else v)
    ev = [{"op": "npar", "x": {"k": "str", "s": cps(reuse_text(*t))}},
          {"op": "par" if kind in ("append", "set", "delete") else "pqry", "i": 1, "p": p}]
    if x is not None:
        ev.append({"op": "par", "i": 1, "p": dict(x)})
    return hist(ev, ["raises", "ret", "pars"])


RTEXT = [(a, b, j, c, d) for a in REUSE for b in REUSE for j, c, d in [
    ("", "", ""), ("&", "a", "1"), ("&", "!", "~"), ("&", "", "")]] + [(a, b, "&", a, d) for a in REUSE for b in REUSE[:6]
                                                                         for d in REUSE[:6]]


# A value is taken from the object itself, or from another one.
def own(b, s, j, a, f, k):
    ev = [new(b)]
    if s:
        ev.append(setev(1, *s))
    if j == 2:
        ev.append(new("http://u:p@h:8/a/b?x=1#f"))
    ev.append(dict(setev(1, a, ""), vf=[j, f if k else a]))
    return hist(ev, CL_ALL)


def own_spaces(w=1):
    return [Space(w, own, SET_BASES, [None] + TWIST, [1, 1, 2], list(SET_VALUES), Q.COMPS, [0, 1])]


# Records, below the URL class.
def raw_ops(i):
    out = [{"op": "shorten", "i": i}, {"op": "attach", "i": i}]
    for st, vs in (("path start", ["/z", "..", "C|/x", ""]), ("query", ["k=1", ""]), ("fragment", ["g", ""]),
                   ("host", ["k:9", ""]), ("hostname", ["", "n"]), ("port", ["", "7"]), ("scheme start", ["https:", "foo:", "file:"]),
                   ("authority", ["v:w@n:7", "v@"])):
        out += [Q.rovr(i, st, v, p) for v in vs for p in (True, False)]
    return out


def raw_graph(b, r, same, o1, o2):
    ev = [new(b, None, True), new(b if same else r, None if same else bobj(1), True), dict(o1), dict(o2)]
    if same:
        ev.append(new(b, None, True))
    return hist(ev, CL_ALL)


RAW_BASES = ["http://u:p@h:8/a/b?x=1#f", "file:///C:/a/b?x=1", "file:///C:", "foo://h/a/b?x=1", "foo:/a/b?x=1", "foo:x?x=1",
             "http://h", "foo://h", "foo:x  ?x", "foo:/.//p", "foo:/C:/x", "http://h/C:", "file:///c|/", "http://h/C|"]


def obj_graph(b, r, o1, w1, o2, w2):
    e1, e2 = dict(o1), dict(o2)
    e1["i"], e2["i"] = w1, w2
    return hist([new(b), new(r, bobj(1)), {"op": "npar", "x": {"k": "upar", "i": 1}}, e1, e2], CL_ALL)


def spaces(pid):
    mkp, muts, sts, qs = par_cases()
    R = ["rt"]
    if pid == "C01":
        return url_spaces(CL_PARSE)
    if pid == "C02":
        cl = ["raises", "href", "g", "list"]
        return [Space(3, lambda a, b, c, d, e, r: parse(r, join(a, b, c, d, e), CL_PARSE), *base_texts(), REL),
                Space(2, lambda a, b, c, d, e, s, r: hist([new(join(a, b, c, d, e)), setev(1, *s), new(r, bobj(1))], cl),
                      *base_texts(), TWIST, REL),
                Space(1, lambda b, s, t, r: hist([new(b), setev(1, *s), setev(1, *t), new(r, bobj(1))], cl),
                      SET_BASES + ["http://h/C|/x", "http://h/C|", "ws://h/a/C:/b", "http://localhost/C|/", "foo://h/C|/x"],
                      TWIST, TWIST, REL),
                Space(2, lambda b, *x: parse(join(*x), b, CL_PARSE), G.BASES[:31], *strings(TOK, 4)),
                Space(1, lambda b, r1, r2: hist([new(b), new(r1, bobj(1)), new(r2, bobj(2))], cl), SET_BASES, REL, REL)]
    if pid == "C03":
        return url_spaces(R) + set_spaces(R) + [
            Space(2, lambda a, b, c, d, e, r: parse(r, join(a, b, c, d, e), R), *base_texts(), REL)]
    if pid == "C04":
        return set_spaces(CL_SET, 2) + own_spaces()
    if pid == "C05":
        return [Space(2, mkp, QBASE, QTXT, ["", "#f", "#"], muts, muts, muts),
                Space(2, mkp, QBASE, QTXT, ["", "#f", "#"], muts, sts, muts),
                Space(2, mkp, QBASE, QTXT, ["", "#f", "#"], sts, muts, qs),
                Space(1, mkp, QBASE, QTXT, ["", "#f", "#"], sts, sts, muts),
                Space(2, reuse, ["http://h/", "foo:x "], ["", "#f"], RTEXT, ["append", "set", "delete", "has"],
                      REUSE, [None] + REUSE, [True, False], [None] + PMUT[4:17:3]),
                Space(1, own, SET_BASES + ["http://h/" + q for q in QTXT], [None] + TWIST, [1, 1, 2], ["search", "href", "hash"],
                      ["search", "href", "hash"], [0, 1])]
    if pid == "C06":
        return [Space(2, par_history, INITS, PMUT, PMUT, PQRY + PMUT), Space(1, par_history, INITS, PMUT, PMUT, PMUT, PQRY),
                Space(1, par_history, INITS, PQRY, PQRY),
                Space(2, reuse_list, RTEXT, ["append", "set", "delete", "has", "in", "get", "get_all"], REUSE, [None] + REUSE,
                      [None] + PMUT[4:17:3])]
    if pid == "C07":
        return [Space(2, lambda *x: {"k": "fdec", "b": [ord(c) for c in join(*x)], "env": [], "cl": []}, *strings(FTOK, 5)),
                Space(1, lambda a, b, c: {"k": "frt", "ps": [[cps(a), cps(b)], [cps(c), []]], "env": [], "cl": []},
                      CHARS, CHARS, [x for x in CHARS[::9]]),
                Space(1, lambda e, a, b: dict({"k": "fenc", "ps": [[cps(a), cps("x" + b)]], "enc": e[0], "env": [], "cl": []},
                                              **({"pyenc": e[1]} if e[1] else {})),
                      Q.ENCS, CHARS[:128] + ["\u65e5", "\U0001f308"], CHARS[:128:3] + ["\U0001f308"])]
    if pid == "C08":
        return [Space(2, lambda ns, *x: host(join(*x), ns, ["idem"]), [True, False], *strings(DOMT, 4)),
                Space(1, lambda sc, u, t, *x: parse(sc + u + join(*x) + t, None, ["rec", "href"]),
                      ["http://", "foo://", "file://", "ws://"], ["", "u@"], ["", ":8", "/", "?", ":8/x"], *strings(DOMT, 3))]
    if pid == "C09":
        return [Space(3, lambda t, *x: host(".".join(x) + t, False, ["idem", "cls"]), ["", ".", ".."], V4T, V4T),
                Space(2, lambda t, *x: host(".".join(x) + t, False, ["idem", "cls"]), ["", "."], V4T, V4T, V4T),
                Space(2, lambda t, *x: host(".".join(x) + t, False, ["idem", "cls"]), ["", "."], V4T, V4T, V4T, V4T),
                Space(1, lambda *x: host(".".join(x), False, ["idem", "cls"]), V4T, V4T, V4T, V4T, V4T),
                Space(2, lambda *x: host(join(*x), False, ["idem", "cls"]), *strings("0129.xXafF8-", 6)),
                Space(1, lambda a, b: {"k": "v4ser", "v": [a, b], "env": [], "cl": []},
                      list(range(0, 65536, 251)) + [255, 256, 65535], list(range(0, 65536, 257)) + [255, 256, 65535])]
    if pid == "C10":
        return [Space(2, v6text, *strings(V6T, 4)), Space(2, v6text, *strings([":", "::", "0", "1", "f", ".", "2"], 8)),
                Space(1, lambda *v: {"k": "v6ser", "v": [int(x, 16) for x in v], "env": [], "cl": []}, *([PIECES] * 8)),
                Space(1, lambda k, n, t, *x: v6text(":".join(x[:k]) + "::" + ":".join(list(x[k:n]) + ([t] if t else []))),
                      range(0, 8), range(0, 8), ["", "1.2.3.4", "255.255.255.255", "0.0.0.0"], *([PIECES] * 7)),
                Space(1, lambda t, *x: v6text(":".join(list(x) + ([t] if t else []))),
                      ["", "1.2.3.4", "9.9", "::", ":"], *([PIECES] * 6)),
                Space(1, lambda p, *x: v6text(p + ".".join(x)), ["::", "1:2:3:4:5:6:", "::1:", "1::", "1:2:3:4:5:6:7:"],
                      *([["0", "1", "00", "01", "10", "100", "255", "256", "260", "", "1000", "a", "99"]] * 4))]
    if pid == "C11":
        return [Space(2, lambda st, *x: {"k": "idna", "d": cps(join(*x)), "strict": st, "env": [], "cl": []},
                      [True, False], *strings(IDNT, 3)),
                Space(1, lambda st, *x: {"k": "idna", "d": cps(join(*x)), "strict": st, "env": [], "cl": []},
                      [True, False], *strings(IDNT, 5)),
                Space(1, lambda a, c, b: host(a + chr(c) + b, False, ["idem"]), ["", "a", "\u05d0", "xn--"],
                      [c for c in range(0x80, 0x30000, 3) if not 0xD800 <= c < 0xE000], ["", "b", ".com"])]
    if pid == "C12":
        attrs = ["username", "password", "pathname", "search", "hash"]
        return [Space(2, lambda f, a, b: parse(f.replace("%s", "x" + a + b), None, ["rec", "href"]), FORMS, CHARS, CHARS[::7]),
                Space(2, lambda b, at, x, y: hist([new(b), setev(1, at, x + "y" + y)], ["href", "g"]),
                      ["http://h/", "foo://h/", "foo:x", "file:///", "ws://u:p@h/", "foo:/x", "https://h/", "ftp://h/", "wss://h/", "foo:///x"], attrs, CHARS, CHARS[::11]),
                Space(1, lambda a, s, p, u: Q.pct("a" + a + " b", s, p, u8=u), CHARS, SAFES, [True, False], [True, False]),
                Space(1, lambda *x: {"k": "dec", "s": cps(join(*x)), "env": [], "cl": []},
                      *strings(["%", "4", "f", "G", "%41", "\u00e9", "%e9", "\ud800", "+", " "], 5)),
                Space(1, lambda *x: {"k": "u8d", "b": [i for i in x if i >= 0], "env": [], "cl": []}, *([[-1] + U8T] * 4))]
    if pid == "C13":
        doms = [None, None, "d", "D", "x", "h"]
        return [Space(2, org, ORG2, ORG2, doms, doms),
                Space(1, lambda *x: parse("blob:" + join(*x), None, ["origin", "g"]), *URL_AXES),
                Space(1, lambda *x: parse(join(*x), None, ["origin", "g"]), *URL_AXES),
                Space(1, lambda b, s, t: hist([new(b), setev(1, *s), setev(1, *t)], ["g"]),
                      ORG2[::5] + SET_BASES, TWIST, TWIST)]
    if pid == "C14":
        return url_spaces(CL_VALID) + [
            Space(1, lambda a, b, c, d, e, r: parse(r, join(a, b, c, d, e), CL_VALID), *base_texts(), REL),
            Space(1, lambda f, a, b: parse(f.replace("%s", a + b), None, CL_VALID), FORMS, CHARS, CHARS[::7])]
    if pid == "C15":
        return [Space(1, lambda *x: hval("v4", ".".join(x)), *([["0", "1", "9", "00", "01", "10", "99", "100", "255", "256",
                                                                "260", "300", "", "a", "0x1", "1000", "\u0661", "+1", " 1"]] * 4)),
                Space(1, lambda *x: hval("v4", join(*x)), *strings("012569.x", 6)),
                Space(2, lambda fn, *x: hval(fn, join(*x)), ["domain", "opaque", "host"], *strings(DOMT, 3)),
                Space(1, lambda fn, st, *x: hval(fn, "[" + join(*x) + "]" if fn != "v6" else join(*x)),
                      ["v6", "host", "opaque"], [0], *strings(V6T, 4)),
                Space(1, lambda fn, *x: hval(fn, join(*x)), ["domain", "host"], *strings(IDNT, 3)),
                Space(1, lambda *x: hval("scheme", join(*x)), *strings(["http", "a", "A", "+", "-", ".", "1", ":", "s", " ",
                                                                       "\u212a", "skype", "_", "x"], 4))]
    if pid == "C16":
        ops = [setev(0, *s) for s in TWIST] + [{"op": "upar", "i": 0, "p": m, "h": h} for m in PMUT[:17] for h in (True, False)]
        ops += [{"op": "par", "i": 0, "p": m} for m in PMUT[:17]]
        bases = ["http://u:p@h:8/a/b?x=1#f", "file:///C:/a/b?x=1", "foo://h/a/b?x=1", "foo:/a/b?x=1", "foo:x?x=1", "http://h",
                 "file:///C:", "foo://h", "foo:x  ?x", "foo:/.//p"]
        return [Space(2, raw_graph, RAW_BASES, REL, [True, False, False], raw_ops(1) + raw_ops(2), raw_ops(1) + raw_ops(2)),
                Space(1, own, SET_BASES, [None] + TWIST, [1, 1, 2], list(SET_VALUES), Q.COMPS, [0, 1]),
                Space(2, obj_graph, bases, REL, ops, [1, 2], ops, [1, 2]),
                Space(1, lambda b, r1, r2, o, w: hist([new(b), new(r1, bobj(1)), new(r2, bobj(2)), dict(o, i=w)], CL_ALL),
                      bases, REL, REL, ops, [1, 2, 3])]
    if pid == "C17":
        us = ["http://h/", "http://h", "HTTP://H:80/", "https://h/", "http://u@h/", "http://:p@h/", "http://h:81/", "http://1.2/",
              "http://1.0.0.2/", "http://[::1]/", "http://[0:0::1]/", "foo:x", "foo:/x", "foo://x", "foo:///x", "foo:/.//x",
              "file:///C|/", "file:///C:/", "http://h/a/..", "http://h/%41", "http://h/A", "http://\u00e9/", "http://xn--9ca/",
              "foo:", "foo:/", "foo://", "ws://h/", "http://h./", "foo:x ", "data: "]
        ts = ["", "#", "#f", "#F", "?", "?#", "?q", "?q#", "?q#f", "#?q", "?q#f#"]
        return [Space(2, lambda a, s, b, t: eq(a + s, b + t), us, ts, us, ts),
                Space(1, lambda a, s, t: eq(a + s, a + t), us, ts, ts),
                Space(2, lambda b, r, s, t, x, i, j: hist([new(b), new(r, bobj(1)), setev(1, *s), setev(2, *t),
                                                          {"op": "eq", "i": i, "j": j, "x": x}], ["ret"]),
                      SET_BASES, ["", "", "#", "#f", "?", "x"], TWIST, TWIST, [True, False], [1, 2], [1, 2]),
                Space(1, lambda x, y, m: hist([{"op": "npar", "x": x}, {"op": "npar", "x": y}, {"op": "peq", "i": 1, "j": 2},
                                               {"op": "par", "i": 1, "p": m}, {"op": "peq", "i": 2, "j": 1}], ["ret"]),
                      INITS, INITS, PMUT)]
    if pid == "C18":
        C = ["cls", "can"]
        return url_spaces(C) + set_spaces(["raises", "cls", "href", "list"]) + [
            Space(1, lambda a, b, c, d, e, r: parse(r, join(a, b, c, d, e), C), *base_texts(), REL),
            Space(1, lambda ns, *x: host(join(*x), ns, ["cls"]), [True, False], *strings(DOMT, 3)),
            Space(1, lambda *x: v6text(*x), *strings(V6T, 3)),
            Space(1, lambda f, a, b: parse(f.replace("%s", a + b), None, C), FORMS, CHARS, CHARS[::7])]
    if pid == "C19":
        return url_spaces(CL_UP) + [
            Space(1, lambda a, b, c, d, e, r: parse(r, join(a, b, c, d, e), CL_UP), *base_texts(), REL),
            Space(1, lambda b, p, r, q, f: parse(b + p + r + q + f, None, CL_UP),
                  ["http://h", "http://u:p@h:8", "http://:p@h", "foo:", "foo://h", "file://", "data:x", "foo://u@h:0", "file://h",
                   "http://h:0", "foo://"],
                  ["", "/", "/a", "/a;p", ";", "/;", "/a/", "x;y"], ["", ";", ";p", "/;b", "/b;c;d", "/..;x", "%3B"],
                  ["", "?", "?q", "?q;r", "?;"], ["", "#", "#f", "#f;g?h", "#;"])]
    if pid == "C20":
        return [Space(1, lambda b, o1, o2, o3: hist([new(b, None, True), dict(o1), dict(o2), dict(o3)], ["raises", "cls", "href", "list"]),
                      SET_BASES + RAW_BASES, raw_ops(1), raw_ops(1), raw_ops(1)),
                Space(3, mk_ovr, *rec_axes(), Q.OVR, range(36), [True, True, False]),
                Space(1, lambda e, b, a, x: ovr(a + x, Q.prep(Q.mkrec(b), "query"), "query", *e), Q.QENCS, ENC_RECS,
                      ["a", "\u00e9", "\u65e5", "'", "\U0001f308", " ", "%", "\u20ac"], ["", "x", "\u00e9", "\u0416"]),
                Space(1, lambda b, st, *x: ovr(join(*x), Q.prep(Q.mkrec(b), st), st), SET_BASES, Q.OVR, *strings(TOK, 3))]
    if pid == "C21":
        return enc_spaces()
    if pid == "C23":
        L = Q.CL_Q
        ax = rec_axes()
        ax[0] = ax[0] + [cps(x) for x in ("wss", "blob", "data", "", "HTTP", "filex", "http+x")]
        return url_spaces(L) + [
            Space(2, lambda a, b, c, d, e, r: parse(r, join(a, b, c, d, e), L), *base_texts(), REL),
            Space(4, mk_rq, *ax),
            Space(2, mk_rq2, *(ax[:6] + [range(7), *(x[:4] for x in ax[:6])])),
            Space(1, mk_opq, ax[0], ["", "x", "/x", "//x", "http://h", "https://h:443/", "file:///", "x?y", " ", "blob:http://h", "C:", "http:"],
                  ax[5], ax[6]),
            Space(2, lambda *x: relabel(mk_ovr(*x), L), *rec_axes(), Q.OVR, range(36), [True, True, False])]
    if pid == "C24":
        pool = vs_pool()
        return [Space(2, lambda a, b: Q.vs([dict(a), dict(b)]), pool, pool),
                Space(2, lambda a, b, c: Q.vs([dict(a), dict(b), dict(c)]), pool, pool, pool),
                Space(1, lambda *x: Q.vs([dict(e) for e in x]), pool, pool, pool, pool, pool, pool)]
    if pid == "C25":
        pools = [[f(t) for t in ts] for f, ts in zip(Q.FAMS, Q.SEQ_TEXTS)]
        out = []
        for p in pools:
            n = range(len(p[0]))
            out += [Space(2, lambda cs, i, j: Q.seq([cs[i], cs[j], cs[i]]), p, n, n),
                    Space(1, lambda cs, ds, i, j, k: Q.seq([cs[i], ds[j], cs[k], cs[i]]), p, p, n, n, n),
                    Space(1, lambda cs, ds, i, j: Q.seq([cs[i], ds[j], cs[i], ds[j]]), p, [x for q in pools for x in q], n,
                          range(min(len(q[0]) for q in pools)))]
        return out
    if pid == "C22":
        L = Q.CL_LOG
        return url_spaces(L) + [
            Space(2, lambda a, b, c, d, e, r: parse(r, join(a, b, c, d, e), L), *base_texts(), REL),
            Space(2, lambda ns, *x: host(join(*x), ns, L), [True, False], *strings(DOMT, 3)),
            Space(1, lambda *x: host("[" + join(*x) + "]", True, L), *strings(V6T, 4)),
            Space(1, lambda t, *x: host(".".join(x) + t, False, L), ["", "."], V4T, V4T, V4T),
            Space(1, lambda b, st, *x: dict(ovr(join(*x), Q.prep(Q.mkrec(b), st), st), cl=L), SET_BASES, Q.OVR, *strings(TOK, 3)),
            Space(1, lambda f, a, b: parse(f.replace("%s", a + b), None, L), FORMS, CHARS, CHARS[::7])]
    return []


# ------------------------------------------------------------------ sizes
# Texts, lists and histories of many lengths: whatever depends on a size.
LENS = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 24, 25, 28, 31, 32, 33, 36, 40, 48, 50, 51,
        60, 63, 64, 65, 70, 80, 90, 99, 100, 101, 110, 120, 127, 128, 129, 150, 180, 200, 240, 250, 254, 255, 256, 257, 260, 300,
        350, 400, 500, 511, 512, 513, 600, 700, 800, 900, 1000, 1023, 1024, 1025, 1100, 1500, 2000, 2047, 2048, 2049, 3000, 4096,
        4097]
UNITS = ["a", "a", "\ud83c\udf08", "A", "\u00e9", "%41", "/", "/a", "a/", ".", "/..", "/.", " ", "'", "&a=1", "@", ":", "0", "1", "\t", ";", "a.",
         "%zz", "\U0001f308", "\ud800", "+", "=", "b&", "\\", "?", "#", "|", "%", "_", "-", "1.", "/C|", "x/../"]
LFORMS = ["http://h/%s", "http://h/?%s", "http://h/#%s", "http://%s@h/", "http://u:%s@h/x", "http://u%s:p%s@h/", "foo:%s", "foo:%s?q",
          "http://%s/", "foo://%s/x", "foo://h/%s#f", "file:///%s", "file:///C:/%s", "file://%s/", "http://h:%s80/", "http://h/a/b/c%s/../x",
          "%shttp://h/", "http://h/%s?%s#%s", "a%s://h/", "http:%sh/x", "foo://h?%s", "foo:/a%s", "http://h%s", "ws://h/x?%s", "a+.-%s:x",
          "http://h.%s.x/", "http://x%s.com:81/p", "foo:a%s#b"]


def size_of(n, u, limit):
    """n repetitions, at most limit characters."""
    return u * min(n, max(1, limit // len(u)))


def longs(*spaces):
    for s in spaces:
        s.cap = 260
    return list(spaces)


# Characters a program that works in chunks may cut in two: with one or two
# characters before them, a run of them lies across every even and odd place.
CUT = ["\ud83c\udf08", "%41", "\u00e9", "%C3%A9", "\U0001f308", "\r\n", "%%4"]


def cut_text(p, u, n):
    return p + size_of(9999, u, n)


def cut_spaces(pid):
    pre, big = ["", "a", "aa"], [300, 2700, 4200]
    small = [f for f in LFORMS if f.count("%s") == 1 and "%s." not in f and "%s:x" not in f and "%shttp" not in f and "%s80" not in f]
    how = {"C01": CL_PARSE, "C03": ["rt"], "C12": ["rec", "href"], "C14": CL_VALID, "C18": ["cls", "can"], "C22": Q.CL_LOG}
    out = []
    if pid in how:
        out.append(Space(1, lambda f, u, p: parse(f.replace("%s", cut_text(p, u, 300)), None, how[pid]), small, CUT, pre))
    if pid == "C12":
        out += [Space(1, lambda f, p: parse(f.replace("%s", cut_text(p, CUT[0], 4200)), None, how[pid]), small, pre),
                Space(1, lambda f, u, p: parse(f.replace("%s", cut_text(p, u, 2700)), None, how[pid]), small[:8], CUT, pre)]
    if pid in ("C04", "C12"):
        out.append(Space(1, lambda b, a, u, p: hist([new(b), setev(1, a, cut_text(p, u, 300))], CL_SET),
                         ["http://h/", "foo://h/p", "foo:x"], list(SET_VALUES), CUT[:3], pre))
    if pid == "C05":
        out.append(Space(1, lambda b, u, p: hist([new(b), {"op": "upar", "i": 1, "p": pop("append", "n", cut_text(p, u, 2700)), "h": True}],
                                                 ["raises", "href", "list", "ret", "g"]), ["http://h/?a=b", "foo:x"], CUT, pre))
    if pid == "C06":
        out += [Space(1, lambda u, p, n: par_history({"k": "str", "s": cps("a=" + cut_text(p, u, n))}, pop("str")), CUT, pre, big[:2]),
                Space(1, lambda u, p, n: par_history({"k": "pairs", "ps": [[cps(cut_text(p, u, n)), cps("v")]], "t": 0},
                                                     pop("append", "n", cut_text(p, u, n)), pop("str")), CUT, pre, big[:2])]
    if pid == "C07":
        out += [Space(1, lambda e, u, p, n: dict({"k": "fenc", "ps": [[cps(cut_text(p, u, n)), cps("v")]], "enc": e[0], "env": [], "cl": []},
                                                 **({"pyenc": e[1]} if e[1] else {})), Q.ENCS, CUT, pre, big[:2]),
                Space(1, lambda u, p, n: {"k": "fdec", "b": list(("a=" + cut_text(p, u, n)).encode("utf-8", "replace")), "env": [], "cl": []},
                      CUT, pre, big)]
    if pid == "C08":
        out.append(Space(1, lambda u, p, n: host(cut_text(p, u, n), True, ["idem", "cls", "errs"]), CUT, pre, big[:2]))
    if pid == "C20":
        out.append(Space(1, lambda b, st, u, p: ovr(cut_text(p, u, 300), Q.prep(Q.mkrec(b), st), st),
                         ["http://h/", "foo://h/p"], Q.OVR, CUT[:3], pre))
    if pid == "C21":
        out.append(Space(1, lambda e, sc, u, p: parse(sc + "?" + cut_text(p, u, 2700), None, ["rec", "href"], *e), Q.QENCS,
                         ["http://h/", "ws://h/"], CUT[:5], pre))
    return out


def long_parse(cl, bases=None):
    def mk(f, u, n, v, e):
        hosty = f.split("%s")[0].endswith("//") or "h%s" in f or "h.%s" in f or "x%s" in f
        return f.replace("%s", size_of(n, u, 700 if hosty else 2500) + v), e
    out = longs(Space(1, lambda f, u, n, v: parse(mk(f, u, n, v, 0)[0], None, cl), LFORMS, UNITS, LENS, ["", "", "x", "%zz", "\u00e9"]))
    if bases:
        out += longs(Space(1, lambda f, u, n, r: parse(r, mk(f, u, n, "", 0)[0], cl), LFORMS, UNITS, LENS, REL),
                     Space(1, lambda b, p, u, n: parse(p + size_of(n, u, 2500), b, cl), G.BASES[:31],
                           ["", "/", "?", "#", "x", "../", "//", "//h/", "C|/", "http:"], UNITS, LENS))
    return out


PRES = ["n", "n", "", "nn", "name", "a-long-name", "\u00e9" * 3, "n" * 17, "N" * 33, "\U0001f308", "n" * 70, "x&="]


def prefix(n, k, j):
    """The names of a list begin with ..."""
    return PRES[(n + 3 * k + 5 * j) % len(PRES)][:max(2, 1200 // n)]


def many(n, k, j=1):
    """n pairs over k names."""
    pre = prefix(n, k, j)
    return [[pre + "%d" % (i * j % k), str(i)] for i in range(n)]


def renamed(p, n, k, j):
    """The operation, on these names."""
    if p.get("n") and p["n"][0] == 110:
        p = dict(p, n=cps(prefix(n, k, j)) + p["n"][1:])
    return p


def many_text(n, k, j=1):
    return "&".join("%s=%s" % (a.replace("&", "%26").replace("=", "%3D"), b) for a, b in many(min(n, 600), k, j))


MOPS = [pop("sort"), pop("delete", "n0"), pop("delete", "n1", "1"), pop("set", "n0", "x"), pop("append", "n0", "y"), pop("get_all", "n1"),
        pop("has", "n2"), pop("has", "n1", "1"), pop("get", "n3"), pop("len"), pop("str"), pop("keys"), pop("values"), pop("in", "n4"),
        pop("set", "zz", "1"), pop("delete", "zz"), pop("add", "x")]
MUT = ("append", "delete", "set", "sort")


def long_list(n, k, j, how, *ops):
    ps = [[cps(a), cps(b)] for a, b in many(min(n, 600), k, j)]
    x = {"k": "pairs", "ps": ps, "t": how} if how < 3 else {"k": "str", "s": cps(many_text(n, k, j))}
    return par_history(x, *[renamed(o, n, k, j) for o in ops])


def long_url(n, k, j, b, f, o1, o2, h):
    ev = [new(b + "?" + many_text(n, k, j) + f)]
    for o in (o1, o2):
        ev.append({"op": "upar" if o["op"] in MUT else "uqry", "i": 1, "p": renamed(o, n, k, j), "h": h})
    return hist(ev, ["raises", "href", "list", "ret", "g"])


def long_set(b, a, u, n, s):
    return hist([new(b), setev(1, a, size_of(n, u, 300 if a.startswith("host") else 2500))] + ([setev(1, *s)] if s else []), CL_SET)


HL = [3, 5, 8, 9, 12, 16, 17, 20, 24, 25, 30, 32, 33, 40, 50, 51, 64, 65]


def long_hist(b, n, *es):
    """The same few events over and over."""
    import copy
    return hist([new(b)] + [copy.deepcopy(es[i % len(es)]) for i in range(n)], CL_ALL)


def long_par(x, n, *os):
    return par_history(x, *[dict(os[i % len(os)]) for i in range(n)])


HEV = ([setev(1, *s) for s in TWIST] + [{"op": "upar", "i": 1, "p": m, "h": h} for m in PMUT for h in (True, False)]
       + [new("x", bobj(1)), new("http://h/?a=1"), {"op": "npar", "x": {"k": "upar", "i": 1}}, new("..", bobj(2)),
          {"op": "par", "i": 1, "p": PMUT[0]}, setev(2, "search", "k=1"), setev(3, "pathname", "/q"), setev(1, "href", "http://h/?a=1")])


def long_spaces(pid):
    if pid in ("C01", "C12"):
        return long_parse(CL_PARSE if pid == "C01" else ["rec", "href"])
    if pid in ("C02", "C03", "C14", "C18", "C19"):
        return long_parse({"C02": CL_PARSE, "C03": ["rt"], "C14": CL_VALID, "C18": ["cls", "can"], "C19": CL_UP}[pid], True)
    if pid == "C22":
        return long_parse(Q.CL_LOG)
    if pid == "C23":
        return long_parse(Q.CL_Q, True)
    if pid == "C24":
        pool = vs_pool()
        return longs(Space(1, lambda n, a, b, c: Q.vs([dict((a, b, c)[i % 3]) for i in range(n)]), HL, pool, pool, pool))
    if pid == "C25":
        pools = [[f(t) for t in ts] for f, ts in zip(Q.FAMS, Q.SEQ_TEXTS)]
        return longs(*[Space(1, lambda cs, i, j, k, n: Q.seq([(cs[i], cs[j], cs[k])[m % 3] for m in range(n)]), p,
                             *[range(len(p[0]))] * 3, [6, 9, 12]) for p in pools])
    if pid == "C04":
        return longs(Space(1, long_set, SET_BASES, list(SET_VALUES), UNITS, LENS, [None, None] + TWIST),
                     Space(1, long_hist, SET_BASES, HL, *([[setev(1, *s) for s in sets()]] * 3)))
    lists = [LENS, [1, 2, 3, 7, 16, 5000], [1, 3, 5, 7]]
    if pid == "C05":
        return longs(Space(1, long_url, *lists, QBASE, ["", "#f"], MOPS, MOPS, [True, False]),
                     Space(1, long_hist, SET_BASES, HL, HEV, HEV, HEV))
    if pid == "C06":
        return longs(Space(1, long_list, *lists, range(4), MOPS, MOPS), Space(1, long_par, INITS, HL, PMUT, PMUT, PQRY))
    if pid == "C16":
        return longs(Space(2, long_hist, SET_BASES, HL, HEV, HEV, HEV))
    if pid == "C17":
        return longs(Space(1, lambda f, u, n, v, w: eq(f.replace("%s", size_of(n, u, 400) + v), f.replace("%s", size_of(n, u, 400) + w)),
                           LFORMS, UNITS, LENS, ["", "x"], ["", "x", "y", "#"]))
    if pid == "C20":
        return longs(Space(1, lambda b, st, u, n: ovr(size_of(n, u, 400), Q.prep(Q.mkrec(b), st), st), SET_BASES, Q.OVR, UNITS, LENS))
    if pid == "C07":
        return longs(Space(1, lambda n, k, j, u: {"k": "frt", "ps": [[cps(a + u), cps(b)] for a, b in many(min(n, 1100), k, j)],
                                                  "env": [], "cl": []}, *lists, ["", "&", "\u00e9", " "]),
                     Space(1, lambda n, u, f: {"k": "fdec", "b": list(f.replace("%s", size_of(n, u, 2500)).encode("utf-8", "replace")),
                                               "env": [], "cl": []}, LENS, UNITS, ["%s", "a=%s", "%s=b", "a=%s&c=%s"]),
                     Space(1, lambda e, n, u: dict({"k": "fenc", "ps": [[cps(size_of(n, u, 2500)), cps("v" + u)]], "enc": e[0], "env": [],
                                                    "cl": []}, **({"pyenc": e[1]} if e[1] else {})),
                           Q.ENCS, LENS, ["a", " ", "\u00e9", "&", "~", "\u65e5", "%", "'"]))
    HU = UNITS + ["xn--9ca.", "\u65e5", "0x", "a-", "ab.", "\u00ad", "%C3%A9", "a\u0301", "\u00df"]
    if pid == "C08":
        return longs(Space(1, lambda ns, p, u, n, v: host(p + size_of(n, u, 600) + v, ns, ["idem", "cls", "errs"]), [True, False],
                           ["", "a", "1."], HU, LENS, ["", "x", ".com", ".1", "%", "<", "\u00e9"]))
    if pid == "C09":
        return longs(Space(1, lambda p, u, n, v: host(p + size_of(n, u, 600) + v, False, ["idem", "cls", "errs"]),
                           ["", "0", "0x", "1.", "0x.", "1.2.3."], ["0", "1", "0x", "1.", ".", "9", "f", "7", "0x0."], LENS,
                           ["", "1", ".", ".1", "0xff", "8", ".0.0.1", "f"]))
    if pid == "C10":
        return longs(Space(1, lambda p, u, n, v: v6text(p, size_of(n, u, 600), v), ["", "::", "1:", "::1.2.3.", "1::2:"],
                           ["0", "1", ":", "0:", "1:", "f", "1.", ".", "::"], LENS, ["", ":", "::", "1", ":1", "1.2.3.4"]))
    if pid == "C11":
        return longs(Space(1, lambda st, p, u, n, v: {"k": "idna", "d": cps(p + size_of(n, u, 1100) + v), "strict": st, "env": [],
                                                      "cl": []}, [True, False], ["", "a.", "\u00e9", "xn--"], HU, LENS,
                           ["", ".", ".com", "\u00e9", "." + "b" * 63, ".\u65e5"]))
    if pid == "C13":
        return longs(Space(1, lambda n, u: parse("blob:" * min(n, 40) + u, None, ["origin", "g"]), range(1, 41), ORG[::5]),
                     Space(1, lambda n, u, sc, p: parse(sc + "://" + size_of(n, u, 300) + p, None, ["origin", "g"]), LENS,
                           ["a", "a.", "\u00e9", "0"], ["http", "blob:https", "ws", "foo", "blob:file"], ["", ":8", ":80/x", ":443"]))
    if pid == "C15":
        return longs(Space(1, lambda fn, p, u, n, v: hval(fn, p + size_of(n, u, 400) + v), ["host", "domain", "v4", "v6", "opaque", "scheme"],
                           ["", "a", "1.2.3."], HU, LENS, ["", "x", ".com", "%", "1"]))
    if pid == "C21":
        return longs(Space(1, lambda e, sc, u, n, v: parse(sc + "?" + size_of(n, u, 1500) + v, None, ["rec", "href", "up"], *e), Q.QENCS,
                           ["http://h/", "foo://h/", "ws://h/", "file:///"], ["a", "\u00e9", "\u65e5", " ", "'", "\U0001f308", "%", "\u20ac"], LENS,
                           ["", "x", "\u0416", "\u00ff", "\U0001f308"]))
    return []


def cases(pid, seed, w, nproc, budget, scale=1):
    """The cases of worker w; budget: cases per worker."""
    import random
    r = random.Random(seed * 7919 + w)
    ls = [s.at(r.randrange(s.size)) for s in long_spaces(pid) for _ in range(s.cap * scale)]
    ls += [s.at(i) for s in cut_spaces(pid) for i in range(w, s.size, nproc)]
    r.shuffle(ls)
    every = max(1, budget // (len(ls) + 1))
    for k, c in enumerate(products(pid, r, w, nproc, budget)):
        if k % every == 0 and ls:
            yield ls.pop()
        yield c
    yield from ls


def products(pid, r, w, nproc, budget):
    sp = sorted(spaces(pid), key=lambda s: s.size / s.w)
    tot = sum(s.w for s in sp)
    for s in sp:
        share = int(budget * s.w // max(0.5, tot))
        if s.size <= share * nproc:
            idx = range(w, s.size, nproc)
            used = len(idx)
        else:
            idx = (r.randrange(s.size) for _ in range(share))
            used = share
        budget -= used
        tot -= s.w
        for i in idx:
            c = s.at(i)
            if c is not None:
                yield c
