"""Per property: what is explored (cases for the specification to judge) and
which clauses of the specification decide it."""
import copy
import itertools
import json
import zlib

import gen as G
from mkenc import MBCHARS
from rec import NULLREC, cps, rec, txt


def parse(s, base=None, cl=(), enc="utf-8", pyenc=None):
    c = {"k": "parse", "s": cps(s), "base": [] if base is None else [cps(base)],
         "enc": enc, "env": [], "cl": list(cl)}
    if pyenc:
        c["pyenc"] = pyenc
    return c


def hist(ev, cl):
    return {"k": "hist", "ev": ev, "env": [], "cl": list(cl)}


def host(s, ns, cl=("errs", "cls", "idem")):
    return {"k": "host", "s": cps(s), "ns": ns, "env": [], "cl": list(cl)}


def hval(fn, s, cl=("errs",)):
    return {"k": "hval", "fn": fn, "s": cps(s), "env": [], "cl": list(cl)}


NONE = {"k": "none"}


def new(s, b=None, raw=False):
    e = {"op": "new", "s": cps(s), "b": b or {"k": "none"}}
    if raw:
        e["raw"] = True
    return e


def bstr(s):
    return {"k": "str", "s": cps(s)}


def bobj(i):
    return {"k": "obj", "i": i}


def setev(i, a, v):
    return {"op": "set", "i": i, "a": a, "v": cps(v)}


def pop(op, n="", v=None, num=False):
    d = {"op": op, "n": cps(n), "v": [] if v is None else [cps(v)]}
    if num:
        d["num"] = True
    return d


MUT = ["append", "append", "delete", "delete", "set", "set", "sort"]
QRY = ["get", "get_all", "has", "has", "in", "len", "str", "add", "keys", "values", "at", "at", "slice", "slice"]


def pat(i):
    return {**pop("at"), "i": i}


def psl(i, j, st=1):
    return {**pop("slice"), "i": i, "j": j, "st": st}


def rnd_mut(g):
    op = g.pick(MUT)
    if op == "sort":
        return pop(op)
    v = g.value()
    if op == "delete" and g.p(0.5):
        v = None
    return pop(op, g.name(), v, g.p(0.15))


def rnd_qry(g):
    op = g.pick(QRY)
    if op in ("get", "get_all", "in", "add"):
        return pop(op, g.name())
    if op == "has":
        return pop(op, g.name(), g.value() if g.p(0.5) else None, g.p(0.15))
    if op == "at":
        return pat(g.r.randint(-4, 4))
    if op == "slice":
        i, j = ([] if g.p(0.3) else [g.r.randint(-5, 6)] for _ in "ij")
        return psl(i, j, g.pick([1, 1, 1, 2, 3, -1, -2]))
    return pop(op)


def rnd_init(g):
    x = g.r.random()
    if x < 0.05:
        return {"k": "none"}
    if x < 0.45:
        return {"k": "str", "s": cps(g.qstring())}
    if x < 0.65:
        x = {"k": "pairs", "ps": [[cps(a), cps(b)] for a, b in g.pairs()],
             "t": g.pick([0, 0, 1, 2, 2]), "num": g.p(0.2)}
        if g.p(0.1) and x["ps"]:
            unpair(g, x["ps"])
        return x
    if x < 0.8:
        d = dict(g.pairs())
        return {"k": "map", "ps": [[cps(a), cps(b)] for a, b in d.items()],
                "num": g.p(0.2)}
    if x < 0.9:
        return {"k": "par", "i": g.r.randint(1, 4)}
    return {"k": "upar", "i": g.r.randint(1, 4)}


def unpair(g, ps):
    """One of the pairs becomes no pair."""
    q = g.pick(ps)
    k = g.pick([0, 1, 1, 3, 3, 4])
    q[:] = (q + [cps(g.value()) for _ in range(2)])[:k]


def rnd_url(g):
    """A URL that usually parses."""
    return g.pick(G.BASES[:30]) if g.p(0.5) else g.absolute()


def rnd_base(g):
    x = g.r.random()
    if x < 0.5:
        return {"k": "none"}
    if x < 0.7:
        return bstr(g.base())
    return bobj(g.r.randint(1, 4))


def rovr(i, st, v, prep=True):
    return {"op": "rovr", "i": i, "st": st, "v": cps(v), "prep": prep}


def rnd_raw(g, i):
    """An operation on a record: in place, below the URL class."""
    x = g.r.random()
    if x < 0.25:
        return {"op": "shorten", "i": i}
    if x < 0.35:
        return {"op": "attach", "i": i}
    st = g.pick(OVR + ["path start", "path start"])
    v = g.pick(AUTH_VALUES) if st == "authority" and g.p(0.6) else g.setter_value(SETATTR[st])
    if st == "scheme start" and g.p(0.8):
        v += ":"
    return rovr(i, st, v, g.p(0.6))


COMPS = ["href", "protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash", "origin"]


def spice(ev, g):
    """Let the program take some arguments from its own objects."""
    for e in ev:
        if e["op"] == "set" and g.p(0.25):
            e["vf"] = [g.r.randint(1, 3), e["a"] if g.p(0.6) else g.pick(COMPS)]
        elif e["op"] == "new" and g.p(0.1):
            e["vf"] = [g.r.randint(1, 3), g.pick(["href", "href", "pathname", "search", "hash", "host"])]
        elif e["op"] in ("upar", "par", "uqry", "pqry") and g.p(0.5):
            if g.p(0.8):
                e["p"]["nf"] = g.r.randint(0, 3)
            if e["p"]["v"] and g.p(0.6):
                e["p"]["wf"] = g.r.randint(0, 3)


# ------------------------------------------------------------------ mutation
STRKEYS = ("s", "t", "d")


def mut_text(a, g, limit=700):
    s = g.mutate(txt(a))
    return cps(s[:limit])


def mut_event(e, g):
    if e["op"] in ("new", "can"):
        if e["b"]["k"] == "str" and g.p(0.4):
            e["b"]["s"] = mut_text(e["b"]["s"], g)
        else:
            e["s"] = mut_text(e["s"], g)
    elif e["op"] == "rovr":
        e["v"] = mut_text(e["v"], g)
    elif e["op"] == "set":
        if g.p(0.3):
            e["a"], v = g.setter()
            e["v"] = cps(v)
        else:
            e["v"] = mut_text(e["v"], g)
    elif e["op"] in ("upar", "par", "uqry", "pqry"):
        p = e["p"]
        if g.p(0.5):
            p["n"] = mut_text(p["n"], g)
        elif p["v"]:
            p["v"] = [mut_text(p["v"][0], g)]
    elif e["op"] == "npar" and e["x"]["k"] == "str":
        e["x"]["s"] = mut_text(e["x"]["s"], g)
    elif e["op"] == "npar" and e["x"]["k"] == "pairs" and e["x"]["ps"]:
        if g.p(0.2):
            unpair(g, e["x"]["ps"])
    return e


def mutate_case(c, g, plan):
    c.pop("crash", None)
    k = c["k"]
    if k == "thr":
        return plan["fresh"](g)
    if k == "seq":
        cs = c["cs"]
        i = g.r.randrange(len(cs))
        x = g.r.random()
        if x < 0.5:
            cs[i] = mutate_case(cs[i], g, plan)
        elif x < 0.7:
            cs.append(copy.deepcopy(cs[i]))
        elif x < 0.8:
            cs.insert(i, copy.deepcopy(g.pick(cs)))
        elif x < 0.9 and len(cs) > 1:
            del cs[i]
        else:
            cs[i:] = [dict(y) for y in cs[i:][::-1]]
        del cs[8:]
        return c
    if k == "rq":
        c["alt" if g.p(0.5) else "rec"] = rnd_part(c["rec"], g)
        return c
    if k in ("hist", "vs"):
        ev = c["ev"]
        x = g.r.random()
        if x < 0.35 and "event" in plan:
            ev.insert(g.r.randint(0, len(ev)), plan["event"](g))
        elif x < 0.5 and len(ev) > 1:
            del ev[g.r.randrange(len(ev))]
        elif x < 0.6 and ev:
            i = g.r.randrange(len(ev))
            ev.insert(i, copy.deepcopy(ev[i]))
        elif x < 0.7 and len(ev) > 1:
            i, j = g.r.randrange(len(ev)), g.r.randrange(len(ev))
            ev[i], ev[j] = ev[j], ev[i]
        elif k == "vs":
            e = g.pick(ev) if ev else {"s": []}
            e["s"] = mut_text(e["s"], g)
        elif x < 0.78:
            spice(ev, g)
        elif ev:
            mut_event(g.pick(ev), g)
        c["ev"] = ev[:plan.get("maxlen", 14)]
        return c
    if k in ("fenc", "frt"):
        if c["ps"] and g.p(0.7):
            p = g.pick(c["ps"])
            j = g.pick([0, 1])
            p[j] = mut_text(p[j], g)
        else:
            c["ps"].append([cps(g.name()), cps(g.value())])
        return c
    if k in ("fdec", "u8d"):
        b = c["b"]
        i = g.r.randint(0, len(b))
        x = g.r.random()
        if x < 0.4:
            b.insert(i, g.r.randint(0, 255))
        elif x < 0.6:
            c["b"] = b[:i] + list(b"&=+%") [g.r.randint(0, 3):][:1] + b[i:]
        elif b:
            b[i % len(b)] = g.r.randint(0, 255)
        return c
    if k == "v6ser":
        c["v"][g.r.randrange(8)] = g.pick([0, 0, 1, 65535, g.r.randint(0, 65535)])
        return c
    if k == "v4ser":
        c["v"] = [g.r.randint(0, 65535), g.r.randint(0, 65535)]
        return c
    if k == "parse" and c["base"] and g.p(0.3):
        c["base"] = [mut_text(c["base"][0], g)]
        return c
    keys = [x for x in STRKEYS if x in c]
    key = g.pick(keys)
    c[key] = mut_text(c[key], g)
    return c


# ------------------------------------------------------------------ C01, C02
CL_PARSE = ["rec", "href", "hrefnf", "g", "list"]


def c01_fresh(g):
    return parse(g.absolute(), None, CL_PARSE)


def c01_seeds(tier):
    out = [parse(i, b if b not in (None, "about:blank") else None, CL_PARSE)
           for i, b in G.load_wpt("/repo") if b in (None, "about:blank")]
    # every scheme x slash form x short authority x short path
    for sc in ("http", "wss", "ftp", "file", "foo", "FILE", "hTTp"):
        for sl in ("", "/", "//", "///", "\\\\", "/\\", "\\", "////"):
            for au in ("", "h", "h:80", "h:21", "h:0", "u@h", "u:p@h:443", ":@h", "C:", "C|", "@",
                       "h:", "localhost", "LocalHost", "1.2", "[::1]:5", "%61", ":8", "h:70000",
                       "u@", "u@:5", "[::1", "a b", "h%"):
                out.append(parse("%s:%s%s" % (sc, sl, au), None, CL_PARSE))
                out.append(parse("%s:%s%s/../C|/./%%2e%%2E/x y" % (sc, sl, au), None, CL_PARSE))
    for sc in ("http", "foo", "file"):
        for n in (1, 2, 3):
            for segs in itertools.product(["", ".", "..", "a", "%2e", "%2E.", "C:", "c|"], repeat=n):
                out.append(parse("%s://h/%s" % (sc, "/".join(segs)), None, ["rec", "href"]))
        for n in (1, 2):
            for segs in itertools.product(["", ".", "..", "a", "C:", "c|"], repeat=n):
                out.append(parse("%s:%s" % (sc, "/".join(segs)), None, ["rec", "href"]))
                out.append(parse("%s:/%s?q#f" % (sc, "\\".join(segs)), None, ["rec", "href"]))
    return out


def c02_fresh(g):
    if g.p(0.25):
        ev = [new(g.base())]
        for _ in range(g.pick([0, 0, 1, 1, 2])):
            ev.append(setev(1, *g.setter()))
        for _ in range(g.pick([1, 2])):
            ev.append(new(g.relative(), bobj(g.r.randint(1, 3))))
        return hist(ev, ["raises", "href", "g", "list"])
    return parse(g.relative(), g.base(), CL_PARSE)


def c02_event(g):
    if g.p(0.5):
        return new(g.relative(), bobj(g.r.randint(1, 3)))
    return setev(g.r.randint(1, 3), *g.setter())


RELS = ["", "#", "#f", "?", "?q", "?q#f", ".", "..", "./", "../", "../..", "/", "//", "///", "x", "/x",
        "//x", "///x", "x/y", "./x", "../x", "../../x", "../../../x", "/../x", "/./x", "\\", "\\x",
        "\\\\x", "/\\x", "\\/x", "x\\y", "x:", ":x", ":", "http:", "http:x", "http:/x", "http://x",
        "https:x", "file:", "file:x", "file:/x", "file://x", "file:///x", "file:..", "file:?q",
        "file:#f", "foo:", "foo:x", "foo:/x", "C:", "C|", "C|/x", "C:/x", "/C:/x", "/C|/x", "//C:/x",
        "C|?q", "C|#f", "C|x", "c:\\x", "file:C|", "file:/C|/x", "..?q", ".#f", "%2e%2e/x", "%2e",
        "//h:80", "//u:p@h", "//", "//?q", "//#f", "///C|", "?\u00e9", "#\u00e9", "\u00e9", " ", "\t",
        "@", "//@", "//h@", "/C:", "/C|", "/..", "/.", "x/..", "x/.", "ftp:x", "ws:x", "wss:/x"]


def c02_seeds(tier):
    out = [parse(i, b, CL_PARSE) for i, b in G.load_wpt("/repo") if b not in (None, "about:blank")]
    for b in G.BASES:
        for r in RELS:
            out.append(parse(r, b, ["rec", "href"]))
    return out


# ------------------------------------------------------------------ C03
def c03_fresh(g):
    x = g.r.random()
    if x < 0.45:
        return parse(g.absolute(), None, ["rt"])
    if x < 0.65:
        return parse(g.relative(), g.base(), ["rt"])
    return hist(rnd_sets(g), ["rt"])


def c03_event(g):
    return setev(1, *g.setter()) if g.p(0.7) else {"op": "upar", "i": 1, "p": rnd_mut(g)}


def c03_seeds(tier):
    out = [parse(i, b if b not in (None, "about:blank") else None, ["rt"])
           for i, b in G.load_wpt("/repo")]
    for b in G.BASES:
        for r in RELS:
            out.append(parse(r, b, ["rt"]))
    # path-absolute / opaque / null-host ambiguities
    for sc in ("foo:", "foo:/", "foo://", "foo:///", "foo:/.", "foo:/..", "foo://h/", "file:///", "http://h/"):
        for n in (1, 2, 3):
            for segs in itertools.product(["", ".", "..", "a", "C:", "c|"], repeat=n):
                out.append(parse(sc + "/".join(segs), None, ["rt"]))
                out.append(parse(sc + "/".join(segs) + "?#", None, ["rt"]))
    return out


# ------------------------------------------------------------------ C04
def rnd_sets(g, n=None):
    ev = [new(rnd_url(g))]
    for _ in range(n or g.pick([1, 1, 2, 2, 3, 4, 6])):
        if g.p(0.88):
            ev.append(setev(1, *g.setter()))
        else:
            ev.append({"op": "upar", "i": 1, "p": rnd_mut(g)})
    return ev


CL_SET = ["raises", "href", "g", "list"]


def c04_fresh(g):
    return hist(rnd_sets(g), CL_SET)


SET_VALUES = {
    "href": ["http://x/", "", "x", "foo:x", "file:///C|/", "http://", "https://u:p@h:1/a?b#c", "foo://h/?q=1"],
    "protocol": ["http", "https", "https:", "HTTP", "ws", "wss", "ftp", "file", "foo", "bar:", "", ":", "1",
                 "h ttp", "http\n", "fil\te:", "https://x", "foo/bar", "a+b-c.d", "-a", "\u212a", "http:80"],
    "username": ["", "u", "a:b", "@", "/", "\u00e9", "%40", " ", "'", "~", "\ud800", "\t", "a b"],
    "password": ["", "p", "a:b", "@", "/", "\u00e9", "%40", " ", "'", "~", "\ud83c\udf08"],
    "host": ["", "x", "x:1", "x:", "x:80", "x:443", "x:70000", "x:y", "x:1y", ":1", "x/y", "x?y", "x#y",
             "x\\y", "x@y", "[::1]", "[::1]:2", "[::1", "1.2", "0x1", "256.1", "\u00e9", "%00", "a b",
             "C:", "C|", "localhost", "x:0", "%61", "xn--", "\t", "x\n:1", "a%2fb", "x:65536", "x:08"],
    "hostname": ["", "x", "x:1", ":", ":1", "x/y", "x?y", "x#y", "x\\y", "x@y", "[::1]", "[::1]:2", "[::1",
                 "1.2", "0x1", "\u00e9", "%00", "a b", "C:", "C|", "localhost", "LOCALHOST", "x ", "a%2fb"],
    "port": ["", "0", "1", "80", "443", "21", "65535", "65536", "99999", "a", "1a", "a1", " 1", "1 ", "+1",
             "-1", "080", "00", "8\t0", "1/2", "1?", "1#", "1\\", "\uff11", ":1", "000443", "1.5"],
    "pathname": ["", "/", "//", "///x", "x", "/x", "\\", "\\x", "a\\b", "..", "/..", ".", "/./", "?", "#", "a?b#c",
                 "C|", "/C|/x", "/C:/..", "%2e%2E", "\u00e9", " ", "\x00", ":", "a/../b", "/.//p", "//p/q", "..//x"],
    "search": ["", "?", "??", "a", "?a=b", "#", "a#b", "\u00e9", "'", " ", "a b", "\x00", "%", "&", "=", "+", "\t"],
    "hash": ["", "#", "##", "a", "#a", "\u00e9", " ", "`", "\x00", "%", "\"", "a\nb", "?"],
}
SET_BASES = ["http://h/", "https://u:p@h:81/a/b?q#f", "file:///C:/a", "file://h/x", "file:///", "ws://h:0/",
             "foo://h/p", "foo://u@h:80/p", "foo://h", "foo:///p", "foo:/p", "foo:/.//p", "foo:x", "foo:x ?q#f",
             "foo:x  #f", "data: ", "foo:x ?q", "http://1.2.3.4:443/", "http://[::1]/", "foo://h:0/x",
             "file://localhost/C|/x", "wss://h:443/?a=1&b=2", "foo://", "foo://?q", "blob:http://h/", "ftp://h:80/",
             "foo:/", "http://:p@h/", "foo://:@h:1"]


def c04_seeds(tier):
    out = []
    for b in SET_BASES:
        for a, vs in SET_VALUES.items():
            # several values in a row: each is a setter on the state the previous left
            for v in vs:
                out.append(hist([new(b), setev(1, a, v)], CL_SET))
    return out


# ------------------------------------------------------------------ C05
def c05_event(g):
    x = g.r.random()
    i = g.r.randint(1, 2)
    if x < 0.5:
        return {"op": "upar", "i": i, "p": rnd_mut(g), "h": g.p(0.5)}
    if x < 0.62:
        return {"op": "uqry", "i": i, "p": rnd_qry(g), "h": g.p(0.5)}
    if x < 0.78:
        return setev(i, "search", g.setter_value("search"))
    if x < 0.86:
        return setev(i, "href", rnd_url(g) if g.p(0.8) else g.setter_value("href"))
    if x < 0.97:
        return setev(i, *g.setter())
    return new(rnd_url(g), rnd_base(g), g.p(0.3))


def q_url(g):
    u = g.pick(["http://h/", "foo://h/p", "foo:x", "foo:x ", "data:a  ", "file:///C:/", "foo:/.//p", "http://h/#f",
                "foo:x  #f", "foo: "])
    if g.p(0.8):
        h = ""
        if "#" in u:
            u, h = u.split("#")
            h = "#" + h
        u += "?" + g.qstring().replace("#", "") + h
    return u


def c05_fresh(g):
    ev = [new(q_url(g) if g.p(0.8) else rnd_url(g), None, g.p(0.15))]
    for _ in range(g.pick([1, 2, 2, 3, 3, 4, 5, 7])):
        ev.append(c05_event(g))
    return hist(ev, ["raises", "href", "list", "ret", "g"])


def c05_seeds(tier):
    out = []
    muts = [pop("append", "a", "1"), pop("append", "", ""), pop("append", "\u00e9 &=+%", "~'()*!\ud800"),
            pop("delete", "a"), pop("delete", "a", "1"), pop("delete", "b"), pop("delete", "z"),
            pop("set", "a", "9"), pop("set", "z", "9"), pop("sort"), pop("append", "n", "1", True),
            pop("delete", ""), pop("set", "", "x")]
    bases = ["http://h/", "http://h/?", "http://h/?a=1", "http://h/?a=1&b=2&a=3", "http://h/?b=%26&a=+#f",
             "foo:x", "foo:x ", "foo:x ?a=1", "foo:x  ?a=1#f", "foo:x #f", "foo:/.//p?a=1", "file:///?a=1",
             "http://h/?%zz&=&&", "data: ?a", "http://h?a='1'"]
    for b in bases:
        for m in muts:
            for m2 in [None] + muts:
                for h in (True, False):
                    ev = [new(b), {"op": "upar", "i": 1, "p": m, "h": h}]
                    if m2:
                        ev.append({"op": "upar", "i": 1, "p": m2, "h": not h})
                    out.append(hist(ev, ["raises", "href", "list", "ret", "g"]))
        for a, v in [("search", ""), ("search", "?"), ("search", "b=2&a=1"), ("href", "http://x/?z=1"),
                     ("href", "http://x/"), ("href", "x"), ("hash", ""), ("hash", "y"), ("pathname", "/z"),
                     ("protocol", "https"), ("host", "q")]:
            for m in muts[:1] + muts[3:4] + muts[7:10]:
                out.append(hist([new(b), setev(1, a, v), {"op": "upar", "i": 1, "p": m, "h": True}],
                                ["raises", "href", "list", "ret", "g"]))
                out.append(hist([new(b), {"op": "upar", "i": 1, "p": m, "h": True}, setev(1, a, v),
                                 {"op": "uqry", "i": 1, "p": pop("str"), "h": True}],
                                ["raises", "href", "list", "ret", "g"]))
    return out


# ------------------------------------------------------------------ C06
def c06_event(g):
    x = g.r.random()
    i = g.r.randint(1, 3)
    if x < 0.55:
        return {"op": "par", "i": i, "p": rnd_mut(g)}
    if x < 0.9:
        return {"op": "pqry", "i": i, "p": rnd_qry(g)}
    if x < 0.96:
        return {"op": "npar", "x": rnd_init(g)}
    return {"op": "peq", "i": i, "j": g.r.randint(1, 3)}


def c06_fresh(g):
    ev = [{"op": "npar", "x": rnd_init(g)}]
    for _ in range(g.pick([1, 2, 3, 4, 5, 6, 9])):
        ev.append(c06_event(g))
    return longer(g, hist(ev, ["raises", "ret", "pars"]))


def longer(g, c):
    """Sometimes the same with other, longer names and values."""
    if g.p(0.7):
        return c
    a, b = (cps(g.pick(["", "", "nm", "name", "a longer name", "\u00e9", "n" * 15, "n" * 40, "&=", "\U0001f308"])) for _ in "ab")
    v = cps(g.pick(["", "", "", "vw", "value", "v" * 20, "%", "+"]))
    for e in c["ev"]:
        for d in (e.get("p"), e.get("x")):
            if d and "n" in d:
                d["n"] = a + d["n"] + b
                d["v"] = [x if d.get("num") else v + x for x in d["v"]]
            if d and "ps" in d:
                d["ps"] = [[a + x + b for x in q[:1]] + [y if d.get("num") else v + y for y in q[1:]] for q in d["ps"]]
    return c


def c06_seeds(tier):
    """All operation pairs on all lists of up to three pairs over two names."""
    out = []
    for n in range(0, 5):                        # sequences that are not all pairs
        for k in range(max(n, 1)):
            for l in (0, 1, 3, 4):
                ps = [[cps("a"), cps(str(j))] for j in range(n)]
                ps[k:k + 1] = [[cps(x) for x in "bcde"[:l]]]
                for t in (0, 1, 2):
                    out.append(hist([{"op": "npar", "x": {"k": "str", "s": cps("a=1")}},
                                     {"op": "npar", "x": {"k": "pairs", "ps": ps, "t": t}},
                                     {"op": "par", "i": 1, "p": pop("append", "z", "0")}], ["raises", "ret", "pars"]))
    lists = []
    for n in range(0, 4):
        for ns in itertools.product(["a", "b"], repeat=n):
            lists.append([[cps(x), cps(str(k % 2))] for k, x in enumerate(ns)])
    muts = [pop("append", "a", "1"), pop("delete", "a"), pop("delete", "a", "0"), pop("delete", "b", "1"),
            pop("set", "a", "x"), pop("set", "b", "y"), pop("sort"), pop("set", "c", "z"), pop("delete", "c")]
    qs = [pop("get", "a"), pop("get_all", "a"), pop("has", "a"), pop("has", "a", "0"), pop("has", "b", "1"),
          pop("in", "b"), pop("len"), pop("str"), pop("keys"), pop("values"), pop("get", "c"), pop("get_all", "c")]
    for l in lists:
        for m in muts:
            for m2 in muts:
                out.append(hist([{"op": "npar", "x": {"k": "pairs", "ps": l}}, {"op": "par", "i": 1, "p": m},
                                 {"op": "par", "i": 1, "p": m2}], ["raises", "ret", "pars"]))
        out.append(hist([{"op": "npar", "x": {"k": "pairs", "ps": l}}]
                        + [{"op": "pqry", "i": 1, "p": q} for q in qs], ["raises", "ret", "pars"]))
    # code-unit sort order and stability
    names = ["a", "\uffff", "\U00010000", "\U0001f308", "\ue000", "\ufffd", "", "aa", "A", "\u00e9", "e\u0301",
             "\U0010ffff", "\ud7ff", "z", "a\x00", "\ufb03"]
    for a, b in itertools.product(names, repeat=2):
        out.append(hist([{"op": "npar", "x": {"k": "pairs", "ps": [[cps(a), [49]], [cps(b), [50]], [cps(a), [51]],
                                                                  [[109], [52]], [cps(b), [53]]]}},
                         {"op": "par", "i": 1, "p": pop("sort")}], ["raises", "ret", "pars"]))
    return out


# ------------------------------------------------------------------ C07
ENCS = [("utf-8", None), ("utf-8", "UTF-8"), ("utf-8", "utf8"), ("utf-8", "U8"), ("utf-8", "cp65001"),
        ("windows-1252", None), ("windows-1252", "cp1252"), ("iso-8859-1", "latin-1"), ("iso-8859-1", None),
        ("windows-1251", None), ("windows-1251", "CP1251"), ("koi8-r", None), ("us-ascii", "ascii"),
        ("us-ascii", None), ("windows-1250", None), ("iso-8859-2", None), ("iso-8859-5", "cyrillic"),
        ("iso-8859-15", None), ("ibm866", "cp866"), ("windows-1253", None), ("shift_jis", None),
        ("shift_jis", "Shift-JIS"), ("euc-jp", None), ("euc-kr", None), ("big5", None), ("gbk", None),
        ("gb18030", None)]
QENCS = ENCS + [("utf-8", "utf-16le"), ("utf-8", "UTF-16BE"), ("utf-8", "utf_16_le"), ("utf-8", "utf-16-be"),
                ("utf-8", "utf-16"), ("utf-8", "UTF_16"), ("utf-8", "u16"), ("utf-8", "utf16")]
LEGACY = {"windows-1252": "\u20ac\u201a\u0192\u2026\u2122\u0153\u00e9\u00ff\u00a0\u0178",
          "iso-8859-1": "\u0080\u009f\u00e9\u00ff\u00a0", "windows-1251": "\u0410\u044f\u0401\u0451\u2116",
          "koi8-r": "\u0410\u042f\u0430\u044f\u0449", "us-ascii": "\u0080\u00e9", "utf-8": "\u00e9\u20ac",
          "windows-1250": "\u20ac\u0160\u010d", "iso-8859-2": "\u010d\u0160\u00e9", "iso-8859-5": "\u0410\u044f\u2116\u00a7",
          "iso-8859-15": "\u20ac\u0160\u0153", "ibm866": "\u0410\u044f\u2116", "windows-1253": "\u03b1\u20ac"}
for _e in ("shift_jis", "euc-jp", "euc-kr", "big5", "gbk", "gb18030"):
    LEGACY[_e] = MBCHARS


def enc_text(g, enc):
    """Text whose characters the model's tables cover."""
    s = ""
    for _ in range(g.pick([0, 1, 2, 3, 5])):
        x = g.r.random()
        if x < 0.4:
            s += g.pick(LEGACY[enc] + "\u65e5\U0001f308\u044f\u00e9")
        elif x < 0.75:
            s += g.pick("abc ABC&=+%#'\"<>~!*()-._;/?:@\\^`{|}\x7f\x01")
        else:
            s += g.pick(["%20", "%e9", "&#1;", "\ud83c\udf08", "\ud800", "\udc00", "~"])
    return s


def c07_fresh(g):
    x = g.r.random()
    if x < 0.3:
        return {"k": "frt", "ps": [[cps(a), cps(b)] for a, b in g.pairs()], "env": [], "cl": []}
    if x < 0.5:
        enc, py = g.pick(ENCS)
        c = {"k": "fenc", "ps": [[cps(enc_text(g, enc)), cps(enc_text(g, enc))] for _ in range(g.pick([0, 1, 2, 3]))],
             "enc": enc, "env": [], "cl": []}
        if py:
            c["pyenc"] = py
        return c
    if x < 0.6:
        return {"k": "fenc", "ps": [[cps(a), cps(b)] for a, b in g.pairs()], "enc": "utf-8", "env": [], "cl": []}
    b = [g.pick(list(b"&=+%&=+%ab012fFcC3\xc3\xa9\xe2\x82\xac\xf0\x9f\x80\xff")) if g.p(0.85) else g.r.randint(0, 255)
         for _ in range(g.r.randint(0, 14))]
    if g.p(0.4):
        b = list(g.qstring().encode("utf-8", "replace"))
    return {"k": "fdec", "b": b, "env": [], "cl": []}


def c07_seeds(tier):
    out = []
    for n in range(0, 5 if tier == "quick" else 6):
        for t in itertools.product(b"a&=+%", repeat=n):
            out.append({"k": "fdec", "b": list(t), "env": [], "cl": []})
    for hi in range(256):
        out.append({"k": "fdec", "b": list(b"%%%02x=%%%02X" % (hi, 255 - hi)), "env": [], "cl": []})
        out.append({"k": "fdec", "b": [hi, 61, 255 - hi], "env": [], "cl": []})
        out.append({"k": "fenc", "ps": [[[hi], [97]], [[98], [hi, hi]]], "enc": "utf-8", "env": [], "cl": []})
        out.append({"k": "frt", "ps": [[[hi], [hi, 37, 52, 49]]], "env": [], "cl": []})
    for lo in range(0, 0x11000, 64):
        out.append({"k": "frt", "ps": [[list(range(lo, lo + 64)), [97]]], "env": [], "cl": []})
        if lo < 0x3000:
            out.append({"k": "fenc", "ps": [[[98], list(range(lo, lo + 64))]], "enc": "utf-8", "env": [], "cl": []})
    for enc, py in ENCS:
        for ch in LEGACY[enc] + "\u65e5\U0001f308~ +&='(*!)-._%":
            c = {"k": "fenc", "ps": [[cps(ch), cps("a" + ch + "b" + ch)], [cps("x"), cps("\U0001f308" + ch)]],
                 "enc": enc, "env": [], "cl": []}
            if py:
                c["pyenc"] = py
            out.append(c)
    return out


# ------------------------------------------------------------------ C08..C11, C15
def c08_fresh(g):
    x = g.r.random()
    if x < 0.75:
        ns = g.p(0.4)
        s = g.host() if g.p(0.85) else g.text(8)
        if g.p(0.25):
            s = g.mutate(s)
        return host(s, ns, ["idem"])
    sc = g.pick(["http://", "foo://", "file://", "ws://", "https://", "ftp://"])
    return parse(sc + g.host() + g.pick(["", "/", ":80/", "?x", "\\x"]), None, ["rec", "href"])


def c08_seeds(tier):
    out = []
    for c in list(range(0, 256)) + [0xD800, 0xDC00, 0xFFFD, 0xFFFE, 0x1F308, 0x10FFFF, 0x2028, 0x3000, 0xFF0E, 0x3002]:
        for ns in (True, False):
            for pat in ("%s", "a%sb", "%sa", "a%s", "a.%s", "1%s", "%s.1"):
                s = pat.replace("%s", chr(c))
                out.append(host(s, ns, ["idem"]))
            if c < 256:
                out.append(host("a%%%02xb" % c, ns, ["idem"]))
                out.append(host("%%%02X" % c, ns, ["idem"]))
    for d in G.DOMAINS:
        for ns in (True, False):
            out.append(host(d, ns, ["idem"]))
        for sc in ("http", "file", "foo"):
            out.append(parse("%s://%s/x" % (sc, d), None, ["rec", "href"]))
    return out


def c09_fresh(g):
    x = g.r.random()
    s = g.v4()
    if x < 0.15:
        s = g.mutate(s)
    elif x < 0.3:
        s = g.pick(["foo.", "a.b.", "0x.", "", "."]) + s
    if g.p(0.75):
        return host(s, False, ["idem", "cls"])
    if g.p(0.15):
        return {"k": "v4ser", "v": [g.r.randint(0, 65535), g.r.randint(0, 65535)], "env": [], "cl": []}
    return parse(g.pick(["http://", "https://u@", "file://", "ws://"]) + s + g.pick(["/", "", ":80/x"]), None,
                 ["rec", "href"])


def c09_seeds(tier):
    out = []
    alpha = "019x7.aF" if tier == "quick" else "0189xX7.aFg_+"
    for n in range(1, 6 if tier == "quick" else 6):
        if len(alpha) ** n > 60000 and tier == "quick":
            break
        for t in itertools.product(alpha[:8 if n < 5 else 5], repeat=n):
            out.append(host("".join(t), False, ["cls"]))
    parts = G.V4PARTS
    for a in parts:
        out.append(host(a, False, ["cls", "idem"]))
        out.append(host(a + ".", False, ["cls", "idem"]))
        for b in parts:
            out.append(host(a + "." + b, False, ["cls", "idem"]))
            out.append(host("1.2." + a + "." + b, False, ["cls"]))
            out.append(host("1." + a + "." + b, False, ["cls"]))
            out.append(host(a + ".2.3." + b, False, ["cls"]))
    for n in (1, 2, 3, 4):
        lim = 256 ** (5 - n)
        for d in (-2, -1, 0, 1, 2):
            for f in ("%d", "0x%x", "0%o", "0X%X", "0000%o", "0x000%x"):
                for pre in ("1", "255", "256", "0xff", "0x100", "0377", "0400", "0"):
                    out.append(host(".".join([pre] * (n - 1) + [f % (lim + d)]), False, ["cls", "idem"]))
    for v in (0, 1, 255, 256, 65535, 65536, 2**24 - 1, 2**24, 2**31 - 1, 2**31, 2**32 - 1):
        out.append({"k": "v4ser", "v": [v >> 16, v & 65535], "env": [], "cl": []})
    return out


def c10_fresh(g):
    x = g.r.random()
    if x < 0.65:
        s = g.v6()
        if g.p(0.3):
            s = g.mutate(s, 1)
        return host(s, g.p(0.3), ["idem", "cls"])
    if x < 0.8:
        v = [g.pick([0, 0, 0, 1, 0xffff, g.r.randint(0, 65535)]) for _ in range(8)]
        return {"k": "v6ser", "v": v, "env": [], "cl": []}
    return parse(g.pick(["http://", "foo://", "file://", "foo://u:p@"]) + g.v6() + g.pick(["", "/", ":8/x", ":80"]),
                 None, ["rec", "href"])


def c10_seeds(tier):
    out = []
    # every pattern of zero / non-zero pieces
    for t in itertools.product([0, 1], repeat=8):
        out.append({"k": "v6ser", "v": [x * (0x10 ** (k % 4)) for k, x in enumerate(t)], "env": [], "cl": []})
    # every arrangement of n pieces and a compression
    for n in range(0, 10):
        for k in range(0, n + 1):
            ps = [str(i + 1) for i in range(n)]
            out.append(host("[" + ":".join(ps[:k]) + "::" + ":".join(ps[k:]) + "]", True, ["idem", "cls"]))
            out.append(host("[" + ":".join(ps[:k]) + ":::" + ":".join(ps[k:]) + "]", True, ["cls"]))
            for v4 in ("1.2.3.4", "255.0.0.9", "256.1.1.1", "1.2.3", "01.2.3.4", "1.2.3.4.5"):
                out.append(host("[" + ":".join(ps[:k]) + "::" + ":".join(ps[k:] + [v4]) + "]", True, ["idem", "cls"]))
                out.append(host("[" + ":".join(ps[:k] + [v4]) + ":" + ":".join(ps[k:]) + "]", True, ["cls"]))
            for j in range(k, n + 1):
                out.append(host("[" + ":".join(ps[:k]) + "::" + ":".join(ps[k:j]) + "::" + ":".join(ps[j:]) + "]",
                                True, ["cls"]))
        out.append(host("[" + ":".join(["f"] * n) + "]", False, ["idem", "cls"]))
        out.append(host("[" + ":".join(["f"] * n) + ":]", False, ["cls"]))
        out.append(host("[:" + ":".join(["f"] * n) + "]", False, ["cls"]))
    alpha = ":1." if tier == "quick" else ":1.g0"
    for n in range(0, 8 if tier == "quick" else 7):
        for t in itertools.product(alpha, repeat=n):
            out.append(host("[" + "".join(t) + "]", True, ["cls"]))
    for n in range(0, 6):
        for t in itertools.product(":0fG", repeat=n):
            out.append(host("[1:2:3:4:5" + "".join(t) + "]", True, ["cls"]))
    for n in range(1, 6):
        for t in itertools.product("0129.", repeat=n):
            if n < 5 or tier != "quick":
                out.append(host("[::1.2." + "".join(t) + "]", True, ["cls"]))
    for p in G.V6PIECES + ["fffff", "0g", "+1", "-1", " 1", "1_0", "\uff11", "%31", "1%", "1 ", "0x1"]:
        out.append(host("[::%s]" % p, True, ["idem", "cls"]))
        out.append(host("[%s:2:3:4:5:6:7:8]" % p, False, ["idem", "cls"]))
        out.append(host("[1:2:3:4:5:6:7:%s]" % p, False, ["idem", "cls"]))
    for p in G.V4IN6:
        out.append(host("[::%s]" % p, True, ["idem", "cls"]))
        out.append(host("[1:2:3:4:5:6:%s]" % p, True, ["idem", "cls"]))
        out.append(host("[1:2:3:4:5:6:7:%s]" % p, True, ["cls"]))
        out.append(host("[1:2:3:4:5:%s]" % p, True, ["cls"]))
    return out


IDN_CHARS = "abz019-.xn" + "".join(G.KNOWN)


def idn(g):
    if g.p(0.5):
        n = g.pick([1, 2, 3, 4, 6, 8])
        s = "".join(g.pick(IDN_CHARS) for _ in range(n))
    else:
        s = g.fancy(G.DOMAINS)
    x = g.r.random()
    if x < 0.1:
        s = "xn--" + s
    elif x < 0.25:
        try:
            s = ".".join("xn--" + l.encode("punycode").decode() for l in s.split("."))
        except Exception:  # noqa
            pass
        if g.p(0.3):
            s = s.swapcase() if g.p(0.5) else g.mutate(s, 1)
    if g.p(0.2):
        s = g.mutate(s)
    if g.p(0.1):
        s += "." + g.pick(["", "com", "\u65e5\u672c", "\u05d0", "x" * g.pick([62, 63, 64])])
    return s


def c11_fresh(g):
    if g.p(0.7):
        return {"k": "idna", "d": cps(idn(g)), "strict": g.p(0.5), "env": [], "cl": []}
    s = idn(g)
    if g.p(0.3):
        s = "".join("%%%02X" % b if g.p(0.5) else "%%%02x" % b for b in s.encode("utf-8", "replace"))
    return host(s, False, ["idem"]) if g.p(0.6) else parse("http://" + s + "/", None, ["rec", "href"])


def c11_seeds(tier):
    out = []
    for c in list(range(0, 128)) + [ord(x) for x in G.KNOWN]:
        for pat in ("%s", "a%sb", "\u05d0%s", "%s\u05d0", "xn--%s", "\u00e9%s", "a.%s"):
            for st in (True, False):
                out.append({"k": "idna", "d": cps(pat.replace("%s", chr(c))), "strict": st, "env": [], "cl": []})
        out.append(host("a%sb" % chr(c), False, ["idem"]))
    # the whole BMP and beyond through ICU, one code point per domain, sampled
    step = 37 if tier == "quick" else 5
    for c in list(range(0x80, 0x3400, step)) + list(range(0x3400, 0x30000, step * 41)) + [0xE0001, 0x10FFFF]:
        if not 0xD800 <= c < 0xE000:
            out.append({"k": "idna", "d": [97, c, 98], "strict": False, "env": [], "cl": []})
    for d in G.DOMAINS + ["a" * n for n in (62, 63, 64, 252, 253, 254)] + [
            ".".join(["a" * 63] * 3 + ["b" * n]) for n in (60, 61, 62, 63)]:
        for st in (True, False):
            out.append({"k": "idna", "d": cps(d), "strict": st, "env": [], "cl": []})
    return out


# ------------------------------------------------------------------ C12
BLOCK_FORMS = ["http://h/%s", "http://h/?%s", "http://h/#%s", "http://%s@h/", "http://u:%s@h/", "foo:%s",
               "foo://h/?%s", "foo:/%s", "foo://%s/", "file:///%s?%s#%s"]


def block_cases(lo, hi, forms=BLOCK_FORMS):
    out = []
    t = "".join(chr(c) for c in range(lo, hi) if chr(c) not in "\t\n\r")
    for f in forms:
        drop = {"http://h/%s": "/\\?#", "http://h/?%s": "#", "http://%s@h/": "/\\?#:@", "http://u:%s@h/": "/\\?#@",
                "foo:%s": "?#/", "foo://h/?%s": "#", "foo:/%s": "/?#",
                "foo://%s/": "\x00 #/:<>?@[\\]^|", "file:///%s?%s#%s": "/\\?#|:"}.get(f, "")
        u = "".join(c for c in t if c not in drop)
        out.append(parse(f.replace("%s", "x" + u + "x"), None, ["rec", "href"]))
    for a in ("username", "password", "pathname", "search", "hash"):
        out.append(hist([new("http://h/"), setev(1, a, "x" + t + "x")], ["href", "g"]))
        out.append(hist([new("foo://h/"), setev(1, a, "x" + t + "x")], ["href", "g"]))
    return out


def pct(s, safe, plus=False, enc="utf-8", pyenc=None, u8=False):
    safe = "".join(c for c in safe if " " <= c <= "~")
    c = {"k": "pct", "s": cps(s), "safe": cps(safe), "plus": plus, "enc": enc, "env": [], "cl": []}
    if pyenc:
        c["pyenc"] = pyenc
    if u8:
        c["u8"] = True
    return c


def c12_seeds(tier):
    out = []
    for lo in range(0, 256, 16):
        out += block_cases(lo, lo + 16)
    ranges = [(0x100, 0x800, 64)] + [(x, x + 64, 64) for x in
              (0x800, 0xFC0, 0x2000, 0xD7C0, 0xD800, 0xDBC0, 0xDC00, 0xDFC0, 0xE000, 0xFDC0, 0xFFC0, 0x10000,
               0x1F300, 0x10FFC0)]
    if tier != "quick":
        ranges += [(x, x + 64, 64) for x in range(0x800, 0x11000, 0x440)]
    for a, b, st in ranges:
        for lo in range(a, b, st):
            out += block_cases(lo, lo + st, BLOCK_FORMS[:9])
    for c in range(128):
        for f in BLOCK_FORMS[:9]:
            out.append(parse(f.replace("%s", "a" + chr(c) + "b"), None, ["rec", "href"]))
        for a in ("username", "password", "pathname", "search", "hash"):
            for b in ("http://h/", "foo://h/", "foo:x", "file:///"):
                out.append(hist([new(b), setev(1, a, "a" + chr(c) + "b")], ["href", "g"]))
        out.append(pct(chr(c), ""))
        if 32 <= c < 127:
            out.append(pct("a%sb" % chr(c), chr(c), c % 2 == 0, u8=True))
        out.append(pct("a%s b" % chr(c), "/:", True))
    sur = ["\ud83c", "\udf08", "\ud83c\udf08", "\udf08\ud83c", "\ud83c\ud83c\udf08", "\ud83c\udf08\udf08", "a\ud83c",
           "\ud83ca", "\udbff\udfff", "\ud800\udc00", "\ud800x\udc00", "\ufffd", "\U0001f308\ud83c"]
    for s in sur:
        for f in BLOCK_FORMS + ["http://%s/", "http://h/a/%s/b", "foo:%s?%s#%s", "foo:a%sb"]:
            out.append(parse(f.replace("%s", s), None, ["rec", "href", "list"]))
        for a in ("username", "password", "pathname", "search", "hash", "host", "hostname"):
            for b in ("http://h/", "foo://h/", "foo:x"):
                out.append(hist([new(b), setev(1, a, s)], ["href", "g", "list"]))
        out.append(pct(s, ""))
        out.append({"k": "u8e", "s": cps(s), "env": [], "cl": []})
        out.append({"k": "dec", "s": cps(s + "%41%zz%4"), "env": [], "cl": []})
    for n in range(0, 5):
        for t in itertools.product("%4fG", repeat=n):
            out.append({"k": "dec", "s": cps("".join(t)), "env": [], "cl": []})
    for a in range(256):
        out.append({"k": "dec", "s": cps("%%%02x%%%02X" % (a, a)), "env": [], "cl": []})
        for b in (0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff):
            out.append({"k": "u8d", "b": [a, b], "env": [], "cl": []})
            out.append({"k": "u8d", "b": [a, b, 0x80, 0xbf, 0x41], "env": [], "cl": []})
    return out


def c12_fresh(g):
    x = g.r.random()
    if x < 0.15:
        return pct(g.text(8), g.pick(["", "/", "~", "!*'()", "%", " ", "+ ", g.text(4).encode("ascii", "ignore").decode()]),
                   g.p(0.3), u8=g.p(0.5))
    if x < 0.25:
        return {"k": "dec", "s": cps(g.text(8)), "env": [], "cl": []}
    if x < 0.35:
        return {"k": "u8d", "b": [g.pick([0x41, 0x80, 0xbf, 0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xef, 0xbb, 0x9f, 0xa0,
                                         g.r.randint(0, 255)]) for _ in range(g.r.randint(0, 8))], "env": [], "cl": []}
    if x < 0.4:
        return {"k": "u8e", "s": cps(g.text(8)), "env": [], "cl": []}
    t = g.text(6)
    if x < 0.7:
        f = g.pick(BLOCK_FORMS + ["http://h/a/%s/b", "ws://h/?%s", "blob:%s", "foo:/a/%s", "file://h/%s"])
        return parse(f.replace("%s", t), None, ["rec", "href"])
    return hist([new(g.pick(["http://h/", "foo://h/", "foo:x", "file:///", "ws://u:p@h/"])),
                 setev(1, g.pick(["username", "password", "pathname", "search", "hash"]), t),
                 setev(1, g.pick(["username", "password", "pathname", "search", "hash"]), g.text(4))],
                ["href", "g"])


# ------------------------------------------------------------------ C13
def org_url(g):
    x = g.r.random()
    if x < 0.5:
        return g.pick(["http", "https", "ws", "wss", "ftp", "file", "foo", "data", "HTTP"]) + "://" + g.pick(
            ["h", "H", "x.y", "1.2.3.4", "[::1]", "u:p@h", "0x7f.1", "\u00e9", "xn--9ca", "h."]) + g.pick(
            ["", ":80", ":443", ":21", ":0", ":8080", ":"]) + g.pick(["", "/", "/a?b#c"])
    if x < 0.75:
        return "blob:" + (org_url(g) if g.p(0.85) else g.absolute())
    return g.absolute()


def c13_fresh(g):
    s = org_url(g)
    t = org_url(g) if g.p(0.6) else g.mutate(s, 1)
    return org(s, t, g.pick([None, None, "d", "D", "x"]), g.pick([None, None, "d", "x", "d"]))


def org(s, t, da=None, db=None):
    return {"k": "org", "s": cps(s), "t": cps(t), "da": [] if da is None else [cps(da)],
            "db": [] if db is None else [cps(db)], "env": [], "cl": []}


def c13_seeds(tier):
    out = []
    us = [sc + "://" + h + p + "/" for sc in ("http", "https", "ws", "wss", "ftp", "file", "foo")
          for h in ("h", "i", "1.2.3.4") for p in ("", ":80", ":443", ":21", ":0", ":1")]
    us += ["blob:" + u for u in us[::5]] + ["blob:blob:http://h/", "blob:", "blob:x", "blob:/x", "blob://h/http://h/",
                                            "data:x", "about:blank", "file:///x", "javascript:1", "blob:http://",
                                            "blob:http://h:80/x?y#z", "blob:https:h", "blob: http://h/", "blob:ws://h/",
                                            "blob:ftp://h/", "BLOB:HTTPS://H:443", "blob:/http://h/", "http://[::1]:1/"]
    for i, s in enumerate(us):
        out.append(org(s, s))
        for j in (1, 2, 3, 5, 7, 18, 36, 54):
            t = us[(i + j) % len(us)]
            for da, db in ((None, None), ("d", "d"), ("d", None), ("d", "e"), (None, "d")):
                if da is None and db is None or j < 4:
                    out.append(org(s, t, da, db))
        out.append(org(s, s, "d", "d"))
        out.append(org(s, s, "d", None))
    return out


# ------------------------------------------------------------------ C14, C15
CL_VALID = ["errs", "valid", "can"]


def c14_fresh(g):
    if g.p(0.7):
        return parse(g.absolute(), None, CL_VALID)
    return parse(g.relative(), g.base(), CL_VALID)


def c14_seeds(tier):
    out = [parse(i, b if b not in (None, "about:blank") else None, CL_VALID) for i, b in G.load_wpt("/repo")]
    for c in list(range(256)) + [0xFDCF, 0xFDD0, 0xFDEF, 0xFDF0, 0xFFFD, 0xFFFE, 0xFFFF, 0xD800, 0xDFFF, 0x10000,
                                 0x10FFFD, 0x10FFFE, 0x10FFFF] + [0x10000 * k + 0xFFFE + j for k in range(1, 17)
                                                                  for j in (-1, 0, 1)]:
        for f in BLOCK_FORMS[:9] + ["http://h/%", "http://a%sb/"]:
            out.append(parse(f.replace("%s", chr(c)), None, CL_VALID))
    for t in itertools.product("%1fg", repeat=3):
        for f in BLOCK_FORMS[:9]:
            out.append(parse(f.replace("%s", "".join(t)), None, CL_VALID))
    for n in range(0, 4):
        for t in itertools.product("/\\", repeat=n):
            for sc in ("http:", "file:", "foo:", "ws:"):
                out.append(parse(sc + "".join(t) + "h/x", None, CL_VALID))
                out.append(parse(sc + "".join(t) + "h\\x", "http://b/c", CL_VALID))
                out.append(parse("".join(t) + "C|/x", "file:///D:/y", CL_VALID))
    for s in ("", "http", "HTTP", "aaa", "zzzz", "skype", "s\u212aype", "\u212a", "http:", " http", "mailto", "x-y",
              "SIP", "1", "xmpp.beep", "shttp (OBSOLETE)", "shttp", "Ms-Word"):
        out.append(hval("scheme", s))
    return out


def c15_fresh(g):
    x = g.r.random()
    fn = g.pick(["host", "host", "domain", "v4", "v6", "opaque", "scheme"])
    if fn == "scheme":
        s = g.pick(G.SCHEMES + G.BADSCHEMES) if g.p(0.6) else g.text(6)
    elif fn == "v4":
        s = g.v4()
    elif fn == "v6":
        s = g.v6(brackets=g.p(0.1))
    elif fn == "domain":
        s = idn(g)
    elif fn == "opaque":
        s = g.host() if x < 0.6 else g.text(6)
    else:
        s = g.host() if x < 0.7 else idn(g)
    if g.p(0.15):
        s = g.mutate(s, 1)
    return hval(fn, s)


def c15_seeds(tier):
    out = []
    for d in G.DOMAINS + ["a" * 63 + "." + "b" * 63, "a" * 64]:
        for fn in ("host", "domain", "opaque"):
            out.append(hval(fn, d))
    for c in list(range(256)) + [0xD800, 0xFFFD, 0xFFFE, 0x10FFFF, 0x1F308]:
        for fn in ("host", "domain", "opaque"):
            out.append(hval(fn, "a" + chr(c) + "b"))
            out.append(hval(fn, chr(c)))
    for a in G.V4PARTS:
        for pat in ("%s", "1.2.3.%s", "%s.2.3.4", "1.%s.3.4", "1.2.3.4.%s", "1.2.%s"):
            for fn in ("v4", "host"):
                out.append(hval(fn, pat.replace("%s", a)))
    for n in range(0, 256, 5):
        out.append(hval("v4", "%d.%d.%d.%d" % (n, 255 - n, n // 2, 256 - n)))
    for n in range(0, 7):
        for t in itertools.product(":1", repeat=n):
            out.append(hval("v6", "".join(t)))
            out.append(hval("host", "[" + "".join(t) + "]"))
            out.append(hval("opaque", "[" + "".join(t) + "]"))
    for p in G.V4IN6 + G.V6PIECES:
        out.append(hval("v6", "::" + p))
        out.append(hval("host", "[1:2:3:4:5:6:%s]" % p))
        out.append(hval("v6", "1:2:3:4:5:6:7:" + p))
    for t in itertools.product("%1fG", repeat=3):
        out.append(hval("opaque", "a" + "".join(t)))
    return out


# ------------------------------------------------------------------ C16
def c16_event(g):
    x = g.r.random()
    i = g.r.randint(1, 4)
    if x < 0.2:
        return new(g.relative() if g.p(0.6) else rnd_url(g), rnd_base(g), g.p(0.1))
    if x < 0.45:
        return setev(i, *g.setter())
    if x < 0.65:
        return {"op": "upar", "i": i, "p": rnd_mut(g), "h": g.p(0.5)}
    if x < 0.75:
        return {"op": "npar", "x": rnd_init(g)}
    if x < 0.87:
        return {"op": "par", "i": i, "p": rnd_mut(g)}
    if x < 0.91:
        return {"op": "can", "s": cps(g.relative()), "b": rnd_base(g)}
    if x < 0.95:
        return {"op": "pqry", "i": i, "p": rnd_qry(g)}
    return {"op": "eq", "i": i, "j": g.r.randint(1, 4), "x": g.p(0.5)}


def c16_raw(g):
    """Records made from records, changed in place."""
    ev = [new(rnd_url(g), None, True)]
    for _ in range(g.pick([2, 3, 4, 5, 6])):
        if g.p(0.35):
            ev.append(new(g.pick(["", "#f", "?q", "x", "..", "/y", g.relative()]) if g.p(0.9) else txt(ev[0]["s"]),
                          bobj(g.r.randint(1, 3)) if g.p(0.9) else None, True))
        elif g.p(0.15):
            ev.append(copy.deepcopy(g.pick([e for e in ev if e["op"] == "new"])))
        else:
            ev.append(rnd_raw(g, g.r.randint(1, 4)))
    return hist(ev, CL_ALL)


CL_ALL = ["raises", "ret", "href", "list", "pars", "g"]


def c16_hist(g, n=None):
    ev = [new(rnd_url(g))]
    if g.p(0.6):
        ev.append(new(g.relative(), bobj(1)))
    if g.p(0.4):
        ev.append({"op": "npar", "x": {"k": "upar", "i": 1}})
    for _ in range(n or g.pick([2, 3, 4, 5, 6, 8])):
        ev.append(c16_event(g))
    return hist(ev, CL_ALL)


LONGBASES = ["http://u:p@h:8/" + "/".join("abcdefgh") + "?x=1&y=2#f", "file:///C:/a/b/c?x=1", "foo://h/a/b/c?x=1", "foo:/a/b?x=1",
             "foo:x?x=1", "https://1.2.3.4/a/../b/c;d?q", "ws://[::1]:9/a/b/"]


def shared_threads(g, n):
    """Threads that share base URLs, which they only read."""
    def event():
        x = g.r.random()
        i = g.r.randint(1, 4)
        if x < 0.5:
            return new(g.relative(), bobj(g.r.randint(1, 3)))
        if x < 0.6:
            return {"op": "can", "s": cps(g.relative()), "b": bobj(g.r.randint(1, 3))}
        if x < 0.7:
            return {"op": "uqry", "i": i, "p": rnd_qry(g), "h": g.p(0.5)}
        if x < 0.8:
            return {"op": "eq", "i": i, "j": g.r.randint(1, 4), "x": g.p(0.5)}
        return c16_event(g)
    sh = [new(g.pick(LONGBASES) if g.p(0.7) else rnd_url(g)) for _ in range(g.pick([1, 2, 3]))]
    hs = [hist([event() for _ in range(n)], CL_ALL) for _ in range(4)]
    if g.p(0.5):
        hs = [copy.deepcopy(hs[0]) for _ in range(4)]
    return thr(hs, sh)


def thr(hs, sh=()):
    for h in hs:
        h["crash"] = ""
    return {"k": "thr", "hs": hs, "sh": list(sh), "env": [], "cl": []}


def c16_fresh(g):
    if g.p(0.03):
        return shared_threads(g, g.pick([4, 8, 12]))
    if g.p(0.05):
        hs = [c16_hist(g, 3) for _ in range(4)]
        if g.p(0.5):   # the same program in every thread
            hs = [copy.deepcopy(hs[0]) for _ in range(4)]
        return thr(hs)
    if g.p(0.3):
        return c16_raw(g)
    return c16_hist(g)


def c16_seeds(tier):
    out = []
    # one base, used by all threads at once
    for b in LONGBASES:
        for rs in (("", "#z", "?y=2"), ("c", "../e", "."), ("..", "../../..", "/d"), ("x", "./y/..", "//o/p")):
            hs = [hist([new(r, bobj(1)) for _ in range(4) for r in rs[k % 3:] + rs[:k % 3]], CL_ALL) for k in range(4)]
            out.append(thr(hs, [new(b)]))
    # an object made from another, then each changed in every way
    bases = ["http://u:p@h:8/a/b?x=1#f", "file:///C:/a/b?x=1", "foo://h/a/b?x=1", "foo:/a/b?x=1", "foo:x?x=1"]
    rels = ["", "c", "#z", "?y=2", "/d", "../e", "."]
    ops = [setev(0, "pathname", "/z/.."), setev(0, "search", "?s=1"), setev(0, "hash", "h"), setev(0, "host", "k:9"),
           setev(0, "port", "7"), setev(0, "username", "n"), setev(0, "protocol", "https"), setev(0, "href", "http://n/?w=1"),
           {"op": "upar", "i": 0, "p": pop("append", "a", "1"), "h": True}, {"op": "upar", "i": 0, "p": pop("sort")},
           {"op": "upar", "i": 0, "p": pop("delete", "x")}]
    for b in bases:
        for r in rels:
            for o in ops:
                for who in (1, 2):
                    e = copy.deepcopy(o)
                    e["i"] = who
                    out.append(hist([new(b), new(r, bobj(1)), e], CL_ALL))
        for o in ops[8:]:
            e = copy.deepcopy(o)
            for who in (1,):
                e["i"] = who
                out.append(hist([new(b), {"op": "npar", "x": {"k": "upar", "i": 1}}, e,
                                 {"op": "par", "i": 1, "p": pop("append", "q", "1")},
                                 {"op": "npar", "x": {"k": "par", "i": 1}},
                                 {"op": "par", "i": 2, "p": pop("delete", "q")}], CL_ALL))
    return out


# ------------------------------------------------------------------ C17
def c17_fresh(g):
    if g.p(0.25):
        ev = [new(rnd_url(g)), new(rnd_url(g) if g.p(0.5) else g.relative(), bobj(1))]
        for _ in range(g.pick([1, 2, 3])):
            ev.append(setev(g.r.randint(1, 2), *g.setter()))
            ev.append({"op": "eq", "i": 1, "j": 2, "x": g.p(0.5)})
        if g.p(0.3):
            ev += [{"op": "npar", "x": rnd_init(g)}, {"op": "npar", "x": rnd_init(g)}, {"op": "peq", "i": 1, "j": 2},
                   {"op": "par", "i": 1, "p": rnd_mut(g)}, {"op": "peq", "i": 2, "j": 1}]
        return hist(ev, ["ret"])
    s = g.absolute()
    x = g.r.random()
    if x < 0.25:
        t = s
    elif x < 0.6:
        t = g.mutate(s, 1)
    elif x < 0.8:
        t = s.split("#")[0] + g.pick(["", "#", "#x", "#y"])
    else:
        t = g.absolute()
    return eq(s, t)


def eq(s, t):
    return {"k": "eq", "s": cps(s), "t": cps(t), "env": [], "cl": []}


def c17_event(g):
    x = g.r.random()
    if x < 0.5:
        return {"op": "eq", "i": g.r.randint(1, 3), "j": g.r.randint(1, 3), "x": g.p(0.5)}
    return setev(g.r.randint(1, 2), *g.setter())


def c17_seeds(tier):
    us = ["http://h/", "http://h", "HTTP://H:80/", "http://h/#", "http://h/#f", "http://h/?", "http://h/?#", "http://h/a/..",
          "http://h/%41", "http://h/A", "http://u@h/", "http://u:@h/", "http://:p@h/", "https://h/", "http://h:81/",
          "http://127.0.0.1/", "http://0x7f.1/", "http://2130706433/", "http://[::1]/", "http://[0:0::1]/", "foo:x", "foo:x#",
          "foo:/x", "foo://x", "foo:///x", "foo:/.//x", "file:///C|/", "file:///C:/", "file:///c:/", "foo:x?", "foo:x?#y",
          "http://\u00e9/", "http://xn--9ca/", "http://h/\u00e9", "http://h/%C3%A9", "http://h/%c3%a9", "http://h/?a=1",
          "http://h/?a=1#", "http://h/?a=1#f", "http://h/#a=1", "foo:", "foo:/", "foo://", "foo:#", "ws://h/", "http://h./"]
    return [eq(a, b) for a in us for b in us]


# ------------------------------------------------------------------ C18
def garbage(g):
    n = g.pick([0, 1, 2, 3, 5, 9, 20])
    return "".join(chr(g.pick([g.r.randint(0, 127), g.r.randint(0, 127), g.r.randint(0, 0x2ff),
                               g.r.randint(0xD700, 0xE100), g.r.randint(0, 0x10FFFF)])) for _ in range(n))


def c18_fresh(g):
    x = g.r.random()
    if x < 0.3:
        return parse(g.absolute(), None, ["cls", "can"])
    if x < 0.4:
        return parse(g.relative(), g.base(), ["cls", "can"])
    if x < 0.5:
        s = garbage(g)
        f = g.pick(["%s", "http://%s", "http://h/%s", "foo:%s", "http://h:%s/", "http://[%s]/", "file:%s", "//%s", "http://%s@h"])
        return parse(f.replace("%s", s), g.pick([None, "http://b/", garbage(g)]), ["cls", "can"])
    if x < 0.65:
        s = g.pick([g.host, g.v4, g.v6, lambda: idn(g), lambda: garbage(g)])()
        return host(s, g.p(0.3), ["cls"])
    if x < 0.75:
        s = g.pick([g.host, g.v4, g.v6, lambda: idn(g), lambda: garbage(g)])()
        return hval(g.pick(["host", "domain", "v4", "v6", "opaque", "scheme"]), s, [])
    ev = [new(rnd_url(g))]
    for _ in range(g.pick([1, 2, 3])):
        a, v = g.setter()
        if g.p(0.3):
            v = garbage(g)
        ev.append(setev(1, a, v))
    return hist(ev, ["raises", "cls", "href", "list"])


def c18_event(g):
    return setev(1, *g.setter())


def c18_seeds(tier):
    out = []
    for b in SET_BASES:
        for a, vs in SET_VALUES.items():
            for v in vs:
                out.append(hist([new(b), setev(1, a, v)], ["raises", "cls", "href", "list"]))
    for i, b in G.load_wpt("/repo"):
        out.append(parse(i, b if b not in (None, "about:blank") else None, ["cls", "can"]))
    for n in (60, 4400):
        for s in ("http://h:%s/" % ("9" * n), "http://h:%s1/" % ("0" * n), "http://%s/" % ("9" * n),
                  "http://0x%s/" % ("f" * n), "http://0%s/" % ("7" * n), "http://1.%s/" % ("0" * n),
                  "http://[::1.2.3.%s]/" % ("9" * n), "http://[%s]/" % ("1" * n), "http://%s/" % ("a." * (n // 20)),
                  "foo://%s/" % ("a" * (n // 4)), "http://h/%s" % ("/.." * (n // 40)), "data:%s" % (" " * (n // 4))):
            out.append(parse(s, None, ["cls", "can"]))
        for s in ("9" * n, "0x" + "f" * n, "0" * n, "1.2.3." + "9" * n, "0" + "7" * n):
            out.append(host(s, False, ["cls"]))
            for fn in ("host", "v4", "v6", "opaque", "domain"):
                out.append(hval(fn, s, []))
    for a, v in (("port", "9" * 4400), ("port", "0" * 4400 + "1"), ("host", "h:" + "9" * 4400)):
        for a in (a,):
            out.append(hist([new("http://h/"), setev(1, a, v)], ["raises", "cls", "href", "list"]))
    return out


# ------------------------------------------------------------------ C19, C20, C21
CL_UP = ["up", "upnf"]


def c19_fresh(g):
    x = g.r.random()
    if x < 0.5:
        s = g.absolute()
    else:
        s = g.pick(["http://", "foo://", "foo:", "file:///", "foo:/", "https://u:p@"]) + g.pick(["h", "h:8", "", "x"]) \
            + "/" + g.pick(["a", "a;p", ";", "a;b;c", "a;b/c;d", ";p", "a/b;", "a%3Bb"]) + g.tail()
    if g.p(0.3):
        return parse(g.relative(), g.base(), CL_UP)
    if g.p(0.2):
        enc, py = g.pick(QENCS)
        return parse("http://h/a;b?" + enc_text(g, enc).replace("#", "") + g.pick(["", "#f"]), None, CL_UP, enc, py)
    return parse(s, None, CL_UP)


def c19_seeds(tier):
    out = [parse(i, b if b not in (None, "about:blank") else None, CL_UP) for i, b in G.load_wpt("/repo")]
    for b in ("http://h", "http://u:p@h:8", "http://:p@h", "foo:", "foo://h", "file://", "data:x", "foo://u@h:0"):
        for p in ("", "/", "/a", "/a;p", "/a;p/b;q", ";", "/;", "/a;;p"):
            for q in ("", "?", "?q", "?q;r"):
                for f in ("", "#", "#f", "#f;g?h"):
                    out.append(parse(b + p + q + f, None, CL_UP))
    return out


OVR = ["scheme start", "host", "hostname", "port", "path start", "query", "fragment", "authority"]
AUTH_VALUES = ["h", "u@h", "u:p@h:8", ":p@h", "u:@h", "@h", ":@h:80", "a@b@h:443", "a:b:c@h/x", "u@", "u@/x", "u:p@h:8x", "\u00e9:'@h:0",
               "h:8/x", "x:y", "u@[::1]:9", "u@1.2", "@", "", ":", "u@:8", "h?q@x", "h#f@x", "u\\@h", "%41:%zz@h.:65536", "u@h@"]


def ovr_values(st):
    if st == "authority":
        return AUTH_VALUES
    return SET_VALUES[SETATTR[st]]


SETATTR = {"scheme start": "protocol", "authority": "host", "host": "host", "hostname": "hostname", "port": "port",
           "path start": "pathname", "query": "search", "fragment": "hash"}


def ovr(s, record, st, enc="utf-8", pyenc=None):
    c = {"k": "ovr", "s": cps(s), "rec": record, "st": st, "enc": enc, "env": [], "cl": ["cls", "errs"]}
    if pyenc:
        c["pyenc"] = pyenc
    return c


def mkrec(s):
    import urlstd.parse as P
    try:
        return rec(P.parse_url(s))
    except Exception:  # noqa
        return copy.deepcopy(NULLREC) | {"scheme": cps("http"), "host": {"k": "str", "v": cps("h")}}


def prep(r, st):
    """What the API setters do before they start the parser in a state."""
    if st == "path start":
        r["path"], r["opq"] = [], False
    elif st == "query":
        r["query"] = [[]]
    elif st == "fragment":
        r["frag"] = [[]]
    return r


def c20_hist(g, n=None):
    ev = [new(rnd_url(g), None, True)]
    for _ in range(n or g.pick([2, 3, 4, 6])):
        ev.append(rnd_raw(g, 1))
    return hist(ev, ["raises", "cls", "href", "list"])


def c20_fresh(g):
    if g.p(0.2):
        return c20_hist(g)
    st = g.pick(OVR)
    r = mkrec(rnd_url(g))
    if g.p(0.9):
        r = prep(r, st)
    elif st in ("query", "fragment", "path start"):
        r = prep(r, st)
    v = g.setter_value(SETATTR[st])
    if st == "scheme start" and g.p(0.7):
        v += ":"
    enc, py = ("utf-8", None)
    if st == "query" and g.p(0.4):
        enc, py = g.pick(QENCS)
        v = enc_text(g, enc)
    return ovr(v, r, st, enc, py)


def c20_seeds(tier):
    out = []
    for b in SET_BASES:
        for st in OVR:
            for v in ovr_values(st):
                out.append(ovr(v + (":" if st == "scheme start" else ""), prep(mkrec(b), st), st))
    return out


def c21_fresh(g):
    enc, py = g.pick(QENCS)
    t = enc_text(g, enc)
    x = g.r.random()
    if x < 0.75:
        sc = g.pick(["http://h/", "https://h/", "file:///", "ftp://h/", "foo://h/", "foo:x", "ws://h/", "wss://h/"])
        s = sc + g.pick(["", enc_text(g, enc).replace("#", "").replace("?", "")]) + "?" + t.replace("#", "") + g.pick(
            ["", "#" + enc_text(g, enc)])
        return parse(s, None, ["rec", "href", "up"], enc, py)
    if x < 0.9:
        return parse("?" + t, g.pick(["http://h/?\u00e9", "foo://h/", "file:///x", "ws://h/", "http://h/p?q#f"]),
                     ["rec", "href"], enc, py)
    if enc in ("windows-1251", "koi8-r"):
        t = t.replace("\u00e9", "")
    return pct(t, g.pick(["", "/?", "!'()*~", "&="]), g.p(0.4), enc, None if py in ("utf-16le",) else py) \
        if "16" not in (py or "") else \
        parse("http://h/?" + t, None, ["rec", "href"], enc, py)


def c21_seeds(tier):
    out = []
    for enc, py in QENCS:
        for sc in ("http://h/", "https://h/", "file:///", "ftp://h/", "foo://h/", "foo:x", "ws://h/", "wss://h/"):
            for ch in LEGACY[enc] + "\u65e5\U0001f308'\"<># ~%&":
                out.append(parse(sc + "?a" + ch + "b", None, ["rec", "href", "up"], enc, py))
            out.append(parse(sc + "\u00e9?\u65e5\u00e9#\u00e9", None, ["rec", "href", "up"], enc, py))
            out.append(parse(sc + "?\U0001f308&#12;'", None, ["rec", "href", "up"], enc, py))
            out.append(parse("?" + LEGACY[enc] + "\u65e5", sc + "?" + LEGACY[enc], ["rec", "href"], enc, py))
    for enc, py in ENCS:
        for c in range(128):
            out.append(parse("http://h/?\u65e5" + chr(c) + "\u00e9", None, ["rec", "href"], enc, py))
    return out


# ------------------------------------------------------------------ C22
CL_LOG = ["cls", "rec", "log"]


def c22_of(c):
    if c["k"] in ("parse", "host", "ovr"):
        c["cl"] = CL_LOG
        return c
    return None


def c22_fresh(g):
    x = g.r.random()
    if x < 0.2:
        return c22_of(c20_fresh(g)) or c22_fresh(g)
    if x < 0.4:
        return c22_of(g.pick([c08_fresh, c09_fresh, c10_fresh])(g)) or c22_fresh(g)
    return c22_of(c14_fresh(g))


def c22_seeds(tier):
    out = [c22_of(c) for f in (c14_seeds, c08_seeds, c09_seeds, c10_seeds) for c in f("quick")]
    out += [c22_of(c) for c in c20_seeds("quick")[::5]]
    out = [c for c in out if c]
    return out[::2] if tier == "quick" else out


# ------------------------------------------------------------------ C23
CL_Q = ["q", "rec"]
HOSTV = [{"k": "none", "v": []}, {"k": "str", "v": []}, {"k": "str", "v": cps("h")}, {"k": "v4", "v": [0, 1]}, {"k": "v4", "v": [0, 0]},
         {"k": "v6", "v": [0] * 8}, {"k": "v6", "v": [1, 0, 0, 2, 0, 0, 0, 3]}, {"k": "str", "v": cps("localhost")}]


def rq(r, alt=None):
    return {"k": "rq", "rec": r, "alt": alt or r, "env": [], "cl": ["origin", "eq"]}


def rnd_part(r, g):
    """Another value for one component of a record."""
    r = copy.deepcopy(r)
    k = g.pick(["scheme", "user", "pass", "host", "port", "path", "query", "frag"])
    if k == "scheme":
        r[k] = cps(g.pick(["http", "https", "ws", "wss", "ftp", "file", "foo", "blob", "data", "", "fil", "files", "h", "httpx"]))
    elif k in ("user", "pass"):
        r[k] = cps(g.pick(["", "u", "p", ":", "%40", "0"]))
    elif k == "host":
        r[k] = dict(g.pick(HOSTV))
    elif k == "port":
        r[k] = g.pick([-1, 0, 1, 21, 80, 443, 65535, 8080])
    elif k == "path":
        if g.p(0.2):
            r["opq"], r["path"] = True, [cps(g.pick(["", "x", "/x", "http://h:8/", " ", "x/../y", "https:h", "file:///x"]))]
            r["host"] = dict(HOSTV[0])
        else:
            r["opq"] = False
            r["path"] = [cps(g.pick(["", "", "a", "b", "C:", "c|", "..", ".", "x:", "%2e", "C:a", "0"])) for _ in range(g.r.randint(0, 4))]
    else:
        r[k] = g.pick([[], [[]], [cps("q")], [cps("?")], [cps("#")], [cps("q=1&r")]])
    return r


def c23_fresh(g):
    x = g.r.random()
    if x < 0.2:
        c = c01_fresh(g)
        c["cl"] = CL_Q
        return c
    if x < 0.3:
        c = c02_fresh(g)
        if c["k"] != "parse":
            return c23_fresh(g)
        c["cl"] = CL_Q
        return c
    if x < 0.5:
        c = c20_fresh(g)
        if c["k"] != "ovr":
            return c23_fresh(g)
        c["cl"] = CL_Q
        return c
    r = mkrec(rnd_url(g))
    for _ in range(g.r.randint(0, 4)):
        r = rnd_part(r, g)
    return rq(r, rnd_part(r, g) if g.p(0.8) else mkrec(rnd_url(g)))


def c23_seeds(tier):
    return [rq(mkrec(a), mkrec(b)) for a in SET_BASES for b in SET_BASES]


# ------------------------------------------------------------------ C24
def vs_of(c):
    """An ordinary case as a call given a validity state."""
    if c["k"] == "parse" and c["enc"] == "utf-8":
        return [{"f": f, "s": c["s"], "base": c["base"]} for f in ("parse", "can", "valid")]
    if c["k"] == "host":
        return [{"f": "host", "s": c["s"], "ns": c["ns"]}]
    if c["k"] == "hval":
        return [{"f": "hval", "fn": c["fn"], "s": c["s"]}]
    if c["k"] == "ovr" and c["enc"] == "utf-8":
        return [{"f": "ovr", "s": c["s"], "rec": c["rec"], "st": c["st"]}]
    return []


def vs_event(g):
    while True:
        e = vs_of(g.pick([c14_fresh, c15_fresh, c15_fresh, c08_fresh, c09_fresh, c10_fresh, c20_fresh])(g))
        if e:
            return g.pick(e)


def vs(ev):
    return {"k": "vs", "ev": ev, "env": [], "cl": []}


def c24_fresh(g):
    return vs([vs_event(g) for _ in range(g.r.randint(1, 5))])


def c24_seeds(tier):
    out = []
    for f in (c14_seeds, c15_seeds, c08_seeds, c09_seeds, c10_seeds):
        out += [e for c in f("quick") for e in vs_of(c)]
    out = out[::7] if tier == "quick" else out[::3]
    return [vs(copy.deepcopy(out[i:i + 3])) for i in range(0, len(out) - 3, 3)]


# ------------------------------------------------------------------ C25
CL_SEQ = ["rec", "href", "g", "list", "errs", "cls", "q"]
CL_SEQH = ["raises", "ret", "href", "list", "pars", "g"]
EASY = [("utf-8", None), ("windows-1252", None), ("windows-1252", "cp1252"), ("iso-8859-1", "latin-1"), ("us-ascii", None),
        ("iso-8859-2", None), ("koi8-r", None), ("utf-8", "utf-16le")]


def recased(s):
    return s.swapcase()


def fam_url(s):
    """Calls about one URL text that differ in one argument."""
    out = [parse(s, None, CL_SEQ), parse(s, None, ["rec", "valid", "can"])]
    out += [parse(s, b, CL_SEQ) for b in ("http://h/a/b?q#f", "foo://u@h/x", "file:///C:/d", "mailto:x")]
    out += [parse(s, None, ["rec", "href", "errs"], e, p) for e, p in EASY[1:5]]
    out += [parse(s, "http://h/", ["rec", "href"], "windows-1252"), parse(recased(s), None, CL_SEQ), parse(s + "#", None, CL_SEQ),
            parse("http://h/", s, CL_SEQ), parse("?x", s, CL_SEQ), *[parse(r, s, ["rec", "href"], e) for r in ("", "#y") for e in (
                "utf-8", "windows-1252", "koi8-r")], parse(s, None, ["up", "upnf"]), parse(s, None, ["rec", "origin"]),
            parse(s, s, CL_SEQ), org(s, s), eq(s, s + "#x"), eq(s, recased(s))]
    out += [hist([new(s)] + ev, CL_SEQH) for ev in (
        [], [setev(1, "pathname", "/q/./r")], [setev(1, "search", "?k=v"), {"op": "upar", "i": 1, "p": pop("append", "k", "w")}],
        [setev(1, "protocol", "ws"), setev(1, "host", "n:80")], [{"op": "npar", "x": {"k": "upar", "i": 1}}, new("//o", bobj(1))],
        [setev(1, "port", "81"), setev(1, "hash", "z"), {"op": "upar", "i": 1, "p": pop("sort")}])]
    return out


def fam_host(s):
    out = [host(s, ns, ["cls", "errs"]) for ns in (False, True)] + [hval(f, s) for f in ("host", "domain", "v4", "v6", "opaque", "scheme")]
    out += [host(recased(s), False), hval("host", recased(s)), host(s + ".", False), host("[" + s + "]", True), host("x." + s, False)]
    out += [{"k": "idna", "d": cps(x), "strict": st, "env": [], "cl": []} for x in (s, recased(s)) for st in (False, True)]
    out += [parse(p + s + q, None, CL_SEQ) for p, q in (("http://", "/"), ("foo://", "/"), ("file://", "/x"), ("ws://", ":80"),
                                                        ("http://u:p@", ":8/"))]
    out += [hist([new(b), setev(1, a, s)], CL_SEQH) for b, a in (("http://o:8/p", "host"), ("foo://o/p", "hostname"), ("file:///p", "host"))]
    return out


def fam_enc(s):
    out = [pct(s, safe, plus, e, p, u8) for safe in ("", "/", "&=") for plus, e, p, u8 in (
        (False, "utf-8", None, False), (True, "utf-8", None, True), (False, "windows-1252", None, False), (True, "us-ascii", None, False))]
    out += [pct(s, "/?", False, e, p) for e, p in EASY[2:7]]
    out += [{"k": "dec", "s": cps(s), "env": [], "cl": []}, {"k": "u8e", "s": cps(s), "env": [], "cl": []},
            {"k": "dec", "s": cps(recased(s)), "env": [], "cl": []}]
    out += [parse(sc + "?" + s.replace("#", ""), None, ["rec", "href"], e, p) for sc in ("http://h/", "foo://h/") for e, p in EASY[:4]]
    return out


def fam_form(s):
    ps = [[cps(s), cps("v")], [cps("k"), cps(s)]]
    b = list(s.encode("utf-8", "replace"))
    out = [{"k": "frt", "ps": x, "env": [], "cl": []} for x in (ps, ps[::-1], ps + ps)]
    out += [dict({"k": "fenc", "ps": x, "enc": e, "env": [], "cl": []}, **({"pyenc": p} if p else {})) for x in (ps, ps[::-1]) for e, p in EASY[:7]]
    out += [{"k": "fdec", "b": x, "env": [], "cl": []} for x in (b, b + [38], list(b"x=") + b, b + b, [c ^ 32 if 65 <= c & ~32 <= 90 else c for c in b])]
    out += [{"k": "u8d", "b": x, "env": [], "cl": []} for x in (b, b[::-1])]
    out += [hist([{"op": "npar", "x": x}] + ev, CL_SEQH) for x in (
        {"k": "str", "s": cps(s)}, {"k": "pairs", "ps": ps}, {"k": "map", "ps": ps}) for ev in (
            [], [{"op": "par", "i": 1, "p": pop("append", "k", "v")}, {"op": "par", "i": 1, "p": pop("sort")}],
            [{"op": "pqry", "i": 1, "p": pop("get_all", s)}, {"op": "npar", "x": {"k": "par", "i": 1}}, {"op": "par", "i": 2, "p": pop("delete", "k")}])]
    return out


FAMS = [fam_url, fam_host, fam_enc, fam_form]


def seq(cs):
    cs = copy.deepcopy(cs)
    if zlib.crc32(json.dumps(cs, sort_keys=True).encode()) % 4 == 0:    # what it logs is a result
        for c in cs:
            if c["k"] in ("parse", "host", "ovr"):
                c["cl"] = c["cl"] + ["log"]
    return {"k": "seq", "cs": cs, "env": [], "cl": []}


def c25_text(g, f):
    if f is fam_url:
        return rnd_url(g) if g.p(0.6) else g.absolute()
    if f is fam_host:
        x = g.r.random()
        return g.pick([c08_fresh, c09_fresh, c10_fresh])(g).get("s", []) if x < 0.6 else cps(idn(g))
    if f is fam_enc:
        return enc_text(g, g.pick(EASY)[0])
    return "&".join(a + "=" + b for a, b in g.pairs()) if g.p(0.6) else g.value()


def c25_fresh(g):
    f = g.pick(FAMS)
    s = c25_text(g, f)
    s = txt(s) if isinstance(s, list) else s
    s = s[:200]
    cs = f(s)
    n = g.r.randint(1, 4)
    out = [g.pick(cs) for _ in range(n)]
    if g.p(0.3):
        f = g.pick(FAMS)
        out.insert(g.r.randint(0, n), g.pick(f(s)))
    return seq(out + [g.pick(out)])


SEQ_TEXTS = [
    ["http://h/", "http://u:p@h:8/a/../b?q=1&r#f", "file:///C:/x/..", "foo:x y", "foo://h/%zz", "blob:http://h:8/x", "http://\u00e9.x/\u00e9?\u00e9#\u00e9",
     "http://h:x/", "//h/p", "?a=b", "", "http://1.2/", "ws://[::1]:80/?'", "HTTP://H/%41", "mailto:a?b", "http:h", " http://h/a b\t", "/p;x?y;z"],
    ["h", "H", "1.2.3.4", "0x7f.1", "[::1]", "a b", "\u00e9.com", "xn--9ca", "a%41", "", "x_y", "localhost", "\u00df", "a.", "256.1", "::1", "1:", "http", "%00"],
    ["", "a", "a b", "\u00e9", "\u20ac", "~!'()*", "%41%zz+", "\ud83c\udf08", "a/b?c&d=e", "\u0416", "\x7f\x80", "\ud800", "-._~", "A z"],
    ["", "a=b", "a=b&a=c", "a+b=%41", "=", "&&", "\u00e9", "a", "%", "a=b=c", "?a", "~", "\ud800", "A=B", " "],
]


def c25_seeds(tier):
    out = []
    for f, ts in zip(FAMS, SEQ_TEXTS):
        for k, t in enumerate(ts):
            cs = f(t)
            for i in range(len(cs)):
                j = (i * 7 + k * 3 + 1) % len(cs)
                out.append(seq([cs[i], cs[j], cs[i]]))
    return out if tier == "thorough" else out[::2]


PLANS = {
    "C25": dict(fresh=c25_fresh, seeds=c25_seeds, iters=5000, cap=1000),
    "C01": dict(fresh=c01_fresh, seeds=c01_seeds, iters=9000, cap=1400),
    "C02": dict(fresh=c02_fresh, seeds=c02_seeds, event=c02_event, iters=8000, cap=1300),
    "C03": dict(fresh=c03_fresh, seeds=c03_seeds, event=c03_event, iters=8000, cap=1500),
    "C04": dict(fresh=c04_fresh, seeds=c04_seeds, event=c03_event,
                iters=7000, cap=900),
    "C05": dict(fresh=c05_fresh, seeds=c05_seeds, event=c05_event, iters=6000, cap=800),
    "C06": dict(fresh=c06_fresh, seeds=c06_seeds, event=c06_event, iters=8000, cap=1200),
    "C07": dict(fresh=c07_fresh, seeds=c07_seeds, iters=12000, cap=2000),
    "C08": dict(fresh=c08_fresh, seeds=c08_seeds, iters=10000, cap=2000),
    "C09": dict(fresh=c09_fresh, seeds=c09_seeds, iters=10000, cap=2000),
    "C10": dict(fresh=c10_fresh, seeds=c10_seeds, iters=10000, cap=2000),
    "C11": dict(fresh=c11_fresh, seeds=c11_seeds, iters=10000, cap=1500),
    "C12": dict(fresh=c12_fresh, seeds=c12_seeds, event=c03_event, iters=8000, cap=1200),
    "C13": dict(fresh=c13_fresh, seeds=c13_seeds, iters=8000, cap=1500),
    "C14": dict(fresh=c14_fresh, seeds=c14_seeds, iters=7000, cap=1200),
    "C15": dict(fresh=c15_fresh, seeds=c15_seeds, iters=10000, cap=2000),
    "C16": dict(fresh=c16_fresh, seeds=c16_seeds, event=c16_event, iters=4000, cap=700),
    "C17": dict(fresh=c17_fresh, seeds=c17_seeds, event=c17_event, iters=8000, cap=1400),
    "C18": dict(fresh=c18_fresh, seeds=c18_seeds, event=c18_event, iters=8000, cap=1500),
    "C19": dict(fresh=c19_fresh, seeds=c19_seeds, iters=8000, cap=1500),
    "C20": dict(fresh=c20_fresh, seeds=c20_seeds, iters=8000, cap=1500),
    "C22": dict(fresh=c22_fresh, seeds=c22_seeds, iters=3000, cap=900, bulk=5000),
    "C23": dict(fresh=c23_fresh, seeds=c23_seeds, iters=8000, cap=1500),
    "C24": dict(fresh=c24_fresh, seeds=c24_seeds, event=vs_event, iters=5000, cap=1000),
    "C21": dict(fresh=c21_fresh, seeds=c21_seeds, iters=8000, cap=1500),
}
