"""Recorder: runs the real urlstd code on generated operations and writes down
everything observable at its public API.  It never judges; the TLA+
specification (spec/Conf.tla) does."""
import copy
import logging
import signal

import urlstd.parse as P
from urlstd.error import URLParseError

MAXINT = 2**31 - 1
NL = logging.getLogger("urlstd")
NL.addHandler(logging.NullHandler())
NL.propagate = False


def cps(s):
    return [ord(c) for c in s]


def txt(a):
    return "".join(map(chr, a))


def opt(s):
    return [] if s is None else [cps(s)]


def host(h):
    if h is None:
        return {"k": "none", "v": []}
    if isinstance(h, str):
        return {"k": "str", "v": cps(h)}
    if isinstance(h, bool):
        return {"k": "other", "v": []}
    if isinstance(h, int):
        return {"k": "v4", "v": [clamp(h >> 16), h & 0xFFFF]}
    return {"k": "v6", "v": [clamp(x) for x in h]}


def unhost(d):
    k, v = d["k"], d["v"]
    if k == "none":
        return None
    if k == "str":
        return txt(v)
    if k == "v4":
        return (v[0] << 16) + v[1]
    return tuple(v)


def clamp(n):
    return max(-MAXINT, min(MAXINT, n))


def rec(u):
    opq = isinstance(u.path, str)
    return {
        "scheme": cps(u.scheme),
        "user": cps(u.username),
        "pass": cps(u.password),
        "host": host(u.host),
        "port": -1 if u.port is None else clamp(int(u.port)),
        "opq": opq,
        "path": [cps(u.path)] if opq else [cps(x) for x in u.path],
        "query": opt(u.query),
        "frag": opt(u.fragment),
    }


def unrec(d):
    return P.URLRecord(
        scheme=txt(d["scheme"]),
        username=txt(d["user"]),
        password=txt(d["pass"]),
        host=unhost(d["host"]),
        port=None if d["port"] == -1 else d["port"],
        path=txt(d["path"][0]) if d["opq"] else [txt(x) for x in d["path"]],
        query=txt(d["query"][0]) if d["query"] else None,
        fragment=txt(d["frag"][0]) if d["frag"] else None,
    )


NULLREC = {
    "scheme": [], "user": [], "pass": [], "host": {"k": "none", "v": []},
    "port": -1, "opq": False, "path": [], "query": [], "frag": [],
}
GETTERS = ["href", "origin", "protocol", "username", "password", "host",
           "hostname", "port", "pathname", "search", "hash"]


def getters(u):
    return {g: cps(getattr(u, g)) for g in GETTERS}


def pairs(it):
    return [[cps(a), cps(b)] for a, b in it]


def exc_name(e):
    return type(e).__name__


def errs(v):
    """Validation errors, oldest first, with the internal consistency of the
    ValidityState folded in."""
    out = list(v.error_types)[::-1]
    if (
        len(v.error_types) != v.validation_errors
        or len(v.descriptions) != v.validation_errors
        or v.valid != (v.validation_errors == 0)
    ):
        out.append("inconsistent-ValidityState")
    return out


class Log(logging.Handler):
    """What reaches the log while the block runs: every message is formatted;
    records below INFO are not validation errors."""

    def __init__(self, level=logging.DEBUG):
        super().__init__(logging.DEBUG)
        self.at, self.out = level, []

    def emit(self, r):
        self.out.append((r.levelno, r.getMessage()))

    def __enter__(self):
        self.old = NL.level
        NL.setLevel(self.at)
        NL.addHandler(self)
        return self

    def __exit__(self, *_):
        NL.removeHandler(self)
        NL.setLevel(self.old)

    def seen(self):
        o = [(a, b) for a, b in self.out if a >= logging.INFO]
        return {"l": ["E" if a == logging.ERROR else "I" if a == logging.INFO else "?" for a, _ in o],
                "t": [err_type(b) for _, b in o]}


ERR_TYPES = (
    "domain-to-ASCII domain-to-Unicode domain-invalid-code-point host-invalid-code-point IPv4-empty-part "
    "IPv4-too-many-parts IPv4-non-numeric-part IPv4-non-decimal-part IPv4-out-of-range-part IPv6-unclosed "
    "IPv6-invalid-compression IPv6-too-many-pieces IPv6-multiple-compression IPv6-invalid-code-point "
    "IPv6-too-few-pieces IPv4-in-IPv6-too-many-pieces IPv4-in-IPv6-invalid-code-point "
    "IPv4-in-IPv6-out-of-range-part IPv4-in-IPv6-too-few-parts invalid-URL-unit "
    "special-scheme-missing-following-solidus missing-scheme-non-relative-URL invalid-reverse-solidus "
    "invalid-credentials host-missing port-out-of-range port-invalid file-invalid-Windows-drive-letter "
    "file-invalid-Windows-drive-letter-host").split()


def err_type(msg):
    t = msg.split(":")[0]
    return t if t in ERR_TYPES else "undefined"


def logs(f):
    """What f(**kwargs) logs: by default, when only errors are asked for, with
    a state that allows logging, and with one that does not."""
    o = {}

    def go(level, **kw):
        with Log(level) as lg:
            try:
                f(**kw)
            except URLParseError:
                pass
        return lg
    o["log"] = go(logging.DEBUG).seen()
    o["logerr"] = go(logging.ERROR).seen()
    v = P.ValidityState(disable_logging=False)
    lg = go(logging.DEBUG, validity=v)
    o["logon"] = lg.seen()
    # what is logged is what is described
    o["logsame"] = [b for a, b in lg.out if a >= logging.INFO] == list(v.descriptions)[::-1]
    o["logoff"] = go(logging.DEBUG, validity=P.ValidityState()).seen()
    # at which level is nothing to the state
    w = P.ValidityState(disable_logging=False)
    if go(logging.ERROR, validity=w).seen() != o["logerr"] or errs(w) != errs(v):
        o["logsame"] = False
    return o


def origin(o):
    if o is None:
        return []
    return [[cps(o.scheme), host(o.host), -1 if o.port is None else o.port]]


def queries(u):
    """What a record says about itself (RecQ)."""
    q = {"opq": u.has_opaque_path(), "special": u.is_special(), "notspecial": u.is_not_special(),
         "creds": u.includes_credentials(), "nocreds": u.cannot_have_username_password_port(),
         "host": cps(u.serialize_host()), "path": cps(u.serialize_path()), "url": cps(u.serialize_url()),
         "nf": cps(u.serialize_url(True))}
    if str(u) != u.href or u.href != txt(q["url"]) or u.serialize_url(False) != u.href \
            or u.serialize_url(exclude_fragment=True) != txt(q["nf"]):
        q["url"].append(-1)
    x = copy.deepcopy(u)
    if not isinstance(x.path, str) and x.shorten_path() is not None:
        q["path"].append(-1)
    return dict(q, short=rec(x))


def r_rq(c):
    u = unrec(c["rec"])
    o = {"q": queries(u)}
    if "origin" in c["cl"]:
        o["origin"] = origin(u.origin)
    if "eq" in c["cl"]:
        a, b = unrec(c["rec"]), unrec(c["alt"])
        o["eq"] = u == a and not u != a and u.equals(a) and u.equals(a, True) and u == u
        o["same"], o["samenf"] = u.equals(b), u.equals(b, exclude_fragments=True)
        if (u == b) != o["same"] or (u != b) == o["same"] or b.equals(u) != o["same"] or b.equals(u, True) != o["samenf"]:
            o["eq"] = False
    o["rec"] = rec(u)
    return o


VS = {
    "parse": lambda e, **kw: P.parse_url(txt(e["s"]), txt(e["base"][0]) if e["base"] else None, **kw),
    "ovr": lambda e, **kw: P.BasicURLParser.parse(txt(e["s"]), url=unrec(e["rec"]), state_override=STATES[e["st"]], **kw),
    "can": lambda e, **kw: P.URL.can_parse(txt(e["s"]), txt(e["base"][0]) if e["base"] else None, **kw),
    "valid": lambda e, **kw: P.URLValidator.is_valid(txt(e["s"]), txt(e["base"][0]) if e["base"] else None, **kw),
    "host": lambda e, **kw: P.Host.parse(txt(e["s"]), e["ns"], **kw),
    "hval": lambda e, **kw: VAL[e["fn"]]()(txt(e["s"]), **kw),
}


def vs_call(e, **kw):
    try:
        r = VS[e["f"]](e, **kw)
        return bool(r) if e["f"] in ("can", "valid", "hval") else True
    except URLParseError:
        if e["f"] in ("can", "valid", "hval"):
            raise RuntimeError("raised")
        return False


def r_vs(c):
    """Calls that share one ValidityState."""
    v = kept(P.ValidityState())
    for e in c["ev"]:
        e["obs"] = {"ok": vs_call(e, validity=v), "errs": errs(v),
                    "tidy": v.disable_logging is True and all(
                        t == (d.split(":")[0] if d.startswith(t + ":") else "undefined") for t, d in zip(v.error_types, v.descriptions))}
        e["obs"]["plain"] = vs_call(e)
        if errs(v) != e["obs"]["errs"]:
            e["obs"]["tidy"] = False


def r_parse(c):
    s = txt(c["s"])
    base = txt(c["base"][0]) if c["base"] else None
    enc = c.get("pyenc", c["enc"])
    cl = set(c["cl"])
    o = {"ok": True, "cls": "", "rec": NULLREC, "href": [], "hrefnf": []}
    u = None
    if "errs" in cl:
        v = P.ValidityState()
        v.prepend("stale-error: left by an earlier call")
        # can_parse resets the state it is given; parse_url appends to it.
        v.reset()
    else:
        v = None
    try:
        kw = {"validity": v} if v is not None else {}
        u = kept(P.parse_url(s, base, enc, **kw))
    except URLParseError as e:
        o["ok"], o["cls"] = False, exc_name(e)
    if v is not None:
        o["errs"] = errs(v)
    if u is not None:
        o["rec"], o["href"] = rec(u), cps(u.serialize_url())
        o["hrefnf"] = cps(u.serialize_url(True))
        if str(u) != u.href or u.href != u.serialize_url():
            o["href"] = o["href"] + [-1]
        if "q" in cl:
            o["q"] = queries(u)
        if "origin" in cl:
            o["origin"] = origin(u.origin)
    if cl & {"g", "list"}:
        try:
            x = kept(P.URL(s, base))
            o["g"] = getters(x)
            if str(x) != x.href:
                o["g"]["href"].append(-1)
            o["list"] = pairs(x.search_params)
            o["gok"] = True
        except URLParseError:
            o["g"], o["list"] = {}, []
            o["ok"] = False
        else:
            if u is None:
                o["ok"] = True
    if "can" in cl:
        o["can"] = bool(P.URL.can_parse(s, base))
    if "valid" in cl:
        v = P.ValidityState()
        v.prepend("stale-error: left by an earlier call")
        o["valid"] = bool(P.URLValidator.is_valid(s, base, enc, validity=v))
        o["verrs"] = errs(v)
        if bool(P.URLValidator.is_valid(s, base, enc)) != o["valid"]:
            o["verrs"].append("differs-without-ValidityState")
    if "up" in cl or "upnf" in cl:
        for key, fl in (("up", True), ("upnf", False)):
            try:
                o[key] = [cps(x) for x in P.urlparse(s, base, enc, fl)]
            except URLParseError:
                o[key] = []
                o["ok"] = False
            else:
                if u is None:
                    o["ok"] = True
    if "log" in cl:
        o["log"] = logs(lambda **kw: P.parse_url(s, base, enc, **kw))
        if enc == "utf-8":
            with Log() as lg:
                try:
                    P.URL(s, base)
                except URLParseError:
                    pass
            if lg.seen() != o["log"]["log"]:
                o["log"]["logsame"] = False
    if "rt" in cl:
        o["rt"] = {"ok": False, "rec": NULLREC, "href": []}
        if u is not None:
            try:
                u2 = kept(P.parse_url(u.href))
                o["rt"] = {"ok": True, "rec": rec(u2), "href": cps(u2.href)}
            except URLParseError:
                pass
    return o


STATES = {
    "scheme start": P.URLParserState.SCHEME_START_STATE,
    "authority": P.URLParserState.AUTHORITY_STATE,
    "host": P.URLParserState.HOST_STATE,
    "hostname": P.URLParserState.HOSTNAME_STATE,
    "port": P.URLParserState.PORT_STATE,
    "path start": P.URLParserState.PATH_START_STATE,
    "query": P.URLParserState.QUERY_STATE,
    "fragment": P.URLParserState.FRAGMENT_STATE,
}


def r_ovr(c):
    u = unrec(c["rec"])
    v = P.ValidityState()
    o = {"ok": True, "cls": ""}
    try:
        r = P.BasicURLParser.parse(
            txt(c["s"]), encoding=c.get("pyenc", c["enc"]), url=u,
            state_override=STATES[c["st"]], validity=v)
        if r is not u:
            o["cls"] = "!not-in-place"
            u = r
    except URLParseError as e:
        o["ok"], o["cls"] = False, exc_name(e)
    o["errs"] = errs(v)
    o["rec"] = rec(kept(u))
    if "q" in c["cl"]:
        o["q"] = queries(u)
    if "log" in c["cl"]:
        o["log"] = logs(lambda **kw: P.BasicURLParser.parse(
            txt(c["s"]), encoding=c.get("pyenc", c["enc"]), url=unrec(c["rec"]),
            state_override=STATES[c["st"]], **kw))
    return o


def one_host(s, ns):
    v = P.ValidityState()
    o = {"ok": True, "cls": "", "h": host(None), "ser": []}
    h = None
    try:
        h = P.Host.parse(s, ns, validity=v)
        o["h"], o["ser"] = host(h), cps(P.Host.serialize(h))
    except URLParseError as e:
        o["ok"], o["cls"] = False, exc_name(e)
    o["errs"] = errs(v)
    return o


def r_host(c):
    o = one_host(txt(c["s"]), c["ns"])
    if "idem" in c["cl"]:
        o["again"] = one_host(txt(o["ser"]), c["ns"]) if o["ok"] else o | {}
        o["again"].pop("again", None)
    if "log" in c["cl"]:
        o["log"] = logs(lambda **kw: P.Host.parse(txt(c["s"]), c["ns"], **kw))
    return o


VAL = {
    "host": lambda: P.HostValidator.is_valid,
    "domain": lambda: P.HostValidator.is_valid_domain,
    "v4": lambda: P.HostValidator.is_valid_ipv4_address,
    "v6": lambda: P.HostValidator.is_valid_ipv6_address,
    "opaque": lambda: P.HostValidator.is_valid_opaque_host,
    "scheme": lambda: P.URLValidator.is_valid_url_scheme,
}


def r_hval(c):
    f = VAL[c["fn"]]()
    v = P.ValidityState()
    v.prepend("stale-error: left by an earlier call")
    s = txt(c["s"])
    r = bool(f(s, validity=v))
    o = {"valid": r, "errs": errs(v), "plain": bool(f(s))}
    return o


def r_idna(c):
    d, st = txt(c["d"]), c["strict"]
    o = {"ok": True, "a": [], "ubad": False, "u": []}
    try:
        o["a"] = cps(P.IDNA.domain_to_ascii(d, st))
    except URLParseError:
        o["ok"] = False
    v = P.ValidityState()
    try:
        o["u"] = cps(P.IDNA.domain_to_unicode(d, st, validity=v))
    except URLParseError:
        pass
    o["ubad"] = v.validation_errors > 0
    return o


def r_v6ser(c):
    s = P.Host.serialize(tuple(c["v"]))
    b = one_host(s, True)
    ser = s[1:-1] if s[:1] == "[" and s[-1:] == "]" else "?" + s
    return {"s": cps(ser), "back": {"ok": b["ok"], "h": b["h"]}}


def r_v4ser(c):
    s = P.Host.serialize((c["v"][0] << 16) + c["v"][1])
    b = one_host(s, False)
    return {"s": cps(s), "back": {"ok": b["ok"], "h": b["h"]}}


def r_pct(c):
    if c["enc"] == "utf-8" and c.get("u8"):
        return cps(P.utf8_percent_encode(txt(c["s"]), txt(c["safe"]), c["plus"]))
    return cps(P.string_percent_encode(
        txt(c["s"]), txt(c["safe"]), c.get("pyenc", c["enc"]), c["plus"]))


def r_dec(c):
    return list(P.string_percent_decode(txt(c["s"])))


def r_u8d(c):
    return cps(P.utf8_decode(bytes(c["b"])))


def r_u8e(c):
    return list(P.utf8_encode(txt(c["s"])))


def r_fenc(c):
    return cps(P.urlencode([(txt(a), txt(b)) for a, b in c["ps"]],
                           c.get("pyenc", c["enc"])))


def r_fdec(c):
    return pairs(kept(P.parse_qsl(bytes(c["b"]))))


def r_frt(c):
    return pairs(kept(P.parse_qsl(
        P.urlencode([(txt(a), txt(b)) for a, b in c["ps"]]).encode("ascii"))))


def r_org(c):
    try:
        a, b = kept(P.parse_url(txt(c["s"]))), kept(P.parse_url(txt(c["t"])))
        u, w = kept(P.URL(txt(c["s"]))), kept(P.URL(txt(c["t"])))
    except URLParseError:
        return {"ok": False}
    x, y = a.origin, b.origin
    o = {"ok": True, "o1": origin(x), "o2": origin(y),
         "s1": cps(u.origin), "s2": cps(w.origin), "so": False, "sod": False}
    if x is not None and y is not None:
        o["so"] = x.is_same_origin(y)
        dx = x._replace(domain=txt(c["da"][0]) if c["da"] else None)
        dy = y._replace(domain=txt(c["db"][0]) if c["db"] else None)
        o["sod"] = dx.is_same_origin_domain(dy)
        if x.domain is not None or y.domain is not None:
            o["o1"] = ["domain"]
        if y.is_same_origin(x) != o["so"] or dy.is_same_origin_domain(dx) != o["sod"]:
            o["o1"] = ["asymmetric"]
        if str(x) != u.origin:
            o["s1"].append(-1)
    return o


def r_eq(c):
    s, t = txt(c["s"]), txt(c["t"])
    try:
        a, b = kept(P.URL(s)), kept(P.URL(t))
        x, y = kept(P.parse_url(s)), kept(P.parse_url(t))
    except URLParseError:
        return {"ok": False}
    return {"ok": True, "eq": a == b, "ne": a != b, "eqf": a.equals(b),
            "eqnf": a.equals(b, exclude_fragments=True), "req": x == y,
            "reqnf": x.equals(y, True),
            # nothing but URLs equals a URL
            "sym": (b == a) == all((v == w) is False and (v != w) is True for v in (a, x, a.search_params)
                                   for w in (None, s, 1, a.href))}


# ---------------------------------------------------------------- histories
class Raw:
    """A URL record with an attached URLSearchParams (the low-level API)."""

    def __init__(self, s, base):
        self.r = P.parse_url(s, base)
        self.search_params = P.URLSearchParams(self.r)

    @property
    def href(self):
        return self.r.href


class Mutated(Exception):
    """An argument was changed by the callee."""


class World:
    def __init__(self):
        self.urls, self.pars, self.held, self.args = [], [], [], []
        self.shared = 0     # so many of the first URLs are other threads' too: they are only read

    def share(self):
        w = World()
        w.urls, w.held, w.shared = self.urls[:], self.held[:], len(self.urls)
        return w

    def fill(self, e):
        """Values a program takes from its own objects: a component of a URL
        (vf: object, attribute) or a pair of a list (nf, wf: position)."""
        f = e.pop("vf", None)
        if f and self.urls:
            u = self.urls[(f[0] - 1) % len(self.urls)]
            if not isinstance(u, Raw) or f[1] == "href":
                e["v" if "v" in e else "s"] = cps(getattr(u, f[1]))
        p = e.get("p")
        if p and ("nf" in p or "wf" in p):
            p = e["p"] = dict(p)
            l = list(self.urls[e["i"] - 1].search_params if e["op"][0] == "u" else self.pars[e["i"] - 1])
            n, v = p.pop("nf", None), p.pop("wf", None)
            if l and n is not None:
                p["n"] = cps(l[n % len(l)][0])
            if l and v is not None and p["op"] in ("append", "set", "delete", "has"):
                p["v"] = [cps(l[v % len(l)][1])]
        return e

    def base(self, b):
        if b["k"] == "none":
            return None
        if b["k"] == "str":
            return txt(b["s"])
        u = self.urls[b["i"] - 1]
        return u.r if isinstance(u, Raw) else u

    def fit(self, e):
        """Point the event at existing objects; False: there are none."""
        nu, npar = len(self.urls), len(self.pars)

        def wrap(d, k, n):
            if n == 0:
                return False
            d[k] = (d[k] - 1) % n + 1
            return True

        op = e["op"]
        if self.shared and op in ("set", "upar"):
            own = nu - self.shared
            if not own:
                return False
            if not self.shared < e["i"] <= nu:
                e["i"] = self.shared + (e["i"] - 1) % own + 1
        if op in ("new", "can"):
            b = e["b"]
            if b["k"] == "obj":
                if not wrap(b, "i", nu):
                    return False
                u = self.urls[b["i"] - 1]
                if isinstance(u, Raw) and not e.get("raw"):
                    return False
                if not isinstance(u, Raw) and e.get("raw"):
                    return False
            return True
        if op in ("set", "upar", "uqry"):
            if not wrap(e, "i", nu):
                return False
            return not (op == "set" and isinstance(self.urls[e["i"] - 1], Raw))
        if op in ("shorten", "rovr", "attach"):
            if not wrap(e, "i", nu):
                return False
            u = self.urls[e["i"] - 1]
            if not isinstance(u, Raw):
                return False
            r = u.r
            if op == "shorten":
                return not r.has_opaque_path()
            if op == "rovr":
                st = e["st"]
                if st in ("path start", "host", "hostname", "authority") and r.has_opaque_path():
                    return False
                if st in ("username", "port", "authority") and r.cannot_have_username_password_port():
                    return False
                if not e["prep"] and (st == "query" and r.query is None or st == "fragment" and r.fragment is None):
                    e["prep"] = True
            return True
        if op == "npar":
            x = e["x"]
            if x["k"] == "par":
                return wrap(x, "i", npar)
            if x["k"] == "upar":
                return wrap(x, "i", nu)
            return True
        if op in ("par", "pqry"):
            return wrap(e, "i", npar)
        if op == "eq":
            if not (wrap(e, "i", nu) and wrap(e, "j", nu)):
                return False
            return len({isinstance(self.urls[e[k] - 1], Raw) for k in "ij"}) == 1
        if op == "peq":
            return wrap(e, "i", npar) and wrap(e, "j", npar)
        return False

    def apply(self, e):
        op = e["op"]
        if op == "new":
            if e.get("raw"):
                u = Raw(txt(e["s"]), self.base(e["b"]))
            else:
                u = P.URL(txt(e["s"]), self.base(e["b"]))
            self.urls.append(u)
            kept(u.r if isinstance(u, Raw) else u)
            self.held.append(u.search_params)
        elif op == "can":
            b = self.base(e["b"])
            if isinstance(b, P.URLRecord):
                b = b.href
            return B(P.URL.can_parse(txt(e["s"]), b))
        elif op == "set":
            setattr(self.urls[e["i"] - 1], e["a"], txt(e["v"]))
        elif op == "shorten":
            self.urls[e["i"] - 1].r.shorten_path()
        elif op == "attach":
            u = self.urls[e["i"] - 1]
            u.search_params.attach(u.r)
        elif op == "rovr":
            r, st = self.urls[e["i"] - 1].r, e["st"]
            if e["prep"]:
                if st == "path start":
                    r.path = []
                elif st == "query":
                    r.query = ""
                elif st == "fragment":
                    r.fragment = ""
            P.BasicURLParser.parse(txt(e["v"]), url=r, state_override=STATES[st])
        elif op in ("upar", "uqry"):
            i = e["i"] - 1
            p = self.held[i] if e.get("h") else self.urls[i].search_params
            return self.param(p, e["p"])
        elif op == "npar":
            x = e["x"]
            k = x["k"]
            if k == "none":
                p = P.URLSearchParams()
            elif k == "str":
                p = P.URLSearchParams(txt(x["s"]))
            elif k in ("pairs", "map"):
                ps = [tuple([txt(q[0])] if q else []) + tuple(val(txt(b), x) for b in q[1:]) for q in x["ps"]]
                if k == "map":
                    arg = dict(ps)
                elif x.get("t") == 2:
                    arg = list(ps)
                elif x.get("t"):
                    arg = tuple(ps)
                else:
                    arg = [list(q) for q in ps]
                before = repr(arg)
                p = P.URLSearchParams(arg)
                if repr(arg) != before:
                    raise Mutated
                # The object does not live on the argument's storage.
                if k == "map":
                    arg["later"] = "1"
                elif not x.get("t"):
                    for q in arg:
                        q[-1:] = ["later"]
                    arg.append(["later", "1"])
                elif x["t"] == 2:
                    arg.append(("later", "1"))
                self.args.append((arg, repr(arg)))
            elif k == "par":
                p = P.URLSearchParams(self.pars[x["i"] - 1])
            else:
                p = P.URLSearchParams(self.urls[x["i"] - 1].search_params)
            self.pars.append(kept(p))
        elif op in ("par", "pqry"):
            return self.param(self.pars[e["i"] - 1], e["p"])
        elif op == "eq":
            a, b = self.urls[e["i"] - 1], self.urls[e["j"] - 1]
            if isinstance(a, Raw):
                a, b = a.r, b.r
            return B(a.equals(b, exclude_fragments=True) if e["x"] else a == b)
        elif op == "peq":
            return B(self.pars[e["i"] - 1] == self.pars[e["j"] - 1])
        return []

    def param(self, p, q):
        op, n = q["op"], txt(q["n"])
        v = val(txt(q["v"][0]), q) if q["v"] else None
        if op in ("append", "set"):
            getattr(p, op)(n, v)
        elif op == "delete":
            p.delete(n, v) if v is not None else p.delete(n)
        elif op == "sort":
            p.sort()
        elif op == "get":
            return opt(p.get(n))
        elif op == "get_all":
            return [cps(x) for x in kept(p.get_all(n))]
        elif op == "has":
            return B(p.has(n, v) if v is not None else p.has(n))
        elif op == "in":
            return B(n in p)
        elif op == "len":
            return [len(p)]
        elif op == "str":
            return cps(str(p))
        elif op == "add":
            return cps(p + n)
        elif op == "keys":
            return [cps(x) for x in p.keys()]
        elif op == "values":
            return [cps(x) for x in p.values()]
        elif op == "at":
            try:
                return pairs([p[q["i"]]])
            except IndexError:
                return []
        elif op == "slice":
            l = p[slice(opt_i(q["i"]), opt_i(q["j"]), None if q["st"] == 1 else q["st"])]
            ret = pairs(kept(l))
            if isinstance(l, list):              # the program's own
                l.append(("later", "1"))
                if len(self.args) < 40:
                    self.args.append((l, repr(l)))
            return ret
        return []


def opt_i(x):
    return x[0] if x else None


def val(v, d):
    """A value whose text is a number travels as that number when asked to."""
    if d.get("num"):
        for f in (int, float):
            try:
                if str(f(v)) == v:
                    return f(v)
            except ValueError:
                pass
    return v


def B(b):
    return [1] if b is True else [0] if b is False else [2]


def seen_list(p):
    """The list as every reading API shows it (they must agree)."""
    l = list(p)
    its = (iter(p), p.entries(), p.keys(), p.values())
    if (
        any(iter(i) is not i for i in its) or
        list(p.entries()) != l
        or [p[i] for i in range(len(p))] != l
        or list(zip(p.keys(), p.values())) != l
        or p[:] != l
    ):
        return [[[-1], [-1]]]
    return pairs(l)


def r_hist(c, w=None):
    w = w or World()
    want_rt = "rt" in c["cl"]
    want_g = "g" in c["cl"]
    ev, c["ev"] = c["ev"], []
    for e in ev:
        if not w.fit(e):
            continue
        w.fill(e)
        c["ev"].append(e)
        o = {"exc": "", "ret": [], "gi": 0, "g": {}, "rt": True}
        e["obs"] = o
        try:
            o["ret"] = w.apply(e)
        except (URLParseError if e["op"] != "npar" else ValueError) as x:
            o["exc"] = exc_name(x)
        o["urls"] = []
        for j, u in enumerate(w.urls):
            sp = u.search_params
            d = {"href": cps(u.href), "list": seen_list(sp)}
            if sp is not w.held[j] and seen_list(w.held[j]) != d["list"]:
                d["list"] = [[[-2], [-2]]]
            o["urls"].append(d)
        o["pars"] = [seen_list(p) for p in w.pars]
        if any(repr(a) != s for a, s in w.args):
            raise Mutated
        i = 0
        if e["op"] == "new" and o["exc"] == "":
            i = len(w.urls)
        elif e["op"] in ("set", "upar"):
            i = e["i"]
        if i and (want_g or want_rt) and not isinstance(w.urls[i - 1], Raw):
            o["gi"] = i
            u = w.urls[i - 1]
            if want_g:
                o["g"] = getters(u)
                if str(u) != u.href:
                    o["g"]["href"].append(-1)
            if want_rt:
                try:
                    u2 = P.URL(u.href)
                    o["rt"] = all(getattr(u2, g) == getattr(u, g) for g in GETTERS)
                except URLParseError:
                    o["rt"] = False
    return None


def r_thr(c):
    """Histories run at the same time in threads of one process; each is
    recorded as a history of its own.  The objects made by the events of "sh"
    are there before and belong to all; the threads only read them."""
    import sys
    import threading
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    n = len(c["hs"])
    barrier = threading.Barrier(n)
    bad = []
    pre = {"ev": c.get("sh", []), "cl": c["hs"][0]["cl"]}
    w0 = World()
    r_hist(pre, w0)

    def work(h):
        try:
            w, first = w0.share(), copy.deepcopy(pre["ev"])
            barrier.wait(20)
            try:
                r_hist(h, w)
            finally:
                h["ev"] = first + h["ev"]
        except Exception as e:  # noqa
            bad.append(exc_name(e))
            h["crash"] = exc_name(e)

    ts = [threading.Thread(target=work, args=(h,), daemon=True) for h in c["hs"]]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
    finally:
        sys.setswitchinterval(old)
    return None


KEPT = None         # what a program got from the calls it made


def kept(x):
    if KEPT is not None:
        KEPT.append(x)
    return x


def scribble():
    """What a program got is its own: it may change it as it likes.  (Nothing
    grows without bounds even if it is shared.)"""
    for x in KEPT:
        if isinstance(x, P.URLRecord):
            x.scheme, x.username, x.password, x.port = "zz", "zz", "zz", 7
            if isinstance(x.path, list):
                x.path[:] = ["zz", "zz"] + x.path[1:7]
            x.host, x.query, x.fragment = "zz", "zz", "zz"
        elif isinstance(x, P.URL):
            if len(x.search_params) < 9:
                x.search_params.append("zz", "zz")
            x.href = "zz://zz:7/zz?zz#zz"
        elif isinstance(x, P.URLSearchParams):
            if len(x) < 9:
                x.append("zz", "zz")
            else:
                x.delete("zz")
        elif isinstance(x, P.ValidityState):
            if len(x.error_types) < 9:
                x.error_types.insert(0, "zz")
                x.descriptions.insert(0, "zz: zz")
                x.validation_errors += 1
                x.valid = False
            x.disable_logging = True
        elif isinstance(x, list):
            x[:] = [("zz", "zz")] + x[1:]
    KEPT.clear()


def r_seq(c):
    """Calls of all kinds one after the other."""
    global KEPT
    KEPT = []
    try:
        for x in c["cs"]:
            x["crash"] = ""
            r = RUN[x["k"]](x)
            if x["k"] not in ("hist", "vs"):
                x["obs"] = r
            scribble()
    finally:
        KEPT = None
        for x in c["cs"]:
            x.setdefault("crash", "")


RUN = {k[2:]: v for k, v in list(globals().items()) if k.startswith("r_")}


class CaseTimeout(BaseException):
    pass


def on_alarm(*_):
    raise CaseTimeout


def run(c, limit=30):
    """Add the observation to a case.  Anything but a return or a
    URLParseError is recorded as a crash."""
    c["crash"] = ""
    old = signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        r = RUN[c["k"]](c)
        if c["k"] not in ("hist", "thr", "vs", "seq"):
            c["obs"] = r
    except CaseTimeout:
        c["crash"] = "timeout"
    except Exception as e:  # noqa
        c["crash"] = exc_name(e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    if c["crash"]:
        c["obs"] = {}
        for x in [c] + c.get("cs", []):
            x.setdefault("obs", {})
            for e in x.get("ev", []):
                e.setdefault("obs", {})
    return c
