"""Input generators.  Everything is drawn from a random.Random, so a run is a
function of (seed, tier, the literals of the current tree).  The generators
only decide what is explored, never what is right."""
import ast
import os
import random

# Code points whose IDNA behaviour the specification knows itself.
KNOWN = [223, 225, 228, 233, 241, 246, 252, 946, 954, 962, 1080, 1103, 1073, 26085,
         26412, 28857, 9731, 127752, 12354, 128169, 1488, 1489, 1513, 193, 201, 220,
         914, 1041, 65313, 65345, 65336, 65296, 65297, 65303, 65294, 12290, 65377,
         64257, 65285, 65295, 65283, 65306, 65312, 65311, 65340, 65339, 8490, 8481,
         178, 9312, 160, 12288, 170, 8457, 173, 8203, 65039, 8288, 65533, 65535, 8206,
         57344, 128, 888, 8204, 8205]
KNOWN = [chr(c) for c in KNOWN]
ODD = ["\x00", "\x01", "\x07", "\t", "\n", "\x0b", "\x0c", "\r", "\x1f", " ", "\x7f",
       "\x80", "\x85", "\x9f", "\xa0", "\xad", "\u2028", "\u2029", "\ufeff", "\ufdd0",
       "\ufdef", "\ufffe", "\uffff", "\U0001fffe", "\U0010ffff", "\U0010fffd",
       "\ud800", "\udbff", "\udc00", "\udfff", "\ud83c\udf08", "\udf08\ud83c",
       "\U0001f308", "é", "ß", "β", "日本", "ÿ", "Ā", "€", "²", "١", "１", "\u0660",
       "\u3000", "\u200b"]
PUNCT = list("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~")
SCHEMES = ["http", "https", "ws", "wss", "ftp", "file", "HTTP", "hTTps", "fIlE", "FTP",
           "Ws", "wSS", "foo", "a", "data", "mailto", "javascript", "blob", "about",
           "non-special", "x+y", "z.1", "s-c", "h", "httpx", "ht", "urn", "gopher",
           "view-source", "c", "C", "ssh", "git", "tel"]
BADSCHEMES = ["", "1a", "+a", "-", ".", "a_b", "a b", "é", "h%74tp", "ht\ttp", "a/b"]
V4PARTS = ["0", "1", "9", "10", "127", "192", "255", "256", "257", "300", "999", "1000",
           "65535", "65536", "16777215", "16777216", "4294967295", "4294967296",
           "99999999999", "0x0", "0x1", "0X7f", "0xff", "0x100", "0xFFFFFFFF",
           "0x100000000", "0x", "0X", "00", "01", "010", "0377", "0400", "08", "09",
           "0xg", "0x1g", "1e1", "", "+1", "-1", "1_0", " 1", "1 ", "0b1", "0o7", "0_7",
           "x1", "00x1", "0x0x1", "a", "0.", "%31", "１", "²", "0xx", "0x_1", "00o7"]
V6PIECES = ["0", "1", "f", "ff", "0000", "0001", "abcd", "ABCD", "ffff", "FfFf", "00000",
            "12345", "g", "", "10", "0db8", "2001", "fe80"]
V4IN6 = ["1.2.3.4", "127.0.0.1", "0.0.0.0", "255.255.255.255", "256.0.0.1", "1.2.3",
         "1.2.3.4.5", "01.2.3.4", "1..2.3", "1.2.3.", ".1.2.3", "1.2.3.x", "00.0.0.0",
         "1.2.3.256", "1.2.3.4 ", "0x1.2.3.4", "12.34.56.78", "1.2.03.4", "100.1.1.1"]
DOMAINS = ["a", "example.com", "EXAMPLE.Com", "ex%41mple.com", "a.b", "a..b", ".a", "a.",
           "a..", ".", "..", "localhost", "LOCALHOST", "loc%61lhost", "lOcAlhost",
           "xn--", "xn--a", "xn--mnchen-3ya", "xn--strae-oqa", "xn--zca", "münchen",
           "faß.de", "FAẞ.de", "straße", "日本", "あ", "☃", "xn--n3h", "xn--n3h.x",
           "β", "Βκ", "א", "אa", "א1", "0א", "a.א", "א.a", "ab--c", "-a", "a-", "a_b",
           "a%00b", "a b", "a%20b", "a%2fb", "a%25b", "a%", "a%2", "a%zz", "a<b", "a>b",
           "a^b", "a|b", "a`b", "a{b}", "a~b", "a!b", "a$b", "a&b", "a'b", "a(b)",
           "a*b", "a+b", "a,b", "a;b", "a=b", "a\"b", "a\x7fb", "%e3%81%82", "%C3%9F",
           "%ff", "%80", "\u00ad", "a\u00adb", "\u200d", "a\u200cb", "a。b", "a．b",
           "ｅx", "Ａ", "ﬁ", "K", "℡", "1.2.3.4.com", "0x7f.1.com", "c", "C|", "c:", "C:",
           "%63%3a", "x" * 63, "x" * 64, ("x" * 60 + ".") * 4 + "com", "0", "00", "0x",
           "1.2", "foo.0x4", "foo.0x", "foo.09", "foo.09.", "foo.9", "foo.1.", "1..2",
           "0x.0x.0", "1.2.3.4.5", "256", "256.1", "%30%78%37%66.1", "host"]
PORTS = ["", "0", "00", "1", "21", "80", "443", "8080", "000080", "0443", "65535",
         "65536", "65537", "99999", "100000", "8a", "a", "-1", "+1", "80 ", " 80", "8 0",
         "1_0", "１", "80/", "4294967376", "131153", "00000000000000000000080", "079",
         "٨٠", "1e2", "0x50"]
SEGS = ["", "a", "b", "foo", "bar", ".", "..", "%2e", "%2E", ".%2e", "%2e.", "%2E%2e",
        ".%2E", "%2e%2E", "%2E.", "...", "%2e%2e%2e", ". ", " .", "..;", ".a", "a.",
        "%2f", "%5c", "%5C", "c:", "C:", "C|", "c|", "C|x", "c:x", "1:", "C%7C", "%43:",
        "c", "|", ":", "a b", "a%", "a%2", "a%zz", "%00", "%7e", "~", "é", "日",
        "\"", "<", ">", "`", "{", "}", "^", "|", "[", "]", "'", ";", "=", "@", "&",
        "\\", "a;p", ";", "\x00", "\x7f", "\ud83c\udf08", "\ud800", "x:y", "@x", "//"]
QUERIES = ["", "a", "a=b", "a=b&c=d", "&", "&&", "=", "a=", "=b", "a=b=c", "a+b", "a b",
           "a%20b", "%", "%2", "%zz", "%26=%3D", "'", "\"", "<>", "`", "{}|^", "#", "é",
           "日=本", "ÿ", "€", "\x00", "\x7f", "\ud83c\udf08", "\ud800=\udc00", "?", "/?",
           "a=1&a=2&b=3", "z=1&a=2", "+", "%2B", "%C3%A9", "%FF", "%ff%fe", "a\tb", "~",
           "*-._", "a=~!'()", "ﬃ&🌈", "\\", "a[]=1", ";", "a=b;c=d", "я=ж", "&#1;"]
FRAGS = ["", "a", "f#g", "?", "/", "a b", "\"", "<>", "`", "{}", "^|", "'", "%", "%2",
         "%zz", "é", "日", "\x00", "\x7f", "\ud83c\udf08", "\ud800", "~", "\\", "#",
         "[]", "a\nb"]
CREDS = ["", "u", "u:p", ":p", "u:", ":", "u:p:q", "u@v", "u@v:p@q", "@", "é", "u é:p'",
         "%40", "a/b", "%", "a;b=c", "[", "]", "^", "|", "\\", "`", "{", "}", "~", "'",
         "\"", "<", "a:b@c:d", "\x7f", "\ud83c\udf08", "\x01", "!$&()*+,", "u::p"]
OPAQUE = ["a", "a b", " ", "a ", "  ", "x/y", "@", "a:b", "é", "\ud83c\udf08", "\ud800",
          "\x00", "\x7f", "%", "%zz", "\"", "<>", "`", "{}", "~", "'", "\\", "[]", "^|",
          "//x", "\t", "text/plain,hi", "http://a/b", "https://h:443/p", "a  ", "%20 "]
BASES = ["http://h/", "http://u:p@h:81/a/b/c?q#f", "https://example.com/x", "file:///",
         "file:///C:/a/b", "file://h/a/b?q#f", "file://h/C:/x", "file:///a", "ws://h/p",
         "ftp://f/d/e", "foo://h/a/b", "foo://h", "foo:///p/q", "foo:/p/q", "foo:/", "foo:x",
         "data:t,x?q", "about:blank", "blob:http://h/x", "foo:/.//p", "foo:/a/../b",
         "http://h", "http://[::1]:3/x", "http://1.2.3.4/x", "foo://u@h:0/x?y", "wss://h/?q",
         "file:///C:", "file:///C:/", "mailto:a@b", "javascript:x", "foo://[::1]", "http:x",
         "", "x", "http://", "//h", "foo:// /"]
WPT = []


def load_wpt(repo):
    """The repository's own WPT inputs as extra seeds (inputs only)."""
    import json
    p = os.path.join(repo, "tests/wpt/resources/urltestdata.json")
    out = []
    try:
        for d in json.load(open(p, encoding="utf-8")):
            if isinstance(d, dict):
                out.append((d["input"], d.get("base")))
    except Exception:  # noqa
        pass
    return out


def mine(repo):
    """String and integer literals of the current source: a change that reacts
    to a particular value usually names it."""
    strs, ints = set(), set()
    for root, _, files in os.walk(os.path.join(repo, "src")):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
            except Exception:  # noqa
                continue
            docs = set()
            for n in ast.walk(tree):
                b = getattr(n, "body", None)
                if isinstance(b, list):
                    for x in b:
                        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant):
                            docs.add(id(x.value))
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and id(n) not in docs:
                    v = n.value
                    if isinstance(v, bytes):
                        v = v.decode("latin-1")
                    if isinstance(v, str) and 0 < len(v) <= 24:
                        strs.add(v)
                    elif isinstance(v, int) and not isinstance(v, bool) and v < 10**13:
                        ints.add(v)
    return sorted(strs), sorted(ints)


def pinned():
    """Literals of the pinned tree (a hint for the generator, nothing else)."""
    import json
    p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                     "data", "literals.json")
    d = json.load(open(p, encoding="utf-8"))
    return set(d["strs"]), set(d["ints"])


class Gen:
    def __init__(self, seed, repo="/repo"):
        self.r = random.Random(seed)
        self.strs, self.ints = mine(repo)
        self.words = [s for s in self.strs if len(s) <= 12]
        old = pinned()
        self.newwords = [s for s in self.strs if s not in old[0]]
        self.newints = [n for n in self.ints if n not in old[1] and n < 70000]
        self.wpt = load_wpt(repo)

    # ------------------------------------------------------------ primitives
    def pick(self, xs):
        return self.r.choice(xs)

    def p(self, x):
        return self.r.random() < x

    def count(self):
        """A size to repeat something to: mostly near a power of two, or near
        a number the source mentions."""
        if self.newints and self.p(0.5):
            n = self.pick(self.newints)
        else:
            n = self.pick([2, 3, 4, 5, 6, 8, 10, 12, 16, 20, 24, 32, 40, 50, 63, 64, 100, 128])
        return max(0, min(n, 300) + self.pick([-1, 0, 0, 1, 2]))

    def mined(self):
        if self.newwords and self.p(0.6):
            return self.pick(self.newwords)
        if self.p(0.7) and self.words:
            return self.pick(self.words)
        n = self.pick(self.newints if self.newints and self.p(0.6) else self.ints or [0])
        n += self.pick([0, 0, 1, -1])
        return self.pick([str(n), hex(n), "%x" % n, str(n)]) if n >= 0 else str(n)

    def ch(self):
        x = self.r.random()
        if x < 0.35:
            return chr(self.r.randint(97, 122))
        if x < 0.45:
            return self.pick("0123456789")
        if x < 0.7:
            return self.pick(PUNCT)
        if x < 0.8:
            return self.pick(ODD)
        if x < 0.9:
            return self.pick(KNOWN)
        if x < 0.93:
            return "%%%02X" % self.r.randint(0, 255)
        if x < 0.95:
            return "%%%02x" % self.r.randint(0, 255)
        if x < 0.97:
            return chr(self.r.randint(65, 90))
        return chr(self.r.choice([self.r.randint(0, 0x2FF), self.r.randint(0, 0xD7FF),
                                  self.r.randint(0x10000, 0x10FFFF)]))

    def text(self, n=8):
        return "".join(self.ch() for _ in range(self.r.randint(0, n)))

    def fancy(self, xs, n=6):
        x = self.r.random()
        if x < 0.72:
            return self.pick(xs)
        if x < 0.82:
            return self.text(n)
        if x < 0.9:
            return self.pick(xs) + self.pick(xs)
        if x < 0.95:
            return self.mutate(self.pick(xs))
        return self.mined()

    def mutate(self, s, n=None):
        for _ in range(n or self.pick([1, 1, 1, 2, 3])):
            k = self.r.randint(0, len(s))
            x = self.r.random()
            if x < 0.25:
                s = s[:k] + s[k + 1:]
            elif x < 0.5:
                s = s[:k] + self.ch() + s[k:]
            elif x < 0.62:
                s = s[:k] + self.ch() + s[k + 1:]
            elif x < 0.64:
                t = self.pick([self.ch(), s[k:k + self.r.randint(1, 4)],
                               "/" + self.pick(SEGS), self.pick(PUNCT)])
                n = self.count()
                if len(t) * n <= 600:
                    s = s[:k] + t * n + s[k:]
            elif x < 0.68:
                j = self.r.randint(0, len(s))
                s = s[:k] + s[min(j, k):max(j, k)] + s[k:]
            elif x < 0.74:
                s = s[:k] + self.pick(["\t", "\n", "\r"]) + s[k:]
            elif x < 0.8:
                s = s[:k] + s[k:k + 1].swapcase() + s[k + 1:]
            elif x < 0.86 and k < len(s):
                b = s[k].encode("utf-8", "surrogatepass")
                s = s[:k] + "".join("%%%02X" % y for y in b) + s[k + 1:]
            elif x < 0.93:
                s = s[:k] + self.mined() + s[k:]
            else:
                s = s[:k] + self.pick(SEGS + PORTS + V4PARTS) + s[k:]
        return s

    # ------------------------------------------------------------ components
    def v4(self):
        n = self.pick([1, 2, 3, 4, 4, 4, 5])
        s = ".".join(self.pick(V4PARTS) if self.p(0.6)
                     else str(self.r.randint(0, 300)) for _ in range(n))
        return s + self.pick(["", "", "", ".", ".."])

    def v6(self, brackets=True):
        n = self.pick([0, 1, 2, 3, 4, 5, 6, 7, 8, 8, 8, 9])
        ps = [self.pick(V6PIECES) if self.p(0.5)
              else self.pick(["0", "0", "0", "%x" % self.r.randint(0, 65535)])
              for _ in range(n)]
        if self.p(0.25):
            ps.append(self.pick(V4IN6))
        if self.p(0.5):
            k = self.r.randint(0, len(ps))
            s = ":".join(ps[:k]) + "::" + ":".join(ps[k:])
        else:
            s = ":".join(ps)
        if self.p(0.08):
            s = self.mutate(s, 1)
        if not brackets:
            return s
        return self.pick(["[", "[", "[", "[", "[[", ""]) + s + self.pick(
            ["]", "]", "]", "]", "", "]]", "]x"]) if self.p(0.15) else "[" + s + "]"

    def host(self):
        x = self.r.random()
        if x < 0.5:
            return self.fancy(DOMAINS)
        if x < 0.7:
            return self.v4()
        if x < 0.88:
            return self.v6()
        return ".".join(self.fancy(DOMAINS, 3) for _ in range(self.pick([1, 2, 3])))

    def port(self):
        return self.fancy(PORTS, 4) if self.p(0.8) else str(self.r.randint(0, 70000))

    def path(self, sl=None):
        n = self.pick([0, 1, 1, 2, 2, 3, 4, 5])
        return "".join((sl or self.pick(["/", "/", "/", "/", "\\"]))
                       + self.fancy(SEGS) for _ in range(n))

    def tail(self):
        s = ""
        if self.p(0.35):
            s += "?" + self.fancy(QUERIES)
        if self.p(0.3):
            s += "#" + self.fancy(FRAGS)
        return s

    def auth(self):
        s = ""
        if self.p(0.3):
            s += self.fancy(CREDS) + "@"
        s += self.host()
        if self.p(0.35):
            s += ":" + self.port()
        return s

    def scheme(self):
        return self.pick(SCHEMES) if self.p(0.95) else self.pick(BADSCHEMES)

    def slashes(self):
        return self.pick(["//"] * 12 + ["", "/", "///", "////", "\\\\", "/\\", "\\/", "\\",
                                        "\t//", "/\n/", "//\\/"])

    def absolute(self):
        x = self.r.random()
        if x < 0.62:
            s = self.scheme() + ":" + self.slashes() + self.auth() + self.path() + self.tail()
        elif x < 0.74:
            s = self.pick(["file:", "FILE:", "file:"]) + self.pick(
                ["///", "//", "/", "", "////", "\\\\", "\\", "/\\"]) + self.pick(
                ["", self.host(), "localhost", "C:", "C|", "c:", "%43:"]) + self.path() + self.tail()
        elif x < 0.84:
            s = self.pick(["data", "mailto", "blob", "foo", "a", "javascript", "urn"]) + ":" \
                + self.fancy(OPAQUE) + self.tail()
        elif x < 0.9:
            s = self.pick(["foo", "a", "non-special", "blob"]) + ":" + self.path("/") + self.tail()
        elif x < 0.96 and self.wpt:
            s = self.mutate(self.pick(self.wpt)[0])
        else:
            s = self.text(20)
        return self.dress(s)

    def dress(self, s):
        if self.p(0.05):
            s = self.pick([" ", "\x00", "\x1f", "\n", "\x0b ", "\u00a0", "  "]) + s
        if self.p(0.05):
            s = s + self.pick([" ", "\x00", "\x1f", "\n", "\x0b ", "\u00a0", "  "])
        if self.p(0.06):
            s = self.mutate(s)
        return s

    def relative(self):
        x = self.r.random()
        if x < 0.1:
            s = ""
        elif x < 0.25:
            s = self.pick(["//", "\\\\", "/\\", "///"]) + self.auth() + self.path() + self.tail()
        elif x < 0.45:
            s = self.path() + self.tail()
        elif x < 0.6:
            s = self.fancy(SEGS) + self.path() + self.tail()
        elif x < 0.7:
            s = self.tail()
        elif x < 0.82:
            s = self.pick(["C|", "c:", "C:", "C|/", "c:/", "C|\\", "C|?", "/C|", "/c:/", "C|a",
                           "\\C:", "../C:", "./c|"]) + self.path() + self.tail()
        elif x < 0.9:
            s = self.scheme() + ":" + self.pick(["", "/", "//", "\\", "///"]) + self.fancy(
                SEGS) + self.path() + self.tail()
        elif self.wpt and x < 0.97:
            s = self.mutate(self.pick(self.wpt)[0])
        else:
            s = self.text(10)
        return self.dress(s)

    def base(self):
        x = self.r.random()
        if x < 0.6:
            return self.pick(BASES)
        if x < 0.9:
            return self.absolute()
        b = [b for _, b in self.wpt if b] or BASES
        return self.mutate(self.pick(b))

    # ------------------------------------------------------------ setters
    def setter(self):
        a = self.pick(["href", "protocol", "username", "password", "host", "hostname",
                       "port", "pathname", "search", "hash", "host", "hostname", "port",
                       "protocol", "pathname"])
        return a, self.setter_value(a)

    def setter_value(self, a):
        if self.p(0.03):
            return ""
        if a == "href":
            return self.absolute() if self.p(0.8) else self.text()
        if a == "protocol":
            return self.dress(self.scheme() + self.pick(["", "", ":", ":x", "://h", ": ", "%"]))
        if a in ("username", "password"):
            return self.dress(self.fancy(CREDS))
        if a in ("host", "hostname"):
            s = self.host() if self.p(0.92) else ""
            if self.p(0.45):
                s += ":" + self.port()
            if self.p(0.2):
                s += self.pick(["/", "\\", "?", "#", "@"]) + self.text(3)
            return self.dress(s)
        if a == "port":
            return self.dress(self.port() + self.pick(["", "", "", "/", "x", ":", " ", "?", "\\"]))
        if a == "pathname":
            return self.dress(self.pick(["", "", "?", "#", " "]) + self.path()
                              + self.pick(["", self.tail(), self.fancy(SEGS)]))
        if a == "search":
            return self.dress(self.pick(["", "?", "??", "#"]) + self.fancy(QUERIES)
                              + self.pick(["", "", "#x"]))
        return self.dress(self.pick(["", "#", "##"]) + self.fancy(FRAGS))

    # ------------------------------------------------------------ params
    NAMES = ["a", "b", "c", "", "a b", "a+b", "a&b", "a=b", "é", "ﬃ", "🌈", "\ud83c\udf08",
             "\ud800", "%61", "%41", "%", "%zz", "A", "aa", "\ufffd", "~", "?a", "?", "#",
             "\x00", "+", "日", "*", "-._", "'", "\uffff", "\U00010000", "\ue000", "z"]
    VALUES = ["1", "2", "3", "", "x y", "x+y", "&", "=", "é", "%20", "%", "%C3%A9", "\udc00",
              "\ud83c\udf08", "\ufffd", "~", "0", "1.5", "'", "None", "日本", "\n", "a=b&c"]

    def name(self):
        return self.pick(["a", "b", "c", "a"]) if self.p(0.5) else self.fancy(self.NAMES, 3)

    def value(self):
        return self.pick(["1", "2", "3"]) if self.p(0.4) else self.fancy(self.VALUES, 3)

    def qstring(self):
        n = self.pick([0, 1, 2, 2, 3, 4, 6])
        s = self.pick(["", "", "", "?"]) + self.pick(["&", "&", "&", "&", ";", "&&"]).join(
            self.name() + self.pick(["=", "=", "=", "", "=="]) + self.value() for _ in range(n))
        return s if self.p(0.7) else self.fancy(QUERIES)

    def pairs(self):
        return [(self.name(), self.value()) for _ in range(self.pick([0, 1, 2, 3, 4, 6]))]
