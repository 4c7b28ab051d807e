"""Compile the TLA+ specification to Python, to search with.

The semantic tree comes from SANY (the TLA+ front end, as XML), so there is no
second parser of the language; the subset of TLA+ the specification uses is
translated construct by construct.  The result is only used to find candidate
violations quickly: TLC has the last word on every one of them, and the two
are compared on every case TLC judges."""
import hashlib
import os
import subprocess
import sys
import tempfile
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
OUT = os.path.join(HERE, "specpy.py")
SOURCES = ["Str", "Enc", "Percent", "Idna", "Host", "UrlParser", "UrlObject", "World", "Conf"]
LIBS = {"Sequences", "SequencesExt", "TLC", "Integers", "Naturals", "FiniteSets", "Json", "IOUtils"}

PRELUDE = '''\
# Generated by spec2py.py from the TLA+ modules; do not edit.
# %s
import json
from functools import reduce


class Th:
    """A value that is computed when first needed."""
    __slots__ = ("f", "v")

    def __init__(self, f):
        self.f = f

    def __call__(self):
        f = self.f
        if f is not None:
            self.v = f()
            self.f = None
        return self.v


def ap(f, i):
    if type(f) is tuple:
        if i < 1:
            raise IndexError(i)
        return f[i - 1]
    return f[i]


def fcn(dom, f):
    if type(dom) is range and dom.start == 1:
        return tuple([f(i) for i in dom])
    return {i: f(i) for i in dom}


def exc(f, path, val):
    k = path[0]
    if type(f) is tuple:
        old = f[k - 1]
        new = exc(old, path[1:], val) if len(path) > 1 else val(old)
        return f[:k - 1] + (new,) + f[k:]
    old = f[k]
    g = dict(f)
    g[k] = exc(old, path[1:], val) if len(path) > 1 else val(old)
    return g


def app(s, x):
    return s + (x,)


def subseq(s, i, j):
    if j < i:
        return s[:0]
    if i < 1 or j > len(s):
        raise IndexError(i, j)
    return s[i - 1:j]


def sel_first(s, i, j, p):
    for k in range(i, j + 1):
        if p(s[k - 1]):
            return k
    return 0


def sel_last(s, i, j, p):
    for k in range(j, i - 1, -1):
        if p(s[k - 1]):
            return k
    return 0


def choose(dom, p):
    for x in dom:
        if p(x):
            return x
    raise ValueError("CHOOSE")


def domain(f):
    return range(1, len(f) + 1) if type(f) is tuple else frozenset(f)


def merge(f, g):
    h = dict(g)
    h.update(f)
    return h


def no_case():
    raise ValueError("CASE")


def load(x):
    if type(x) is list:
        return tuple([load(i) for i in x])
    if type(x) is dict:
        return {k: load(v) for k, v in x.items()}
    return x


'''

BIN = {"=": "==", "/=": "!=", "+": "+", "-": "-", "*": "*", "<": "<", ">": ">", "\\leq": "<=",
       "\\geq": ">=", "\\in": "in", "\\notin": "not in", "\\o": "+", "%": "%", "\\div": "//"}
TOTAL = {"+", "-", "*", "Append", "\\o", "Len", "$Tuple", "$RcdConstructor", "=", "/=", "<", ">",
         "\\leq", "\\geq", "TRUE", "FALSE"}


def digest():
    h = hashlib.sha256()
    for m in SOURCES:
        with open(os.path.join(SPEC, m + ".tla"), "rb") as f:
            h.update(f.read())
    with open(os.path.abspath(__file__), "rb") as f:
        h.update(f.read())
    return h.hexdigest()


class Op:
    def __init__(self, uid, node):
        self.uid = uid
        self.name = node.find("uniquename").text
        self.file = node.find("location/filename").text
        p = node.find("params")
        self.params = [] if p is None else [q.find(".//UID").text for q in p]
        body = node.find("body")
        self.body = body[0] if body is not None and len(body) else None


class Compiler:
    def __init__(self, xml, root="Check"):
        tree = ET.fromstring(xml)
        self.ent = {}
        for e in tree.find("context"):
            self.ent[e.find("UID").text] = [x for x in e if x.tag != "UID"][0]
        self.ops = {u: Op(u, n) for u, n in self.ent.items() if n.tag == "UserDefinedOpKind"}
        self.local = set()      # uids of LET-defined operators
        self.root = [o for o in self.ops.values() if o.name == root and o.file == "Conf"][0]
        self.order = []
        self.mark(self.root)
        self.find_strict()
        self.consts = []
        self.out = []

    # ------------------------------------------------------------ structure
    def opref(self, n):
        """(kind, name or Op or uid) of an operator reference."""
        r = n.find("operator")[0]
        u = r.find("UID").text
        e = self.ent[u]
        if e.tag == "BuiltInKind":
            return "b", e.find("uniquename").text
        if e.tag == "UserDefinedOpKind":
            o = self.ops[u]
            if o.file in LIBS:
                return "b", o.name
            return "u", o
        return "p", u

    def args(self, n):
        x = n.find("operands")
        return list(x) if x is not None else []

    def bounds(self, n):
        out = []
        for b in n.find("boundSymbols"):
            us = [x.find("UID").text for x in b if x.tag == "FormalParamNodeRef"]
            dom = [x for x in b if x.tag not in ("FormalParamNodeRef", "tuple")][0]
            out += [(u, dom) for u in us]
        return out

    def letops(self, n):
        return [self.ops[r.find("UID").text] for r in n.find("opDefs")]

    def mark(self, op):
        """Global operators in dependency order."""
        seen = set()

        def visit(o):
            if o.uid in seen or o.file in LIBS:
                return
            seen.add(o.uid)
            if o.body is not None and o.name != "Registry":
                walk(o.body)
            if o.uid not in self.local:
                self.order.append(o)

        def walk(x):
            for e in x.iter():
                if e.tag == "LetInNode":
                    for o in self.letops(e):
                        self.local.add(o.uid)
            for e in x.iter("UserDefinedOpKindRef"):
                visit(self.ops[e.find("UID").text])
        visit(op)
        self.reach = seen

    # ----------------------------------------------------------- strictness
    def find_strict(self):
        """Which parameters are surely evaluated, and which are passed by
        name (not surely evaluated and somewhere given an argument that may
        be undefined or is costly)."""
        ops = [self.ops[u] for u in sorted(self.reach, key=int) if self.ops[u].body is not None
               and self.ops[u].name != "Registry"]
        self.strict = {o.uid: [True] * len(o.params) for o in ops}
        changed = True
        while changed:
            changed = False
            for o in ops:
                for i, p in enumerate(o.params):
                    if self.strict[o.uid][i] and not self.is_strict(o.body, p):
                        self.strict[o.uid][i] = False
                        changed = True
        self.byname = {o.uid: [False] * len(o.params) for o in ops}
        for o in ops:
            for n in o.body.iter("OpApplNode"):
                k, q = self.opref(n)
                if k != "u":
                    continue
                for i, a in enumerate(self.args(n)):
                    if a.tag == "OpArgNode":
                        continue
                    if not self.strict[q.uid][i] and not self.safe(a):
                        self.byname[q.uid][i] = True
        # an operator passed as an argument is called with plain values
        for o in ops:
            for n in o.body.iter("OpArgNode"):
                u = n.find(".//UID").text
                if u in self.byname:
                    self.byname[u] = [False] * len(self.byname[u])

    def is_strict(self, n, uid, depth=0):
        if depth > 60:
            return False
        t = n.tag
        st = lambda x: self.is_strict(x, uid, depth + 1)  # noqa: E731
        if t in ("NumeralNode", "StringNode", "AtNode", "OpArgNode"):
            return False
        if t == "LetInNode":
            return st(n.find("body")[0])
        if t != "OpApplNode":
            raise Exception(t)
        k, q = self.opref(n)
        a = self.args(n)
        if k == "p":
            return q == uid or any(st(x) for x in a if x.tag != "OpArgNode")
        if k == "u":
            if q.uid == uid:
                return True
            if q.uid in self.local and st(q.body):
                return True
            return any(self.strict[q.uid][i] and st(x) for i, x in enumerate(a)
                       if x.tag != "OpArgNode")
        if q == "$IfThenElse":
            return st(a[0]) or (st(a[1]) and st(a[2]))
        if q == "$Case":
            ps = [self.args(p) for p in a]
            return st(ps[0][0]) or all(st(p[1]) for p in ps)
        if q in ("\\land", "\\lor", "=>", "$ConjList", "$DisjList"):
            return st(a[0])
        if n.find("boundSymbols") is not None and len(n.find("boundSymbols")):
            return any(st(d) for _, d in self.bounds(n))
        if q == "$RcdConstructor":
            return any(st(self.args(p)[1]) for p in a)
        if q == "$Except":
            return st(a[0])
        return any(st(x) for x in a if x.tag != "OpArgNode")

    def safe(self, n):
        """Cheap, and defined whatever its variables are."""
        t = n.tag
        if t in ("NumeralNode", "StringNode"):
            return True
        if t != "OpApplNode":
            return False
        k, q = self.opref(n)
        a = self.args(n)
        if k == "p":
            return not a
        if k == "u":
            # constants, and constant applications (hoisted)
            return self.closed(n)
        if q == "$RcdConstructor":
            return all(self.safe(self.args(p)[1]) for p in a)
        return q in TOTAL and all(self.safe(x) for x in a)

    def free(self, n):
        """Formal parameters and local operators a node mentions."""
        out = set()
        for e in n.iter():
            if e.tag == "FormalParamNodeRef":
                out.add(e.find("UID").text)
            elif e.tag == "UserDefinedOpKindRef":
                u = e.find("UID").text
                if u in self.local:
                    out.add(u)
            elif e.tag == "AtNode":
                out.add("@")
            elif e.tag == "LetInNode":
                out.add("let")
        return out

    def closed(self, n):
        return not self.free(n)

    # ------------------------------------------------------------- emission
    def gname(self, o):
        return "o_%s_%s" % ("".join(c if c.isalnum() else "_" for c in o.name), o.uid)

    def hoist(self, code):
        for name, c in self.consts:
            if c == code:
                return name
        name = "K%d" % self.nk
        self.nk += 1
        self.consts.append((name, code))
        self.out.append("%s = %s" % (name, code))
        return name

    def compile(self):
        self.nk = 0
        for o in self.order:
            self.consts = [c for c in self.consts]
            self.lazy = set()
            self.fn = None
            if o.name == "Registry":
                self.out.append("%s = frozenset()" % self.gname(o))
                self.registry = self.gname(o)
                continue
            if not o.params:
                self.out.append("%s = %s" % (self.gname(o), self.ex(o.body)))
                continue
            self.lazy = {p for i, p in enumerate(o.params) if self.byname[o.uid][i]}
            self.fn = o
            lines = []
            self.looped = False
            self.st(o.body, lines, 2 if True else 1)
            ps = ", ".join("v" + p for p in o.params)
            self.out.append("")
            self.out.append("def %s(%s):" % (self.gname(o), ps))
            if self.looped:
                self.out.append("    while True:")
                self.out += lines
            else:
                self.out += [x[4:] for x in lines]
            self.out.append("")
        self.out.append("")
        self.out.append("def set_registry(r):")
        self.out.append("    global %s" % self.registry)
        self.out.append("    %s = frozenset(r)" % self.registry)
        self.out.append("")
        self.out.append("check = %s" % self.gname(self.root))
        return PRELUDE % digest() + "\n".join(self.out) + "\n"

    def st(self, n, out, ind):
        """Statements that return the value of n."""
        pad = "    " * ind
        if n.tag == "LetInNode":
            self.let_stmts(n, out, ind)
            self.st(n.find("body")[0], out, ind)
            return
        if n.tag == "OpApplNode":
            k, q = self.opref(n)
            a = self.args(n)
            if k == "b" and q == "$IfThenElse" and not self.closed(n):
                out.append(pad + "if %s:" % self.ex(a[0]))
                self.st(a[1], out, ind + 1)
                # no else: the branch returned
                self.st(a[2], out, ind)
                return
            if k == "b" and q == "$Case":
                for p in a:
                    c, e = self.args(p)
                    if self.is_other(c):
                        self.st(e, out, ind)
                        return
                    out.append(pad + "if %s:" % self.ex(c))
                    self.st(e, out, ind + 1)
                out.append(pad + "return no_case()")
                return
            if k == "u" and self.fn is not None and q.uid == self.fn.uid \
                    and not any(self.byname[q.uid]) and not self.inner:
                self.looped = True
                ps, vs = [], []
                for p, x in zip(q.params, a):
                    v = self.ex(x)
                    if v != "v" + p:
                        ps.append("v" + p)
                        vs.append(v)
                out.append(pad + "%s = %s" % (", ".join(ps), ", ".join(vs)))
                out.append(pad + "continue")
                return
        out.append(pad + "return " + self.ex(n))

    inner = False

    def is_other(self, c):
        return c.tag == "StringNode" and c.find("StringValue").text == "$Other" or \
            c.tag == "OpApplNode" and self.opref(c)[1] == "$Other"

    def let_stmts(self, n, out, ind):
        pad = "    " * ind
        body = n.find("body")[0]
        for o in self.letops(n):
            if o.params:
                # a local operator
                was = self.lazy, self.inner
                self.lazy = self.lazy | {p for i, p in enumerate(o.params) if self.byname[o.uid][i]}
                self.inner = True
                lines = []
                self.st(o.body, lines, ind + 1)
                self.lazy, self.inner = was
                out.append(pad + "def v%s(%s):" % (o.uid, ", ".join("v" + p for p in o.params)))
                out += lines
            elif self.safe(o.body) or self.let_strict(n, o, body):
                out.append(pad + "v%s = %s" % (o.uid, self.ex(o.body)))
            else:
                self.lazy = self.lazy | {o.uid}
                out.append(pad + "v%s = Th(lambda: %s)" % (o.uid, self.ex(o.body)))

    def let_strict(self, n, o, body):
        # Surely evaluated by the body; the definitions before it are in scope.
        return self.is_strict(body, o.uid)

    def pred(self, n):
        """An operator argument, as a Python callable."""
        u = n.find("argument")[0].find("UID").text
        e = self.ent[u]
        if e.tag == "UserDefinedOpKind":
            o = self.ops[u]
            if o.file in LIBS:
                raise Exception("library operator as argument: " + o.name)
            if o.name == "LAMBDA":
                was = self.lazy
                s = "(lambda %s: %s)" % (", ".join("v" + p for p in o.params), self.ex(o.body))
                self.lazy = was
                return s
            return ("v" + u) if u in self.local else self.gname(o)
        return "v" + u

    def ex(self, n):
        t = n.tag
        if t == "NumeralNode":
            return n.find("IntValue").text
        if t == "StringNode":
            return repr(n.find("StringValue").text or "")
        if t == "AtNode":
            return "at"
        if t == "LetInNode":
            return self.let_expr(n)
        if t == "OpArgNode":
            return self.pred(n)
        k, q = self.opref(n)
        a = self.args(n)
        if k == "p":
            v = "v" + q
            if a:
                return "%s(%s)" % (v, ", ".join(self.ex(x) for x in a))
            return v + "()" if q in self.lazy else v
        if k == "u":
            return self.call(n, q, a)
        s = self.builtin(n, q, a)
        if q in ("$SetEnumerate", "\\union", "$SetOfAll", "$SubsetOf", "$Tuple", "\\") and a is not None \
                and self.closed(n) and s not in ("()", "frozenset()"):
            return self.hoist(s)
        return s

    def call(self, n, q, a):
        if q.name == "LAMBDA":
            raise Exception("lambda called")
        if q.uid in self.local:
            f = "v" + q.uid
            if not q.params:
                return f + "()" if q.uid in self.lazy else f
        else:
            f = self.gname(q)
            if not q.params:
                return f
        args = []
        for i, x in enumerate(a):
            if x.tag == "OpArgNode":
                args.append(self.pred(x))
            elif self.byname[q.uid][i]:
                e = self.ex(x)
                args.append("Th(lambda: %s)" % e if not self.safe(x) else "(lambda: %s)" % e)
            else:
                args.append(self.ex(x))
        s = "%s(%s)" % (f, ", ".join(args))
        if self.closed(n):
            return self.hoist(s)
        return s

    def let_expr(self, n):
        body = n.find("body")[0]
        ops = self.letops(n)
        was = self.lazy
        names, vals = [], []
        wrap = []
        for o in ops:
            if o.params:
                self.lazy = self.lazy | {p for i, p in enumerate(o.params) if self.byname[o.uid][i]}
                v = "(lambda %s: %s)" % (", ".join("v" + p for p in o.params), self.ex(o.body))
            elif self.safe(o.body):
                v = self.ex(o.body)
            else:
                v = "Th(lambda: %s)" % self.ex(o.body)
                self.lazy = self.lazy | {o.uid}
            wrap.append((o.uid, v))
        s = self.ex(body)
        for u, v in reversed(wrap):
            s = "(lambda v%s: %s)(%s)" % (u, s, v)
        self.lazy = was
        return s

    def comp(self, n):
        """for-clauses of the bound variables."""
        return " ".join("for v%s in %s" % (u, self.ex(d)) for u, d in self.bounds(n))

    def builtin(self, n, q, a):
        E = self.ex
        if q in BIN:
            return "(%s %s %s)" % (E(a[0]), BIN[q], E(a[1]))
        if q == "$RcdSelect":
            return "%s[%s]" % (E(a[0]), E(a[1]))
        if q == "$FcnApply":
            return "ap(%s, %s)" % (E(a[0]), E(a[1]))
        if q == "$Tuple":
            return "(%s)" % "".join(E(x) + ", " for x in a) if a else "()"
        if q == "$IfThenElse":
            return "(%s if %s else %s)" % (E(a[1]), E(a[0]), E(a[2]))
        if q == "$Case":
            s = "no_case()"
            for p in reversed(a):
                c, e = self.args(p)
                s = E(e) if self.is_other(c) else "(%s if %s else %s)" % (E(e), E(c), s)
            return s
        if q in ("\\land", "$ConjList"):
            return "(%s)" % " and ".join(E(x) for x in a)
        if q in ("\\lor", "$DisjList"):
            return "(%s)" % " or ".join(E(x) for x in a)
        if q == "=>":
            return "(not %s or %s)" % (E(a[0]), E(a[1]))
        if q == "\\lnot":
            return "(not %s)" % E(a[0])
        if q in ("TRUE", "FALSE"):
            return q.capitalize()
        if q == "$RcdConstructor":
            ps = [self.args(p) for p in a]
            return "{%s}" % ", ".join("%s: %s" % (E(x), E(y)) for x, y in ps)
        if q == "$Except":
            s = E(a[0])
            for p in a[1:]:
                path, val = self.args(p)
                s = "exc(%s, (%s), lambda at: %s)" % (
                    s, "".join(E(x) + ", " for x in self.args(path)), E(val))
            return s
        if q == "$SetEnumerate":
            return "frozenset((%s))" % "".join(E(x) + ", " for x in a) if a else "frozenset()"
        if q == "\\union":
            return "(frozenset(%s) | frozenset(%s))" % (E(a[0]), E(a[1]))
        if q == "\\":
            return "(frozenset(%s) - frozenset(%s))" % (E(a[0]), E(a[1]))
        if q == "\\subseteq":
            return "frozenset(%s).issubset(frozenset(%s))" % (E(a[0]), E(a[1]))
        if q == "DOMAIN":
            return "domain(%s)" % E(a[0])
        if q == "..":
            return "range(%s, %s + 1)" % (E(a[0]), E(a[1]))
        if q == "Len":
            return "len(%s)" % E(a[0])
        if q == "Append":
            return "app(%s, %s)" % (E(a[0]), E(a[1]))
        if q == "SubSeq":
            return "subseq(%s)" % ", ".join(map(E, a))
        if q == "-.":
            return "(-%s)" % E(a[0])
        if q == "$FcnConstructor":
            (u, d), = self.bounds(n)
            return "fcn(%s, lambda v%s: %s)" % (E(d), u, E(a[0]))
        if q == "$BoundedExists":
            return "any(%s %s)" % (E(a[0]), self.comp(n))
        if q == "$BoundedForall":
            return "all(%s %s)" % (E(a[0]), self.comp(n))
        if q == "$SetOfAll":
            return "frozenset([%s %s])" % (E(a[0]), self.comp(n))
        if q == "$SubsetOf":
            (u, d), = self.bounds(n)
            return "frozenset([v%s for v%s in %s if %s])" % (u, u, E(d), E(a[0]))
        if q == "$BoundedChoose":
            (u, d), = self.bounds(n)
            return "choose(%s, lambda v%s: %s)" % (E(d), u, E(a[0]))
        if q == "FoldLeft":
            return "reduce(%s, %s, %s)" % (E(a[0]), E(a[2]), E(a[1]))
        if q == "SelectSeq":
            return "tuple(filter(%s, %s))" % (E(a[1]), E(a[0]))
        if q == "SelectInSubSeq":
            return "sel_first(%s)" % ", ".join(map(E, a))
        if q == "SelectLastInSubSeq":
            return "sel_last(%s)" % ", ".join(map(E, a))
        if q in ("SelectInSeq", "SelectLastInSeq"):
            f = "sel_first" if q == "SelectInSeq" else "sel_last"
            return "(lambda s_: %s(s_, 1, len(s_), %s))(%s)" % (f, E(a[1]), E(a[0]))
        if q == "@@":
            return "merge(%s, %s)" % (E(a[0]), E(a[1]))
        if q == ":>":
            return "{%s: %s}" % (E(a[0]), E(a[1]))
        raise Exception("operator " + q)


def generate():
    with tempfile.TemporaryDirectory(prefix="verif-s2p-") as d:
        xml = subprocess.run(
            ["java", "-cp", CP, "tla2sany.xml.XMLExporter", "-o", "-t", "Conf.tla"],
            cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout
    return Compiler(xml.decode()).compile()


def module(registry=None):
    """The compiled specification (regenerated when it is out of date)."""
    src = None
    if os.path.exists(OUT):
        with open(OUT) as f:
            src = f.read()
        if digest() not in src[:300]:
            src = None
    if src is None:
        src = generate()
    import types
    m = types.ModuleType("specpy")
    sys.setrecursionlimit(20000)
    exec(compile(src, "specpy", "exec"), m.__dict__)
    return m


if __name__ == "__main__":
    s = generate()
    with open(OUT, "w") as f:
        f.write(s)
    print(len(s.splitlines()), "lines")
