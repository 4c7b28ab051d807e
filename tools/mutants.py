"""Mutation analysis of the machinery (not a check).

  mutants.py tests OUT.json [file.py]   one-token mutants of the source that
                                        pass the repository's tests
  mutants.py combo OUT.json SEED N      N sampled "rare combination" mutants: a condition or
                                        a statement that also depends on something else in
                                        scope; those that pass the tests
  mutants.py screen IN.json OUT.json    which of them the compiled
                                        specification flags, and for what
"""
import ast
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.In: "not in", ast.NotIn: "in",
       ast.Is: "is not", ast.IsNot: "is"}


def gen(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x.encode()))
    b = src.encode()

    def span(n):
        return off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        s, e = span(n)
        return b[s:e].decode()
    out = []

    def add(n, new, s=None, e=None):
        if s is None:
            s, e = span(n)
        if b[s:e].decode() != new:
            out.append((s, e, new, n.lineno))

    doc = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
    infn = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            for x in n.body:
                for y in ast.walk(x):
                    infn.add(y)
    for n in ast.walk(tree):
        if n not in infn or n in doc:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            l, r = span(n.left), span(n.comparators[0])
            op = type(n.ops[0])
            if op in CMP:
                add(n, text(n.left) + " " + CMP[op] + " " + text(n.comparators[0]))
            if op is ast.Eq:
                add(n, "(" + text(n.left) + " >= " + text(n.comparators[0]) + ")")
        if isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join("(" + text(v) + ")" for v in n.values) + ")")
            for i in range(len(n.values)):
                j = " and " if isinstance(n.op, ast.And) else " or "
                vs = [v for k, v in enumerate(n.values) if k != i]
                add(n, "(" + j.join("(" + text(v) + ")" for v in vs) + ")")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, "(" + text(n.operand) + ")")
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            add(n, str(n.value + 1))
            if n.value > 0:
                add(n, str(n.value - 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and 0 < len(n.value) <= 12 and text(n)[:1] in "\"'":
            add(n, repr(n.value[1:]))
            add(n, repr(n.value[:-1]))
            add(n, repr(n.value + "x"))
        if isinstance(n, (ast.If, ast.While)):
            add(n.test, "True")
            add(n.test, "False")
            add(n.test, "not (" + text(n.test) + ")")
        if isinstance(n, ast.IfExp):
            add(n, text(n.body))
            add(n, text(n.orelse))
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr, ast.Delete)):
            add(n, "pass")
        if isinstance(n, ast.Return) and n.value is not None:
            add(n, "return None")
        if isinstance(n, (ast.Raise, ast.Continue, ast.Break)):
            add(n, "pass")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            add(n, text(n.left))
            add(n, text(n.right))
            add(n, "(" + text(n.left) + ") " + ("-" if isinstance(n.op, ast.Add) else "+") + " (" + text(n.right) + ")")
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.BitAnd, ast.BitOr)):
            add(n, text(n.left))
            add(n, text(n.right))
        if isinstance(n, ast.Slice):
            for x in (n.lower, n.upper):
                if x is not None:
                    add(x, "")
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in (
                "lower", "strip", "lstrip", "rstrip", "copy", "upper", "replace", "encode", "decode"):
            add(n, text(n.func.value))
        if isinstance(n, ast.Call) and len(n.args) == 1 and not n.keywords and isinstance(n.func, ast.Name):
            add(n, text(n.args[0]))
        if isinstance(n, ast.For):
            add(n.iter, "list(" + text(n.iter) + ")[:-1]")
            add(n.iter, "list(" + text(n.iter) + ")[1:]")
    seen, res = set(), []
    for s, e, new, ln in out:
        m = b[:s] + new.encode() + b[e:]
        if m in seen:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except (SyntaxError, ValueError):
            continue
        res.append({"line": ln, "old": b[s:e].decode(), "new": new, "s": s, "e": e})
    return res


EXTRA = {
    "urlstring": ["len(urlstring) < 25", "'%' not in urlstring", "urlstring.isascii()", "len(urlstring) % 7 != 3", "' ' not in urlstring",
                  "urlstring.count('/') < 5", "'@' not in urlstring"],
    "url": ["url.port is None", "url.username == ''", "url.query is None", "url.fragment is None", "url.scheme != 'wss'", "url.scheme != 'ftp'",
            "url.host != ''", "len(url.path) < 3", "url.password == ''", "not isinstance(url.host, int)", "not isinstance(url.host, tuple)",
            "not isinstance(url.path, str)", "url.host is not None", "url.is_special()"],
    "base": ["base is None or base.query is None", "base is None or base.port is None", "base is None or base.username == ''",
             "base is None or base.fragment is None", "base is None or base.scheme != 'ws'", "base is None or base.host", "base is None"],
    "buffer": ["len(buffer) < 9", "buffer.isascii()", "'%' not in buffer", "len(buffer) != 3", "buffer.lower() == buffer"],
    "state_override": ["state_override is None", "state_override is not None"],
    "c": ["c.isascii()", "c != '+'", "c != 'e'"],
    "host": ["len(host) < 12", "host.isascii()", "'%' not in host", "host.lower() == host"],
    "domain": ["len(domain) < 12", "domain.isascii()", "domain.count('.') < 2", "domain.lower() == domain"],
    "address": ["len(address) < 12", "len(address) != 4"],
    "parts": ["len(parts) < 3", "parts[0] != '0'"],
    "piece": ["len(piece) < 4", "piece != '0'"],
    "piece_index": ["piece_index < 5", "piece_index != 2"],
    "name": ["name != ''", "name.isascii()", "len(name) < 5"],
    "value": ["value != ''", "str(value).isascii()", "len(str(value)) < 5"],
    "encoding": ["encoding == 'utf-8'", "encoding != 'koi8-r'"],
    "s": ["s.isascii()", "len(s) < 7", "' ' not in s"],
    "safe": ["safe != ''", "len(safe) < 3"],
    "query": ["len(query) < 20"],
    "be_strict": ["be_strict", "not be_strict"],
    "is_not_special": ["is_not_special"],
    "exclude_fragment": ["exclude_fragment", "not exclude_fragment"],
    "exclude_fragments": ["exclude_fragments", "not exclude_fragments"],
    "allow_fragments": ["allow_fragments"],
    "base_": [],
    "index": ["index < 20"],
}
SELF = {
    "URLRecord": ["self.port is None", "self.username == ''", "self.query is None", "self.fragment is None", "self.scheme != 'ws'",
                  "not isinstance(self.path, str)", "len(self.path) < 3", "self.host is not None", "self.host != ''"],
    "URL": ["self._url.port is None", "self._url.username == ''", "self._url.query is None", "self._url.fragment is None",
            "self._url.scheme != 'ws'", "not isinstance(self._url.path, str)", "self._url.host is not None", "len(self._query) < 2",
            "self._url.query != ''"],
    "URLSearchParams": ["len(self._list) < 3", "len(self._list) > 0", "len(self._list) != 2"],
    "Origin": ["self.port is None", "self.scheme != 'ws'"],
    "ValidityState": ["self.validation_errors < 3"],
}


def gen_combo(src, seed, n):
    """Conditions and statements that also depend on something else."""
    import random
    r = random.Random(seed)
    tree = ast.parse(src)
    off = [0]
    for x in src.splitlines(keepends=True):
        off.append(off[-1] + len(x.encode()))
    b = src.encode()

    def span(x):
        return off[x.lineno - 1] + x.col_offset, off[x.end_lineno - 1] + x.end_col_offset

    def text(x):
        s, e = span(x)
        return b[s:e].decode()
    out = []

    def visit(f, cls):
        names = [a.arg for a in f.args.args]
        extras = []
        for x in ast.walk(f):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                names.append(x.id)
        for k in dict.fromkeys(names):
            extras += EXTRA.get(k, [])
        if "self" in names:
            extras += SELF.get(cls, [])
        if not extras:
            return
        for x in ast.walk(f):
            if isinstance(x, (ast.If, ast.While, ast.IfExp)):
                for e in extras:
                    t = text(x.test)
                    out.append((x.test, "((%s) and (%s))" % (t, e)))
                    out.append((x.test, "((%s) or not (%s))" % (t, e)))
            if isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr)) and x.lineno == x.end_lineno and not (
                    isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)):
                for e in extras:
                    out.append((x, "if %s: %s" % (e, text(x))))
            if isinstance(x, ast.Return) and x.value is not None and x.lineno == x.end_lineno and text(x.value) in (
                    "True", "False"):
                for e in extras:
                    out.append((x.value, "(%s)" % e))
    for x in ast.walk(tree):
        if isinstance(x, ast.ClassDef):
            for y in x.body:
                if isinstance(y, ast.FunctionDef):
                    visit(y, x.name)
    for x in tree.body:
        if isinstance(x, ast.FunctionDef):
            visit(x, "")
    r.shuffle(out)
    res = []
    for x, new in out:
        s, e = span(x)
        try:
            ast.parse(b[:s] + new.encode() + b[e:])
        except (SyntaxError, ValueError):
            continue
        res.append({"line": x.lineno, "old": b[s:e].decode(), "new": new, "s": s, "e": e})
        if len(res) >= n:
            break
    return res


def apply(src, m):
    b = src.encode()
    return (b[:m["s"]] + m["new"].encode() + b[m["e"]:]).decode()


COPY = None


def mycopy():
    global COPY
    if COPY is None:
        COPY = tempfile.mkdtemp(prefix="mut-", dir=os.environ["MUTDIR"]) + "/repo"
        shutil.copytree("/repo", COPY, symlinks=True)
    return COPY


def put(m, f):
    S = mycopy()
    src = open("/repo/src/urlstd/" + f).read()
    open(S + "/src/urlstd/" + f, "w").write(apply(src, m))
    return S


def test_one(a):
    m, f, skip = a
    S = put(m, f)
    env = dict(os.environ, PYTHONPATH=S + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    cmd = ["timeout", "60", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--color=no"]
    for s in skip:
        cmd += ["--deselect", s]
    r = subprocess.run(cmd, cwd=S, env=env, capture_output=True, text=True)
    return r.returncode == 0


def screen_one(a):
    m, f = a
    S = put(m, f)
    r = subprocess.run(["timeout", "900", PY, "-B", HERE + "/tools/fastscreen.py", "900", os.environ.get("CAP", "14000")], capture_output=True, text=True,
                       env=dict(os.environ, VERIF_REPO=S))
    m["res"] = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else "rc=%d %s" % (r.returncode, r.stderr[-300:])
    return m


def unstable():
    """Tests that fail anyway."""
    return json.dumps(["tests/test_api.py::test_idna_domain_to_ascii_use_std3_rules",
                       "tests/test_api.py::test_idna_domain_to_unicode_use_std3_rules",
                       "tests/wpt/test_idna_test_v2.py::test_to_ascii[idna_test267]"])


def main():
    os.environ["MUTDIR"] = tempfile.mkdtemp(prefix="muts-")
    try:
        with cf.ProcessPoolExecutor(8, mp_context=mp.get_context("fork")) as ex:
            if sys.argv[1] in ("tests", "combo"):
                f = sys.argv[3] if sys.argv[1] == "tests" and len(sys.argv) > 3 else "parse.py"
                src = open("/repo/src/urlstd/" + f).read()
                ms = gen(src) if sys.argv[1] == "tests" else gen_combo(src, int(sys.argv[3]), int(sys.argv[4]))
                print(len(ms), "mutants", flush=True)
                skip = json.loads(os.environ.get("SKIP") or unstable())
                ok = list(ex.map(test_one, [(m, f, skip) for m in ms]))
                keep = [dict(m, file=f) for m, o in zip(ms, ok) if o]
                json.dump(keep, open(sys.argv[2], "w"), indent=0)
                print(len(keep), "survive the tests")
            else:
                ms = json.load(open(sys.argv[2]))
                done = []
                for m in ex.map(screen_one, [(m, m["file"]) for m in ms]):
                    done.append(m)
                    print(m["line"], repr(m["old"][:50]), "->", repr(m["new"][:50]), m["res"][:100], flush=True)
                    json.dump(done, open(sys.argv[3], "w"), indent=0)
    finally:
        shutil.rmtree(os.environ["MUTDIR"], ignore_errors=True)


main()
