"""Try planted bugs:  plant.py DEFS.py [id...]      (NOCHECK=1: tests and demo only)
DEFS.py defines BUGS: dicts with id, p(roperty), edits [(old, new[, occurrence])],
demo (Python), needs, what.  Each is applied to a scratch copy of /repo, the
repository's tests, the demonstration and the property's quick check are run
on the copy, and what counts as a bug is stored in /verif/seeded/<id>/."""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
spec = importlib.util.spec_from_file_location("d", sys.argv[1])
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
D = tempfile.mkdtemp(prefix="plant-")


def edit(t, b):
    for old, new, *nth in b["edits"]:
        n = t.count(old)
        if n == 0 or (n > 1 and not nth):
            print(b["id"], "EDIT count", n, repr(old[:60]))
            return None
        k = nth[0] if nth else 0
        parts = t.split(old)
        t = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
    return t


def one(b):
    S = os.path.join(D, "repo")
    shutil.rmtree(S, ignore_errors=True)
    shutil.copytree("/repo", S, symlinks=True)
    f = S + "/src/urlstd/" + b.get("file", "parse.py")
    t = edit(open(f).read(), b)
    if t is None:
        return
    open(f, "w").write(t)
    diff = subprocess.run(["git", "-C", S, "diff"], capture_output=True, text=True).stdout
    env = dict(os.environ, PYTHONPATH=S + "/src", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--color=no", "-o", "junit_family=xunit2",
                    "--junitxml=" + D + "/j.xml"], cwd=S, env=env, capture_output=True, text=True)
    subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", D + "/j.json", "junit:" + D + "/j.xml"], capture_output=True)
    lost = BASE - set(json.load(open(D + "/j.json"))["passed"])
    dd = os.path.join(D, b["id"])
    os.makedirs(dd)
    open(dd + "/patch.diff", "w").write(diff)
    open(dd + "/demo.py", "w").write(
        "import sys, os\nsys.path.insert(0, os.path.join(os.getcwd(), 'src'))\nfrom urlstd.parse import *\n"
        "from urlstd.error import *\n\n" + textwrap.dedent(b["demo"]).strip() + "\nprint('ok')\n")
    open(dd + "/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
    os.chmod(dd + "/demo.sh", 0o755)
    json.dump({"property": b["p"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(dd + "/meta.json", "w"), indent=1)
    env.pop("PYTHONPATH")
    d0 = subprocess.run(["bash", dd + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    d1 = subprocess.run(["bash", dd + "/demo.sh"], cwd=S, capture_output=True, text=True)
    if d0.returncode:
        print(d0.stderr[-400:])
    good = not lost and not d0.returncode and d1.returncode
    res = ""
    if good and not os.environ.get("NOCHECK"):
        c = subprocess.run([PY, "-B", HERE + "/check.py", "--property", b["p"]], env=dict(env, VERIF_REPO=S),
                           capture_output=True, text=True)
        res = "CAUGHT" if c.returncode == 1 and "VIOLATION property=" + b["p"] in c.stdout else \
            "MISSED rc=%d %s" % (c.returncode, c.stderr[-500:] if c.returncode not in (0, 1) else "")
        res += " " + (c.stdout.strip().splitlines() or [""])[-1][-60:]
        t = os.path.join(HERE, "seeded", b["id"])
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(dd, t)
    print(b["id"], b["p"], "tests lost %d" % len(lost), "demo:%d/%d" % (d0.returncode, d1.returncode), res, flush=True)


try:
    for b in m.BUGS:
        if not sys.argv[2:] or b["id"] in sys.argv[2:]:
            one(b)
finally:
    shutil.rmtree(D, ignore_errors=True)
