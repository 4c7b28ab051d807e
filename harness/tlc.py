"""Run TLC on the modules of /verif/spec."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(HERE), "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TLCError(Exception):
    pass


def scratch():
    return tempfile.mkdtemp(prefix="verif-")


def run_tlc(module, cfg=None, env=None, workers=8, heap="6g", extra=(), timeout=850,
            stack="64m"):
    meta = scratch()
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss" + stack,
           "-Dtlc2.tool.queue.IStateQueue=MemStateQueue", "-Djava.io.tmpdir=" + meta,
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta,
           "-noGenerateSpecTE", "-config", os.path.join(SPEC, cfg or module + ".cfg"),
           *extra, os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        p = subprocess.run(cmd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout, cwd=meta)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf-8", "replace")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", out)
    return {"rc": p.returncode, "out": out, "wall": time.time() - t,
            "generated": int(m.group(1)) if m else 0,
            "distinct": int(m.group(2)) if m else 0}


def unquote(line):
    """A PrintT'ed TLA+ string."""
    return line[1:-1].replace('\\"', '"').replace("\\\\", "\\")


def conf(cases, registry, workers=8, timeout=850):
    """Check recorded cases against the specification.  Returns
    (checked, mismatches [(index, info)], needs [(index, info)], stats)."""
    if not cases:
        return 0, [], [], {"wall": 0, "distinct": 0, "generated": 0}
    d = scratch()
    try:
        f = os.path.join(d, "cases.ndjson")
        with open(f, "w") as fh:
            for c in cases:
                fh.write(json.dumps(c, separators=(",", ":")) + "\n")
        r = run_tlc("Conf", env={"CASES": f, "REGISTRY": registry}, workers=workers,
                    timeout=timeout)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    mism, need = [], []
    for line in r["out"].splitlines():
        if line.startswith('"MISMATCH ') or line.startswith('"NEED '):
            kind, i, rest = unquote(line).split(" ", 2)
            (mism if kind == "MISMATCH" else need).append((int(i) - 1, json.loads(rest)))
    n = len(cases)
    if r["rc"] != 0 or r["distinct"] != 2 * n:
        raise TLCError("TLC did not check all %d cases (rc=%s, distinct=%s):\n%s" % (
            n, r["rc"], r["distinct"], r["out"][-4000:]))
    return n, mism, need, {k: r[k] for k in ("wall", "distinct", "generated")}
