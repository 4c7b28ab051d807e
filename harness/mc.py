"""Model checking runs per property (the invariants of the specification), and
the behaviours TLC prints from them for replay into the real code."""
import os
import re
import shutil
import signal
import subprocess

import tlc

HEAP = dict(inv="InvObjects InvRoundTrip InvLists InvEq", view="hpView", prop="PropFrame")
PARSE = dict(inv="InvMachine InvTerminates InvFail InvResult InvRoundTrip InvAbsolute "
                 "InvFragmentOnly InvUrlparse InvOrigin InvLog")
HOST = dict(inv="InvWf InvIdem InvValid InvFail InvIdna")
CODEC = dict(inv="InvFormRoundTrip InvPctRoundTrip InvAlphabet InvDecode")
OVER = dict(inv="InvTerminates InvFrame InvWf InvFail")
RECS = dict(HEAP, inv="InvLists InvParts")
RECQ = dict(inv="InvAnswers InvShorten InvFixed")
VALS = dict(inv="InvAnswer InvHeld InvValid InvFails")
SEQS = dict(inv="InvSame InvKnown")
THRS = dict(inv="InvAlone InvShared InvApart", prop="PropShared")
MODULES = {"MCThr": THRS, "MCSeq": SEQS, "MCRec": RECQ, "MCVal": VALS, "MCHeap": HEAP, "MCParse": PARSE, "MCHost": HOST, "MCCodec": CODEC, "MCOver": OVER}

# property -> [(module, mode, quick depth, thorough depth)], case kinds taken,
# and the observations the property is about.
P = ["rec", "href", "hrefnf", "g", "list"]
RUNS = {
    "C01": ([("MCParse", "abs", 3, 5), ("MCParse", "path", 3, 5), ("MCParse", "user", 3, 5)], None, P),
    "C02": ([("MCParse", "rel", 3, 4), ("MCHeap", "base", 2, 3)], None, P + ["raises"]),
    "C03": ([("MCParse", "abs", 3, 5), ("MCParse", "path", 3, 5), ("MCHeap", "set", 2, 3)], None, ["rt"]),
    "C04": ([("MCHeap", "set", 2, 3)], None, ["raises", "href", "g", "list"]),
    "C05": ([("MCHeap", "sync", 3, 4)], None, ["raises", "ret", "href", "g", "list"]),
    "C06": ([("MCHeap", "list", 3, 4)], None, ["raises", "ret", "pars"]),
    "C07": ([("MCCodec", "form", 2, 3), ("MCCodec", "fdec", 4, 5)], None, []),
    "C08": ([("MCHost", "dom", 2, 4), ("MCHost", "opq", 3, 4)], ["host"], ["errs", "cls"]),
    "C09": ([("MCHost", "v4", 4, 5)], ["host", "hval"], ["errs", "cls"]),
    "C10": ([("MCHost", "v6", 4, 5)], ["host", "hval"], ["errs", "cls"]),
    "C11": ([("MCHost", "idn", 3, 4)], ["idna", "host"], ["errs", "cls"]),
    "C12": ([("MCCodec", "set", 2, 3), ("MCCodec", "u8", 3, 4), ("MCCodec", "dec", 4, 5)], None,
            ["rec", "href"]),
    "C13": ([("MCParse", "blob", 4, 5)], None, ["origin", "g"]),
    "C14": ([("MCParse", "val", 3, 4), ("MCParse", "rel", 2, 3)], None, ["errs", "can"]),
    "C15": ([("MCHost", "v4", 3, 5), ("MCHost", "v6", 3, 5), ("MCHost", "dom", 2, 4),
             ("MCHost", "opq", 2, 4)], ["hval"], ["errs"]),
    "C16": ([("MCHeap", "heap", 3, 4), ("MCHeap", "recs", 3, 4), ("MCThr", "", 3, 4)], None, ["raises", "ret", "href", "list", "pars", "g"]),
    "C17": ([("MCHeap", "eq", 2, 3)], None, ["ret"]),
    "C18": ([("MCParse", "val", 2, 4), ("MCParse", "user", 3, 5), ("MCHeap", "set", 2, 3)], None,
            ["cls", "can", "raises"]),
    "C19": ([("MCParse", "up", 4, 5), ("MCParse", "abs", 3, 4)], None, ["up", "upnf"]),
    "C20": ([("MCOver", "", 2, 3), ("MCHeap", "recs", 3, 4)], None, ["cls", "errs"]),
    "C21": ([("MCCodec", "enc", 2, 3)], None, ["rec", "href"]),
    "C22": ([("MCParse", "val", 3, 4), ("MCParse", "user", 3, 4), ("MCParse", "rel", 2, 3), ("MCHost", "v4", 3, 5)],
            ["host", None], ["cls", "rec", "log"]),
    "C23": ([("MCRec", "", 1, 4), ("MCOver", "", 1, 3), ("MCParse", "abs", 3, 4)], None, ["q", "rec"]),
    "C24": ([("MCVal", "", 3, 4)], None, []),
    "C25": ([("MCSeq", "", 2, 3)], None, ["rec", "href", "hrefnf", "errs", "cls", "raises", "ret", "list", "pars", "valid"]),
}


def cfg(module, mode, depth, emit):
    m = RECS if mode == "recs" else MODULES[module]
    out = ["SPECIFICATION Spec", "CHECK_DEADLOCK FALSE",
           "CONSTANTS %s Depth = %d Emit = %s" % (
               'Mode = "%s"' % mode if mode else "", depth, "TRUE" if emit else "FALSE"),
           "INVARIANTS " + m["inv"]]
    if "view" in m:
        out.append("VIEW " + m["view"])
    if "prop" in m:
        out.append("PROPERTY " + m["prop"])
    return "\n".join(out) + "\n"


def start(pid, tier, d):
    jobs = []
    for n, (module, mode, dq, dt) in enumerate(RUNS[pid][0]):
        depth = dt if tier == "thorough" else dq
        c = os.path.join(d, "mc%d.cfg" % n)
        with open(c, "w") as f:
            f.write(cfg(module, mode, depth, True))
        out = os.path.join(d, "mc%d.out" % n)
        meta = os.path.join(d, "mc%d.meta" % n)
        os.makedirs(meta)
        cmd = ["java", "-XX:+UseParallelGC", "-Xmx4g", "-Xss64m", "-Djava.io.tmpdir=" + meta, "-cp", tlc.CP, "tlc2.TLC",
               "-workers", "3", "-metadir", meta, "-noGenerateSpecTE", "-config", c,
               os.path.join(tlc.SPEC, module + ".tla")]
        fh = open(out, "w")
        p = subprocess.Popen(cmd, stdout=fh, stderr=subprocess.STDOUT, cwd=meta,
                             start_new_session=True)
        jobs.append({"p": p, "out": out, "module": module, "fh": fh,
                     "cfg": "%s depth %d" % (mode, depth) if mode else "depth %d" % depth})
    return jobs


def finish(jobs, timeout=3000):
    """Wait; split the output into behaviours and the rest."""
    res = []
    for j in jobs:
        j["p"].wait(timeout)
        j["fh"].close()
        beh, rest, n = j["out"] + ".beh", [], 0
        seen = set()        # one behaviour may end several runs
        with open(j["out"], errors="replace") as f, open(beh, "w") as g:
            for line in f:
                if line.startswith('"BEHAVIOUR '):
                    if j["module"] == "MCThr":
                        if line in seen:
                            continue
                        seen.add(line)
                    g.write(tlc.unquote(line.rstrip("\n"))[len("BEHAVIOUR "):] + "\n")
                    n += 1
                elif not line.startswith(("Linting", "Progress")):
                    rest.append(line)
        os.unlink(j["out"])
        text = "".join(rest)
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", text)
        viol = "is violated" in text
        if j["p"].returncode != 0 and not viol:
            raise tlc.TLCError("%s (%s) failed:\n%s" % (j["module"], j["cfg"], text[-3000:]))
        res.append({"module": j["module"], "cfg": j["cfg"], "behaviours": beh, "replayed": n,
                    "generated": int(m.group(1)) if m else 0,
                    "distinct": int(m.group(2)) if m else 0, "violation": viol,
                    "out": text[-6000:], "what": (RECS if j["cfg"].startswith("recs") else MODULES[j["module"]])["inv"]})
    return res


def kill(jobs):
    for j in jobs or []:
        if j["p"].poll() is None:
            try:
                os.killpg(j["p"].pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            j["p"].wait()
