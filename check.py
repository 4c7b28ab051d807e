#!/opt/venv/bin/python -B
"""Decide one property:  check.py --property C01 [--tier quick|thorough]
                         check.py --replay FILE

The real code (/repo/src) is run on directed, generated and TLC-generated
operations and recorded; the TLA+ specification judges every recording
(spec/Conf.tla); the specification itself is model checked (spec/MC*.tla)."""
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import shutil
import sys
import tempfile
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [os.path.join(HERE, "harness"), os.path.join(REPO, "src")]
REGISTRY = os.path.join(HERE, "data", "schemes.json")
NPROC = int(os.environ.get("VERIF_PROCS", "8"))

import mc        # noqa: E402
import tlc       # noqa: E402


def limit():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def record_chunk(args):
    """Record the cases of one file; write them to another."""
    src, dst = args
    limit()
    import rec
    slow = 0
    with open(src) as f, open(dst, "w") as g:
        for line in f:
            c = json.loads(line)
            if slow < 3:
                rec.run(c)
                slow += c["crash"] == "timeout"
                g.write(json.dumps(c, separators=(",", ":")) + "\n")
    return dst


def explore_chunk(args):
    limit()
    import explore
    return explore.worker(args)


def replay_chunk(args):
    limit()
    import replayer
    return replayer.chunk(args)


def seeds_chunk(args):
    plan_id, tier, dst = args
    limit()
    import plans
    with open(dst, "w") as f:
        n = 0
        for c in plans.PLANS[plan_id]["seeds"](tier):
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
            n += 1
    return n


def pool(n=NPROC):
    return cf.ProcessPoolExecutor(n, mp_context=mp.get_context("spawn"))


def split(path, d, n, tag):
    """Round-robin a file of lines into n files."""
    outs = [os.path.join(d, "%s%d.in" % (tag, i)) for i in range(n)]
    fhs = [open(o, "w") for o in outs]
    with open(path) as f:
        for i, line in enumerate(f):
            fhs[i % n].write(line)
    for f in fhs:
        f.close()
    return outs


def load(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def flatten(cases):
    out = []
    for c in cases:
        if c["k"] == "thr":
            if c["crash"]:
                h = {"k": "hist", "ev": [], "env": [], "cl": [], "crash": c["crash"], "obs": {}}
                out.append(h)
                continue
            for h in c["hs"]:
                h.setdefault("crash", "")
                h["thr"] = True
                out.append(h)
        else:
            out.append(c)
    return out


def judge(cases, stats, rounds=6):
    """Let the specification judge recorded cases.
    Returns (mismatches [(case, info)], undecided)."""
    import icuref
    bad, todo, asked = [], cases, {}
    for _ in range(rounds):
        n, mism, need, st = conf(todo)
        stats["states"] += st["distinct"]
        stats["transitions"] += st["generated"]
        bad += [(todo[i], info) for i, info in mism]
        nxt = []
        for i, q in need:
            key = (tuple(q["d"]), q["strict"])
            if key not in asked:
                asked[key] = icuref.ask(q["d"], q["strict"])
            c = todo[i]
            if asked[key] in c["env"]:
                stats["undecided"] += 1
                continue
            c["env"].append(asked[key])
            nxt.append(c)
        todo = nxt
        if not todo:
            break
    stats["undecided"] += len(todo)
    stats["env"] += len(asked)
    return bad


def conf(cases):
    """tlc.conf, isolating a case on which evaluation itself fails (an
    observation that is not even of the type the specification knows)."""
    try:
        return tlc.conf(cases, REGISTRY)
    except tlc.TLCError as e:
        if len(cases) == 1:
            if "TLC threw an unexpected exception" in str(e) or "evaluat" in str(e).lower():
                return 1, [(0, {"tags": ["type"], "exp": str(e)[-800:]})], [], {
                    "wall": 0, "distinct": 2, "generated": 2}
            raise
        h = len(cases) // 2
        a, b = conf(cases[:h]), conf(cases[h:])
        off = lambda l: [(i + h, x) for i, x in l]  # noqa: E731
        return (a[0] + b[0], a[1] + off(b[1]), a[2] + off(b[2]),
                {k: a[3][k] + b[3][k] for k in a[3]})


# ------------------------------------------------------------ known findings
def known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        for k in json.load(open(p))["known"]:
            if k["property"] == pid:
                out.append(k)
    return out


def bare(d):
    """A case without what was observed."""
    if "ev" in d:
        d = dict(d, ev=[{k: v for k, v in e.items() if k != "obs"} for e in d["ev"]])
    if "cs" in d:
        d = dict(d, cs=[bare({k: v for k, v in x.items() if k not in ("obs", "env", "crash")}) for x in d["cs"]])
    return d


def size(c):
    if "cs" in c:
        return max(map(size, c["cs"]))
    if c["k"] != "hist":
        return len(c.get("s", ()))
    return max([len(e.get("v", ())) for e in c["ev"]] or [0])


def key(c):
    """What identifies a finding: the operation and its arguments."""
    d = {k: v for k, v in c.items() if k not in ("obs", "env", "cl", "crash", "thr", "id", "fl")}
    return json.dumps(bare(d), sort_keys=True)


# -------------------------------------------------------------------- replay
def pretty(x):
    """Code point sequences as text."""
    if isinstance(x, list):
        if x and all(isinstance(i, int) and 0 <= i <= 0x10FFFF for i in x):
            return ascii("".join(map(chr, x)))
        return [pretty(i) for i in x]
    if isinstance(x, dict):
        return {k: pretty(v) for k, v in x.items()}
    return x


def save_replay(pid, n, c, info):
    d = os.path.join(HERE, "replay")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, "%s-%d.json" % (pid, n))
    with open(f, "w") as fh:
        json.dump({"property": pid, "tags": info.get("tags"), "case": c,
                   "expected": info.get("exp"),
                   "readable": {"case": pretty({k: v for k, v in c.items() if k != "env"}),
                                "expected": pretty(info.get("exp"))}}, fh, indent=1)
    return f


def shrink_key(c):
    return len(json.dumps(c))


def replay(path):
    r = json.load(open(path))
    if r["case"].get("k") == "model":
        print("model counterexample:\n" + r["case"]["trace"])
        return 1
    import rec
    c = r["case"]
    if c.get("thr"):
        print("recorded while other threads ran; replaying alone")
    for e in c.get("ev", []):
        e.pop("obs", None)
    c.pop("obs", None)
    rec.run(c)
    st = {"states": 0, "transitions": 0, "undecided": 0, "env": 0}
    bad = judge([c], st)
    for c, info in bad:
        print(json.dumps({"tags": info["tags"], "case": pretty(c),
                          "expected": pretty(info["exp"])}, indent=1))
        print("VIOLATION property=%s replay=%s" % (r["property"], path))
    if not bad:
        print("no violation")
    return 1 if bad else 0


# ---------------------------------------------------------------------- main
def check(pid, tier, seed):
    t0 = time.time()
    stats = {"states": 0, "transitions": 0, "undecided": 0, "env": 0}
    d = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    model, bad, total = [], [], 0
    try:
        # the specification itself, and behaviours generated from it
        model = mc.start(pid, tier, d)
        with pool() as ex:
            import plansize
            iters, cap, wall, budget, sample = plansize.size(pid, tier)
            fs = ex.submit(seeds_chunk, (pid, tier, os.path.join(d, "seeds")))
            ef = []
            for w in range(NPROC):
                out = os.path.join(d, "exp%d" % w)
                ef.append((out, ex.submit(
                    explore_chunk, (pid, seed, iters, cap, wall, out, w, NPROC, budget, sample))))
            nseeds = fs.result()
            rf = [ex.submit(record_chunk, (f, f + ".out"))
                  for f in split(os.path.join(d, "seeds"), d, NPROC, "seed")]
            files = [f.result() for f in rf]
            exps = [(o, f.result()) for o, f in ef]
            modelres = mc.finish(model)
            gf = [(m, ex.submit(replay_chunk, (f, pid, 20))) for m in modelres
                  for f in split(m["behaviours"], d, NPROC, os.path.basename(m["behaviours"]))]
            replayed = 0
            for m in modelres:
                m["replayed"] = 0
            for m, f in gf:
                n, b = f.result()
                replayed += n
                m["replayed"] += n
                bad += b
        t1 = time.time()
        if os.environ.get("VERIF_VERBOSE"):
            print("recorded in %.1fs" % (t1 - t0))
        executed = nseeds + sum(r["screened"] for _, r in exps)
        cases, seen = [], set()
        for f in files + [o for o, _ in exps]:
            for c in flatten(load(f)):
                k = key(c)
                if k in seen and not c.get("thr"):
                    continue
                seen.add(k)
                cases.append(c)
        total = len(cases)
        # the long ones first: they would keep single workers busy at the end
        cases.sort(key=lambda c: -size(c))
        # big batches, so that TLC's start-up does not dominate
        for i in range(0, len(cases), 40000):
            bad += judge(cases[i:i + 40000], stats)
        wrong = {id(c) for c, _ in bad}
        over = sum(1 for c in cases if c.get("fl") and id(c) not in wrong)
        samples = [pretty(bare({k: v for k, v in c.items() if k not in ("env", "obs", "crash")}))
                   for c in (cases[0], cases[total // 2], cases[-1])] if cases else []
    finally:
        mc.kill(model)
        shutil.rmtree(d, ignore_errors=True)
    if os.environ.get("VERIF_VERBOSE"):
        print("judged %d in %.1fs" % (total, time.time() - t1))

    viol, printed = [], []
    kn = known(pid)
    seenk = set()
    for c, info in sorted(bad, key=lambda x: shrink_key(x[0])):
        k = key(c)
        hit = [f for f in kn if f["key"] == k]
        if hit:
            seenk.add(k)
            printed.append("KNOWN-FINDING: property=%s %s" % (pid, hit[0]["what"]))
            continue
        viol.append((c, info))
    for m in modelres:
        if m["violation"]:
            viol.append(({"k": "model", "module": m["module"], "trace": m["out"]},
                         {"tags": ["model"], "exp": ""}))
    for p in sorted(set(printed)):
        print(p)
    for n, (c, info) in enumerate(viol[:3]):
        f = save_replay(pid, n, c, info)
        print("  %s %s" % (info.get("tags"), json.dumps(pretty(
            {k: v for k, v in c.items() if k != "env"}))[:1500]))
        print("  expected %s" % json.dumps(pretty(info.get("exp")))[:1000])
        print("VIOLATION property=%s replay=%s" % (pid, f))
    gen_states = sum(m["distinct"] for m in modelres)
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": gen_states + stats["states"],
            "transitions": sum(m["generated"] for m in modelres) + stats["transitions"],
            "traces_validated_against_impl": total - stats["undecided"] + replayed,
            "evaluations": executed + replayed,
            "distinct_nontrivial": total,
            "rule": "a case counts once per distinct operation and arguments; of the generated "
                    "ones only those kept that reach a new branch or a new set of branches of "
                    "the code under test, plus a random sample",
            "samples": samples,
            "model_runs": [{k: m[k] for k in ("module", "cfg", "distinct", "generated",
                                              "replayed", "what")} for m in modelres],
            "undecided": stats["undecided"],
            "environment_answers": stats["env"],
            "screened_by_compiled_specification": sum(r["screened"] for _, r in exps),
            "flagged_but_cleared_by_tlc": over,
            "flagged_for_tlc": sum(r["flagged"] for _, r in exps),
            "branch_edges": max([r["edges"] for _, r in exps] or [0]),
        },
        "assumptions": [
            "UTS #46 mapping of non-ASCII (and xn--) domain labels is the environment's answer, "
            "taken from ICU directly with the standard's flags",
            "legacy query encodings' byte tables are Python's codecs",
        ],
        "wall_s": round(time.time() - t0, 1),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: %d recorded behaviours judged, %d undecided, %d model states, %d behaviours replayed, "
          "%d violations, %.0fs" % (pid, tier, total, stats["undecided"], gen_states, replayed, len(viol), time.time() - t0))
    return 1 if viol else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        return replay(a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        import urlstd.parse  # noqa
    except Exception:  # noqa
        traceback.print_exc()
        f = save_replay(a.property, 0, {"k": "model", "trace": traceback.format_exc()},
                        {"tags": ["import"]})
        print("VIOLATION property=%s replay=%s" % (a.property, f))
        return 1
    return check(a.property, a.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
