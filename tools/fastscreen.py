"""Run a share of every property's cases against VERIF_REPO and let the
compiled specification alone look at them (no TLC): a fast way to ask whether
a change is seen at all.  Prints the property that flags it first."""
import itertools
import os
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [HERE + "/harness", REPO + "/src"]
try:
    import urlstd.parse  # noqa
except Exception:  # noqa
    print("FLAGGED import")
    sys.exit()
import bulk    # noqa: E402
import gen     # noqa: E402
import plans   # noqa: E402
import rec     # noqa: E402
import screen  # noqa: E402

LIMIT = float(sys.argv[1]) if len(sys.argv) > 1 else 300
CAP = int(sys.argv[2]) if len(sys.argv) > 2 else 14000
ALL = "all" in sys.argv
scr = screen.Screen()


def stream(pid):
    g = gen.Gen(77, REPO)
    plan = plans.PLANS[pid]
    seeds = iter(list(plan["seeds"]("quick"))[::3])
    fuzz = (plan["fresh"](g) for _ in range(CAP // 4))
    blk = bulk.cases(pid, 5, 0, 8, CAP)
    return itertools.chain.from_iterable(itertools.zip_longest(seeds, fuzz, blk, blk, blk))


t0, n = time.time(), 0
live = {p: stream(p) for p in sorted(plans.PLANS)}
step = 100
hit = []
while live and time.time() - t0 < LIMIT:
    for p in list(live):
        k = 0
        for c in itertools.islice(live[p], step):
            k += 1
            if c is None:
                continue
            rec.run(c)
            n += 1
            if c["crash"] == "timeout" or scr.flagged(c):
                hit.append(p)
                break
        else:
            if k < step:
                del live[p]
            continue
        live.pop(p)
        if not ALL:
            print("FLAGGED", p, n, "cases %.0fs" % (time.time() - t0))
            sys.exit()
    step = min(step * 2, 1600)
print("FLAGGED " + " ".join(sorted(hit)) if hit else "QUIET", n, "cases %.0fs" % (time.time() - t0))
