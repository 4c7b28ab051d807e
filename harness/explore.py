"""Coverage-guided selection of cases.  Cases are generated, run against the
real code under branch monitoring, and the ones that exercise new branches or
new combinations of branches are kept for the specification to judge.  Fixed
iteration counts and seeds: a run is reproducible."""
import copy
import json
import os
import sys
import time

REPO = os.environ.get("VERIF_REPO", "/repo")


class Cov:
    """Branch edges of the code under test, via sys.monitoring."""

    def __init__(self, root):
        self.root = root
        self.hits = set()
        self.on = False
        self.names = {}
        m = sys.monitoring
        self.id = 3
        m.use_tool_id(self.id, "verif")
        m.register_callback(self.id, m.events.BRANCH, self.cb)

    def cb(self, code, off, dst):
        k = self.names.get(code.co_filename)
        if k is None:
            k = self.names[code.co_filename] = code.co_filename.startswith(self.root)
        if not k:
            return sys.monitoring.DISABLE
        self.hits.add((id(code), off, dst))

    def start(self):
        self.hits = set()
        sys.monitoring.set_events(self.id, sys.monitoring.events.BRANCH)

    def stop(self):
        sys.monitoring.set_events(self.id, 0)
        return self.hits


FLAGGED = 300       # candidates per worker that TLC gets to judge
SECONDS = 40        # roughly what they may cost
HEAVY = 30 << 20    # bytes of them after which there is enough


def numbers(x):
    if isinstance(x, dict):
        x = x.values()
    return 1 if isinstance(x, int) else sum(map(numbers, x)) if isinstance(x, (list, tuple, type({}.values()))) else 0


def length(c):
    """Code points of the longest text of a case."""
    if "cs" in c:
        return max(map(length, c["cs"]))
    if "ev" in c:
        return max([0] + [numbers([v for k, v in e.items() if k != "obs"]) for e in c["ev"]])
    return sum(len(c.get(k, ())) for k in ("s", "t", "d", "b")) + sum(len(x) for x in c.get("base") or ()) \
        + 6 * len(c.get("ps", ()))


def cost(c):
    """TLC's time for a case, roughly, in seconds."""
    if "cs" in c:
        return sum(map(cost, c["cs"]))
    n = length(c)
    return (0.004 + n / 2000 + (n / 800) ** 2) * (len(c["ev"]) if "ev" in c else 1)


def choose(flagged, r):
    """The smallest, and some of the others, within the time."""
    flagged.sort(key=lambda c: len(json.dumps(c)))
    k = FLAGGED // 2
    rest = flagged[k:]
    r.shuffle(rest)
    out, t = [], 0
    for c in flagged[:k] + rest[:k]:
        if out and t + cost(c) > SECONDS:
            continue
        t += cost(c)
        out.append(c)
    return out


def worker(args):
    plan_id, seed, iters, cap, wall, out, w, nproc, budget, sample = args
    import bulk
    import gen
    import plans
    import rec
    import screen
    scr = screen.Screen()
    flagged, screened, heavy = [], 0, 0
    g = gen.Gen(seed * 1000 + w, REPO)
    plan = plans.PLANS[plan_id]
    cov = Cov(os.path.join(REPO, "src"))
    edges, sets, corpus = set(), set(), []
    first, second, rest = [], [], []
    t0, n = time.time(), 0
    for n in range(iters):
        if time.time() - t0 > wall:
            break
        if corpus and g.p(0.45):
            c = plans.mutate_case(copy.deepcopy(g.pick(corpus)), g, plan)
        else:
            c = plan["fresh"](g)
            if c["k"] == "hist" and g.p(0.3):
                plans.spice(c["ev"], g)
        keep = json.dumps(c)
        cov.start()
        try:
            rec.run(c)
        finally:
            hits = cov.stop()
        screened += 1
        if scr.flagged(c):
            flagged.append(c)
            heavy += len(json.dumps(c))
            if len(flagged) > 4 * FLAGGED or heavy > HEAVY:
                break
            continue
        new = hits - edges
        h = hash(frozenset(hits))
        if new:
            edges |= new
            first.append(c)
            corpus.append(json.loads(keep))
        elif h not in sets:
            second.append(c)
            if len(corpus) < 400 or g.p(0.05):
                corpus.append(json.loads(keep))
        else:
            # reservoir of ordinary cases
            if len(rest) < cap:
                rest.append(c)
            else:
                k = g.r.randint(0, n)
                if k < cap:
                    rest[k] = c
        sets.add(h)
    first = first[:cap]
    room = cap - len(first)
    if len(second) > room * 3 // 4:
        k = max(0, room * 3 // 4)
        # the newest combinations are the rarest
        second = second[-(k // 2):] + g.r.sample(second[:-(k // 2)] or second, k // 2) \
            if k > 1 else []
    first += second
    first += rest[:max(0, cap - len(first))]
    # product spaces: the compiled specification screens all, TLC gets a sample
    t1, slow = time.time(), 0
    for c in bulk.cases(plan_id, seed, w, nproc, budget, 10 if wall > 100 else 1):
        if time.time() - t1 > wall * 1.3 or len(flagged) > 4 * FLAGGED or slow > 2 or heavy > HEAVY:
            break
        rec.run(c)
        slow += c["crash"] == "timeout"
        screened += 1
        if scr.flagged(c):
            flagged.append(c)
            heavy += len(json.dumps(c))
        elif g.p(sample if cost(c) < 0.5 else sample / 10):
            first.append(c)
    flagged = choose(flagged, g.r)
    with open(out, "w") as f:
        for c in flagged:
            c["fl"] = True
        for c in flagged + first:
            f.write(json.dumps(c, separators=(",", ":")) + "\n")
    return {"n": n + 1, "edges": len(edges), "sets": len(sets), "screened": screened,
            "flagged": len(flagged)}
