"""How much is explored per worker: iterations of the coverage-guided search,
cases kept of it, seconds for each phase, cases of the product spaces, and the
share of those that TLC judges even though the screen saw nothing."""


def size(pid, tier):
    import plans
    p = plans.PLANS[pid]
    n = p.get("bulk", 14000)
    if tier == "thorough":
        return p["iters"] * 15, p["cap"] * 6, 240, n * 25, 0.01
    return p["iters"], p["cap"] // 2, 20, n, 0.02
