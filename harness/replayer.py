"""Replay behaviours TLC generated from the specification into the real code
and compare what a program observes with what the specification says."""
import copy
import json

import mc
import rec


def loose(errs):
    return ["IPv6" if e.startswith(("IPv6-", "IPv4-in-IPv6-")) else e for e in errs]


def build(b, pid, n):
    """The case for a behaviour."""
    cl = list(mc.RUNS[pid][2])
    c = {k: v for k, v in b.items() if k != "exp"}
    if c.get("k") == "seq":
        c["cs"] = [build(dict(x), pid, n) for x in c["cs"]]
    if c.get("k") == "thr":     # each program in two threads
        c["hs"] = [dict(build({"ev": copy.deepcopy(ev)}, pid, n), crash="", calls=len(c["sh"]) + len(ev)) for ev in c["hs"] * 2]
    if "ev" in c and c.get("k") != "vs":
        c["k"] = "hist"
        for e in c["ev"]:
            if e["op"] in ("upar", "uqry"):
                e["h"] = n % 2 == 0      # through a reference kept, or a fresh one
    elif "k" not in c:
        c["k"] = "parse"
    if c["k"] == "parse":
        c.setdefault("enc", "utf-8")
        cl = [x for x in cl if x != "raises"]
    if c["k"] == "hist" and "cls" in cl:
        cl = ["raises", "cls", "href", "list"]
    c["env"], c["cl"] = [], cl
    return c


def same_log(o, exp):
    """SameLog of the specification."""
    n = {"l": [], "t": []}
    e = {k: [x for x, l in zip(exp[k], exp["l"]) if l == "E"] for k in "lt"}
    return o["logsame"] and o["logoff"] == n and all(
        o[k]["l"] == x["l"] and loose(o[k]["t"]) == loose(x["t"])
        for k, x in (("log", exp), ("logon", exp), ("logerr", e)))


def compare(c, exp, n_ev):
    if c["crash"]:
        return ["crash"]
    cl = set(c["cl"])
    if c["k"] == "thr":
        for x, e in zip(c["hs"], exp * 2):
            t = compare(x, e, x["calls"])
            if t:
                return t
        return []
    if c["k"] == "seq":
        for x, e in zip(c["cs"], exp):
            t = compare(x, e, len(x.get("ev", ())))
            if t:
                return t
        return []
    if c["k"] == "hist":
        if len(c["ev"]) != n_ev:
            return ["objects"]
        o, s = c["ev"][-1]["obs"], exp["seen"]
        t = []
        if len(o["urls"]) != len(s["urls"]) or len(o["pars"]) != len(s["pars"]):
            return ["objects"]
        if "raises" in cl and (o["exc"] == "") != (exp["exc"] == ""):
            t.append("raises")
        if "cls" in cl and o["exc"] != exp["exc"]:
            t.append("cls")
        if "ret" in cl and o["ret"] != exp["ret"]:
            t.append("ret")
        if "href" in cl and [u["href"] for u in o["urls"]] != [u["href"] for u in s["urls"]]:
            t.append("href")
        if "list" in cl and [u["list"] for u in o["urls"]] != [u["list"] for u in s["urls"]]:
            t.append("list")
        if "pars" in cl and o["pars"] != s["pars"]:
            t.append("pars")
        if "g" in cl and exp["gi"] and o["gi"] == exp["gi"] and o["g"] != exp["g"]:
            t.append("g")
        return t
    if c["k"] == "vs":
        for e, ok, held in zip(c["ev"], exp["ok"], exp["held"]):
            o = e["obs"]
            t = [k for k, x in (("ok", o["ok"] == ok), ("plain", o["plain"] == ok), ("errs", loose(o["errs"]) == loose(held)),
                                ("tidy", o["tidy"])) if not x]
            if t:
                return t
        return []
    o = c["obs"]
    if c["k"] == "rq":
        return [k for k in ("q", "rec") if o[k] != exp[k]]
    if c["k"] == "parse":
        if o["ok"] != exp["ok"]:
            return ["ok"]
        t = []
        if "errs" in cl and "errs" in exp and loose(o["errs"]) != loose(exp["errs"]):
            t.append("errs")
        if "log" in cl and not same_log(o["log"], exp["log"]):
            t.append("log")
        if "can" in cl and o["can"] != exp["ok"]:
            t.append("can")
        if not exp["ok"]:
            if "cls" in cl and o["cls"] != exp["cls"]:
                t.append("cls")
            return t
        for k in ("rec", "href", "hrefnf", "g", "list", "up", "upnf", "origin", "q"):
            if k in cl and k in exp and o[k] != exp[k]:
                t.append(k)
        if "rt" in cl and not (o["rt"]["ok"] and o["rt"]["rec"] == o["rec"]
                               and o["rt"]["href"] == o["href"]):
            t.append("rt")
        return t
    if c["k"] in ("host", "ovr"):
        t = [k for k in ("ok", "h", "ser", "rec") if k in exp and o[k] != exp[k]]
        if "errs" in cl and loose(o["errs"]) != loose(exp["errs"]):
            t.append("errs")
        if "log" in cl and not same_log(o["log"], exp["log"]):
            t.append("log")
        if "cls" in cl and o["cls"] != exp["cls"]:
            t.append("cls")
        if "q" in cl and o["q"] != exp["q"]:
            t.append("q")
        return t
    if c["k"] == "hval":
        t = [] if o["valid"] == exp["valid"] else ["valid"]
        if "errs" in cl and loose(o["errs"]) != loose(exp["errs"]):
            t.append("errs")
        return t
    if c["k"] == "idna":
        t = [k for k in ("ok", "ubad") if o[k] != exp[k]]
        if not t and o["ok"] and o["a"] != exp["a"]:
            t.append("ascii")
        if not t and not exp["ubad"] and o["u"] != exp["u"]:
            t.append("unicode")
        return t
    return [] if o == exp else [c["k"]]


def chunk(args):
    """(behaviours file, property) -> (replayed, [(case, info)])"""
    src, pid, limit = args
    kinds = mc.RUNS[pid][1]
    bad, n, slow = [], 0, 0
    with open(src) as f:
        for i, line in enumerate(f):
            b = json.loads(line)
            if kinds and b.get("k") not in kinds:
                continue
            c = build(b, pid, i)
            n_ev = len(c.get("ev", ()))
            rec.run(c)
            n += 1
            t = compare(c, b["exp"], n_ev)
            if t:
                bad.append((c, {"tags": t, "exp": b["exp"], "from": "TLC"}))
                slow += c["crash"] == "timeout"
                if slow >= 3 or len(bad) >= limit:
                    break
    return n, bad
