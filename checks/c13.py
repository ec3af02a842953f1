#!/usr/bin/env python3
"""C13: names in placement and clock files resolve to the right node, port and clock."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, noc, conform
import gen_place as g

CFG = "SPECIFICATION MCSpec\nCONSTANTS NPorts = %d NNocs = %d NNodes = %d Width = 8 NodeFirst = %s\nINVARIANTS Reaches CanPublish\nCHECK_DEADLOCK FALSE\n"


def first(t, e, f=lambda x: True):
    for i, x in enumerate(t["ev"]):
        if x["e"] == e and f(x):
            return i, x
    return None, None


def wrong_node(t):
    i, x = first(t, "pub")
    x["node"] += 1


def wrong_noc(t):
    i, x = first(t, "pub")
    x["noc"] += 1


def same_itf(t):
    at = {}
    role = {p["n"]: p["role"] for p in t["cfg"]["ports"]}
    for x in t["ev"]:
        if x["e"] == "pub":
            k = (x["noc"], x["node"], role[x["n"]])
            if k in at:
                x["itf"] = at[k]
                return
            at[k] = x["itf"]
    return False


def elsewhere(t):
    i, x = first(t, "T")
    ds = [p["n"] for p in t["cfg"]["ports"] if p["role"] == "s" and p["n"] != x["n"]]
    if not ds:
        return False
    x["n"] = ds[0]


def lost(t):
    i, x = first(t, "T")
    del t["ev"][i]


def hops(t):
    i, x = first(t, "rows")
    if not x["rows"]:
        return False
    x["rows"][0]["hops"] += 1


def period(t):
    i, x = first(t, "clk")
    x["span"] += x["edges"] * 500


def otherclock(t):
    i, x = first(t, "clkline", lambda x: len(t["cfg"]["pers"]) > 1)
    if x is None:
        return False
    x["ci"] = x["ci"] % len(t["cfg"]["pers"]) + 1


def stamp(i, d):
    def f(t):
        k, x = first(t, "stamps")
        if not x["rows"]:
            return False
        x["rows"][0]["t"][i] += d
    return f


MUTS = [("adapter edge", stamp(1, 100)), ("NoC edge", stamp(2, 100)), ("module edge", stamp(5, 100)), ("wrong node", wrong_node), ("wrong NoC", wrong_noc), ("same interface", same_itf), ("delivered elsewhere", elsewhere), ("lost", lost), ("hops", hops),
        ("period", period), ("other clock", otherclock), ("crash", lambda t: t["ev"].append({"e": "crash", "n": "1"}))]


def main():
    chk = vt.Check("C13")
    rng = chk.rng
    per = 40 if vt.THOROUGH else 9
    envs = []
    for c in range(len(g.CLASSES) if vt.THOROUGH else 3):
        for _ in range(per):
            envs.append(g.scenario(random.Random(rng.randrange(1 << 30)), len(envs), c))
    res = conform.run_all(envs)
    traces = [g.trace(e, rc, ev) for e, (rc, ev) in zip(envs, res)]

    def rerun(i):
        rc, ev = noc.run(envs[i])
        return g.trace(envs[i], rc, ev)
    bad = conform.judge(chk, traces, "PlacementTrace.tla", rerun=rerun, label=lambda i: envs[i].name,
                        replay=lambda i: dict(conform.env_data(envs[i]), place=envs[i].meta["lines"], clocks=envs[i].meta["clk"]))
    vt.note("validated")
    badset = {b[0] for b in bad}
    chk.extra.update(designs=len(envs), ports=sum(len(e.meta["ports"]) for e in envs), messages=sum(e.meta["cnt"] for e in envs),
                     module_lines=sum(l[0] == "M" for e in envs for l in e.meta["lines"]), shared_nodes=sum(shared(t) for t in traces))
    for i in (0, len(envs) - 1):
        chk.samples.append({"design": envs[i].name, "place": envs[i].meta["lines"][:6], "clocks": envs[i].meta["clk"], "messages": envs[i].meta["cnt"]})
    n = 0
    for i in range(len(envs)):
        if i not in badset and shared(traces[i]) and envs[i].meta["cnt"] > 3 and len(traces[i]["cfg"]["w"]) == 2:
            n = conform.must_reject_all(chk, "PlacementTrace.tla", traces[i], MUTS)
            if n >= 11:
                break
    if not bad and n < 9:
        raise vt.Broken("self-test found no suitable run")
    runs = [("placement_3x2x2", (3, 2, 2, "TRUE")), ("placement_3x1x3", (3, 1, 3, "TRUE")), ("placement_2x3x3", (2, 3, 3, "TRUE"))] + ([("placement_4x2x2", (4, 2, 2, "TRUE"))] if vt.THOROUGH else [])
    for name, r in vt.pmap(lambda x: (x[0], vt.tlc("PlacementMC.tla", CFG % x[1], workers=4, timeout=800)), runs, 3):
        chk.model(name, r)
    r = vt.tlc("PlacementMC.tla", CFG % (3, 2, 2, "FALSE"), workers=4)
    if not r.violated:
        raise vt.Broken("model: NoC number above the node number should mislead the adapters")
    chk.assumptions = ["modules sharing a node share their clocks", "a memory-mapped node hosts one port", "every port is placed by one line"]
    return chk.finish()


def shared(t):
    at = {}
    for x in t["ev"]:
        if x["e"] == "pub":
            at[(x["noc"], x["node"])] = at.get((x["noc"], x["node"]), 0) + 1
    return sum(v > 1 for v in at.values())


vt.main(main)
