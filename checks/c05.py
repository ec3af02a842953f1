#!/usr/bin/env python3
"""C05: packets follow shortest routes and visit exactly the expected routers."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, fabric, conform
import gen_routes as r

CFG = "SPECIFICATION Spec\nCONSTANTS\n KMax = %d\n Kinds = {\"dor\", \"minimal\"}\nINVARIANTS Shortest HopsRight Unique\n"


def far(t):
    """first event with a route of three routers or more"""
    for i, e in enumerate(t["ev"]):
        if e["e"] == "R" and len(e["r"][0]) >= 3:
            return i
    return None


def on(f):
    def m(t):
        i = far(t)
        if i is None:
            return False
        return f(t, t["ev"][i])
    return m


def detour(t, e):
    e["r"][0][1:1] = [e["r"][0][1], e["r"][0][0]]


def skip(t, e):
    del e["r"][0][1]


def second(t, e):
    if not t["cfg"]["single"]:
        return False
    e["r"].append(list(e["r"][0]) + [])
    e["r"][1][1] = e["r"][0][0]


def wrong_end(t, e):
    e["r"][0].pop()


def yfirst(t):
    k = t["cfg"]["k"]
    if t["cfg"]["kind"] != "dor" or k < 2:
        return False
    for e in t["ev"]:
        p = e.get("r", [[]])[0]
        if len(p) == 3 and p[0] % k != p[2] % k and p[0] // k != p[2] // k:
            p[1] = p[0] + p[2] - p[1]
            return
    return False


def missing(t):
    del t["ev"][0]


MUTS = [("detour", on(detour)), ("router skipped", on(skip)), ("two routes", on(second)), ("wrong end", on(wrong_end)), ("second dimension first", yfirst), ("pair missing", missing),
        ("crash", lambda t: t["ev"].append(dict(t["ev"].pop(), e="crash")))]


def main():
    chk = vt.Check("C05")
    rng = chk.rng
    T = vt.THOROUGH
    nets = []

    def add(t, rf, ks, vpt=1, types=(1,)):
        for k in ks:
            nets.append(r.network(rng, len(nets), t, rf, k, rng.choice(types), vpt))
    add("mesh", "dim_order", list(range(2, 9)) + ([10, 12] if T else []), types=(1, 3, 5))
    add("mesh", "dor", list(range(2, 8)), types=(1, 3))
    add("torus", "dim_order", list(range(3, 9)) + ([10, 11] if T else []), 2, (1, 3, 5))
    add("torus", "dim_order_bal", range(3, 7), 2)
    add("cmesh", "dor_no_express", [2, 4] + ([6] if T else []), types=(1, 3))
    add("cmesh", "dor", [2, 4])
    for rf, v in (("xy_yx", 2), ("adaptive_xy_yx", 2), ("romm", 2), ("min_adapt", 2), ("planar_adapt", 3), ("valiant", 2)):
        add("mesh", rf, [3, 5] if not T else [2, 3, 4, 5, 6], v)
    add("torus", "min_adapt", [4, 5], 4)
    add("torus", "valiant", [4, 5], 4)
    add("cmesh", "xy_yx_no_express", [2, 4], 2)
    add("anynet", "min", [rng.randint(2, 12) for _ in range(150 if T else 40)], types=(1, 3))
    fabric.exe()
    vt.note("built")
    seeds = [rng.randrange(1 << 30) for _ in nets]
    # networks of cycles may lock up under load, which is C04's matter
    load = [n["topo"] != "graph" or not cyclic(n) for n in nets]

    def tr(i):
        return r.trace(nets[i], random.Random(seeds[i]), load[i])
    traces = vt.pmap(tr, range(len(nets)))
    vt.note("followed")
    bad = conform.judge(chk, traces, "RoutesTrace.tla", rerun=tr, label=lambda i: nets[i]["name"],
                        replay=lambda i: {"name": nets[i]["name"], "network": fabric.config(dict(nets[i]["c"], file="net")), "net": nets[i]["c"].get("net")})
    vt.note("validated")
    badset = {b[0] for b in bad}
    chk.extra.update(networks=len(nets), pairs=sum(len(t["ev"]) - 1 for t in traces), routes=sum(len(e.get("r", [])) for t in traces for e in t["ev"]),
                     graphs=sum(n["topo"] == "graph" for n in nets))
    for k in (0, 15, len(nets) - 1):
        chk.samples.append({"network": nets[k]["name"], "pairs": len(traces[k]["ev"]) - 1, "net": nets[k]["c"].get("net")})
    for want in (lambda n: n["kind"] == "dor" and n["topo"] == "grid" and n["k"] >= 3, lambda n: n["topo"] == "graph" and n["n"] > 5):
        ok = [i for i in range(len(nets)) if i not in badset and want(nets[i]) and far(traces[i]) is not None]
        if ok:
            conform.must_reject_all(chk, "RoutesTrace.tla", traces[ok[0]], MUTS)
    chk.model("routes_k%d" % (8 if T else 6), vt.tlc("RoutesMC.tla", CFG % (8 if T else 6), workers=8))
    chk.assumptions = ["a torus of even size may break ties between equal distances either way", "link latencies at least one"]
    return chk.finish()


def cyclic(n):
    und = {(min(a, b), max(a, b)) for a, b, _ in n["edges"]}
    return len(und) != n["n"] - 1


vt.main(main)
