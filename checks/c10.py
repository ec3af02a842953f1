#!/usr/bin/env python3
"""C10: every DRAM command is legal for the state and timing of the device."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform
import gen_dram as g

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Dev = \"%s\"\n Rows = {%s}\n M = 10\n T = %d\nCONSTRAINT Bound\nINVARIANTS Sound BusFree Agree\nVIEW View\n"


def find(t, kinds, skip=3):
    i = [i for i, e in enumerate(t["ev"]) if e["e"] == "C" and e["c"] in kinds]
    return i[min(skip, len(i) - 1)] if i else None


def row(t):
    i = find(t, ("RD", "RDA", "WR", "WRA"))
    t["ev"][i]["row"] ^= 1


def after(kind, what, dt=1):
    """another command too soon after one of this kind"""
    def f(t):
        i = find(t, kind)
        if i is None:
            return False
        e = dict(t["ev"][i], c=what)
        e["t"] += dt
        if e["row"] < 0:
            e["row"] = 0
        t["ev"].insert(i + 1, e)
        del t["ev"][i + 2:]
    return f


def unopened(t):
    t["ev"].insert(0, dict(t["ev"][0], c="RD", row=3, t=0))


MUTS = [("wrong row", row), ("activate of an open bank", after(("ACT",), "ACT")), ("column access before tRCD", after(("ACT",), "RD")), ("early precharge", after(("ACT",), "PRE")),
        ("refresh of an open bank", after(("ACT",), "REF")), ("activate during refresh", after(("REF",), "ACT", 2)), ("closed bank read", unopened), ("two commands in a cycle", after(("ACT",), "RD", 0)),
        ("early back-to-back access", after(("RD", "RDA"), "RD", 1)), ("write too soon after read", after(("RD",), "WR", 2)), ("no such rank", lambda t: t["ev"][2].update(r=7)),
        ("crash", lambda t: t["ev"].insert(2, {"e": "crash", "t": 0, "c": "1", "r": 0, "g": 0, "k": 0, "row": 0}))]


def main():
    chk = vt.Check("C10")
    rng = chk.rng
    T = vt.THOROUGH
    n, q = (3000, 500) if T else (420, 300)
    kinds = ["DDR3", "DDR4", "GDDR5_", "GDDR5X", "GDDR6", "HBM", "HBM2", "LPDDR3", "LPDDR4", "LPDDR_", "ST-", "lpddr", "ddr3"]
    cs = [g.case(rng, i, q, [kinds[i // 2 % len(kinds)]] if i % 2 and g.names([kinds[i // 2 % len(kinds)]]) else None, boost=True) for i in range(n)]
    g.exe()
    vt.note("built")
    bad = []
    counts = {}
    first = None
    step = 300
    for lo in range(0, n, step):
        part = cs[lo:lo + step]
        rs = vt.pmap(lambda i: g.run(part[i], "%d" % i), range(len(part)))
        items = [(i, ch) for i in range(len(part)) for ch in (sorted(rs[i][1]) or [0])]
        tr = [g.timing_trace(part[i], rs[i], ch, 100000) for i, ch in items]
        for t in tr:
            for e in t["ev"]:
                counts[e["c"]] = counts.get(e["c"], 0) + 1
        bad += conform.judge(chk, tr, "DramTimingTrace.tla", rerun=lambda j: g.timing_trace(part[items[j][0]], g.run(part[items[j][0]], "again%d" % j), items[j][1], 100000),
                             label=lambda j: "%s, %s requests, %s" % (part[items[j][0]]["name"], part[items[j][0]]["style"], part[items[j][0]]["ini"]["system"]),
                             replay=lambda j: {"ini": part[items[j][0]]["ini"], "requests": part[items[j][0]]["reqs"]})
        if first is None:
            bi = {b[0] for b in bad}
            ok = [t for j, t in enumerate(tr) if j not in bi and {"REF", "RD", "WR", "PRE", "ACT"} <= {e["c"] for e in t["ev"]} and not t["cfg"]["dual"] and t["cfg"]["tRCD"] > 1]
            first = ok[0] if ok else False
            for j in (0, 1, 2):
                chk.samples.append({"device": part[items[j][0]]["name"], "style": part[items[j][0]]["style"], "system": part[items[j][0]]["ini"]["system"], "commands": len(tr[j]["ev"]), "first": tr[j]["ev"][:3]})
    vt.note("validated")
    chk.extra.update(devices=len({c["name"] for c in cs}), commands={k: v for k, v in sorted(counts.items()) if k}, requests=sum(len(c["reqs"]) for c in cs))
    if not bad and min(counts.get(k, 0) for k in ("ACT", "PRE", "RD", "WR", "RDA", "WRA", "REF", "REFB")) == 0:
        raise vt.Broken("some command was never seen: %s" % counts)
    if first:
        conform.must_reject_all(chk, "DramTimingTrace.tla", first, MUTS)
    models = [("groups", "0", 8), ("ranks", "0", 6), ("banks", "0", 7)]
    if T:
        models += [("groups", "0, 1", 8), ("ranks", "0", 8), ("banks", "0, 1", 8), ("groups", "0", 11)]
    for m, r in vt.pmap(lambda m: (m, vt.tlc("DramTimingMC.tla", CFG % m, workers=3, timeout=3000, heap="6g")), models, 3):
        chk.model("dram_%s_rows%d_cycles%d" % (m[0], len(m[1].split(",")), m[2]), r)
    chk.assumptions = ["HMC devices are left out", "the timing values of a device are those of its description file; values it does not give impose nothing"]
    return chk.finish()


vt.main(main)
