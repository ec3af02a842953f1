#!/usr/bin/env python3
"""C14: the generated configuration is faithful to the description."""
import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform
import gen_conf as g

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Way = \"%s\"\n Configs = {%s}\n MaxRads = %d\n Vals = {%s}\nINVARIANTS Faithful\n"


def first(t, f):
    for i, e in enumerate(t["ev"]):
        if f(e):
            return i, e
    return None, None


def change(f, h):
    def m(t):
        i, e = first(t, f)
        if i is None:
            return False
        return h(t, i, e)
    return m


def number(e, d=1):
    e["v"] = [str(int(e["v"][0]) + d)] + e["v"][1:] if e["v"] else []
    e["n"] = [e["n"][0] + d] + e["n"][1:]


def widths(k, d):
    def m(t):
        for e in t["ev"]:
            if e["e"] == "widths" and k in e["w"]:
                e["w"][k] += d
                return
        return False
    return m


def overlap(t, i, e):
    if len(e["n"]) < 2:
        return False
    e["n"][1] = e["n"][0]


def pset(t):
    """forget a parameter the user set: what was written is then wrong"""
    for i, e in enumerate(t["ev"]):
        if e["e"] == "set" and e["s"] == "cluster" and e["p"] in ("inter_rad_fifo_num_slots", "telemetry_log_verbosity") and e["n"][0] not in (0, 1000):
            del t["ev"][i]
            return
    return False


MUTS = [("a wrong setting", change(lambda e: e["e"] == "knob" and e["p"] == "noc_adapters_fifo_size", lambda t, i, e: number(e))),
        ("a wrong clock", change(lambda e: e["e"] == "knob" and e["p"] == "design_clk_periods", lambda t, i, e: e.update(v=["7.7"]))),
        ("a wrong placement", change(lambda e: e["e"] == "knob" and e["p"] == "design_noc_placement", lambda t, i, e: e.update(v=["other.place"]))),
        ("a wrong node count", change(lambda e: e["e"] == "knob" and e["p"] == "noc_num_nodes", lambda t, i, e: number(e))),
        ("a wrong NoC setting", change(lambda e: e["e"] == "noc" and e["p"] == "vc_buf_size", lambda t, i, e: number(e))),
        ("a wrong allocator", change(lambda e: e["e"] == "noc" and e["p"] == "sw_allocator", lambda t, i, e: e.update(v=["none"]))),
        ("a wrong dimension", change(lambda e: e["e"] == "noc" and e["p"] == "k", lambda t, i, e: number(e))),
        ("a shared channel", change(lambda e: e["e"] == "classes" and len(e["n"]) > 1, overlap)),
        ("a channel too many", change(lambda e: e["e"] == "classes", lambda t, i, e: e["m"].__setitem__(-1, e["m"][-1] + 1))),
        ("a longer latency", change(lambda e: e["p"] == "inter_rad_latency_cycles", lambda t, i, e: number(e))),
        ("a shorter latency", change(lambda e: e["p"] == "inter_rad_latency_cycles", lambda t, i, e: number(e, -1))),
        ("a smaller share", change(lambda e: e["p"] == "share" and e["n"][0] > 0, lambda t, i, e: e["n"].__setitem__(0, e["n"][0] - 1 if e["n"][1] > 1 else 0))),
        ("a share above one", change(lambda e: e["p"] == "share", lambda t, i, e: e["n"].__setitem__(0, e["n"][1] + 1))),
        ("a lost trace", change(lambda e: e["p"] == "telemetry_traces" and e["e"] == "shared" and e["v"], lambda t, i, e: e["v"].pop())),
        ("a wrong number of traces", change(lambda e: e["p"] == "telemetry_num_traces", lambda t, i, e: number(e))),
        ("accepted only in the record", change(lambda e: e["e"] == "run", lambda t, i, e: e.update(n=[0]))),
        ("an unknown section", lambda t: t["ev"].insert(0, g.ev("stray"))),
        ("an unknown parameter", lambda t: t["ev"].insert(0, g.ev("set", s="all", p="noc_vc_bufer_size", v=["4"], n=[4]))),
        ("a setting forgotten", pset),
        ("narrow node addresses", widths("AXI4_NODE_ADDRW", -20)), ("narrow destinations", widths("AXIS_DEST_FIELDW", -1)), ("a narrow channel number", widths("NOC_LINKS_VCID_WIDTH", -20)),
        ("a narrow payload", widths("NOC_LINKS_PAYLOAD_WIDTH", -500)), ("a narrow identifier", widths("NOC_LINKS_PACKETID_WIDTH", -1)), ("a narrow user field", widths("AXIS_USERW", -1)),
        ("a wrong sum", widths("AXIS_TRANSACTION_WIDTH", 1)), ("a wrong payload", widths("AXI4_PAYLOADW", 1)),
        ("unreadable", lambda t: t["ev"].append(g.ev("unreadable")))]


def main():
    chk = vt.Check("C14")
    T = vt.THOROUGH
    n = 4000 if T else 260
    cs = [g.describe(chk.rng, i) for i in range(n)]
    g.exe()
    vt.note("built")
    ts = vt.pmap(lambda i: g.run(cs[i], str(i)), range(n))
    logs = [t.pop("log", "") for t in ts]
    vt.note("generated")

    def again(j):
        t = g.run(cs[j], "again%d" % j)
        t.pop("log", None)
        return t
    label = lambda j: "description %d (%s, %d devices)" % (j, cs[j]["bad"] or "no mistake", cs[j]["rads"])
    bad = conform.judge(chk, ts, "ConfigTrace.tla", rerun=again, label=label, replay=lambda j: {"sections": cs[j]["secs"], "output": logs[j]})
    bi = {x[0] for x in bad}
    done = set()
    pick = []
    for j in range(n):
        if j in bi or cs[j]["bad"]:
            continue
        for name, m in MUTS:
            if name in done:
                continue
            t = copy.deepcopy(ts[j])
            if m(t) is not False:
                done.add(name)
                pick.append((name, t))
        if len(done) == len(MUTS):
            break
    j = next((j for j in range(n) if j not in bi and ts[j]["ev"][-1]["e"] == "run" and ts[j]["ev"][-1]["n"] == [0]), None)
    if j is not None:
        t = copy.deepcopy(ts[j])
        t["ev"][-1]["n"] = [1]
        pick.append(("a mistake accepted", t))
    if len(bi) < n // 2:
        conform.must_reject_each(chk, "ConfigTrace.tla", pick)
    vt.note("judged")
    kinds = {}
    for t in ts:
        for e in t["ev"]:
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    chk.extra.update(descriptions=n, with_a_mistake=sum(bool(c["bad"]) for c in cs), rejected=sum(t["ev"][-1]["e"] == "run" and t["ev"][-1]["n"] == [0] for t in ts), settings_read_back=kinds)
    for j in (0, 3, n - 2):
        chk.samples.append({"description": cs[j]["secs"], "events": len(ts[j]["ev"])})
    chk.model("every_small_description", vt.tlc("ConfigMC.tla", CFG % ("sound", '"a", "b"', 2, "1, 2"), workers=8, timeout=900))
    if T:
        chk.model("three_configurations", vt.tlc("ConfigMC.tla", CFG % ("sound", '"a", "b", "c"', 2, "1, 40"), workers=8, timeout=9000))
    for w in ("last", "first", "default"):
        chk.refute("a generator that goes wrong (%s) is accepted" % w, vt.tlc("ConfigMC.tla", CFG % (w, '"a", "b"', 2, "1, 2"), workers=8))
    chk.assumptions = ["no parameter is set both for all devices and for one", "a bandwidth share of a thousandth or more", "one list entry per NoC", "times are multiples of a tenth"]
    return chk.finish()


vt.main(main)
