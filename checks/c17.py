#!/usr/bin/env python3
"""C17: a run ends when all devices are done, reports failure, and is the same every time."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform, noc
import gen_cluster as g

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Grain = 1\n N = %d\n Period = %d\n MaxT = %d\n Way = \"%s\"\nINVARIANTS Right Still\nPROPERTIES Ends\n"
XC = "CONSTANTS Grain = 1000\n"


def at(f, h):
    def m(t):
        for i, e in enumerate(t["ev"]):
            if f(e):
                return h(t, i, e)
        return False
    return m


def late(t, i, e):
    e["t"] += t["cfg"]["period"] + 3000


def early(t, i, e):
    d = [j for j in range(i) if t["ev"][j]["e"] == "done"]
    t["ev"].insert(d[-1], t["ev"].pop(i))


def nofail(t):
    runs = 0
    for e in t["ev"]:
        runs += e["e"] == "run"
        if e["e"] == "exit" and runs == 1:
            e["r"] = 0 if e["r"] else 1


MUTS = [("status turned round", nofail), ("ends late", at(lambda e: e["e"] == "end", late)), ("ends before a device is done", at(lambda e: e["e"] == "end", early)),
        ("never ends", at(lambda e: e["e"] == "end", lambda t, i, e: t["ev"].pop(i))), ("another design", at(lambda e: e["e"] == "design", lambda t, i, e: e.update(d="other"))),
        ("a device without a design", at(lambda e: e["e"] == "design", lambda t, i, e: t["ev"].pop(i))), ("wrong number of cycles", at(lambda e: e["e"] == "exit", lambda t, i, e: e.update(t=e["t"] + 2))),
        ("crash", at(lambda e: e["e"] == "exit", lambda t, i, e: e.update(r=-11))),
        ("one cycle differs", lambda t: [e for e in t["ev"] if e["e"] == "see"][-1].update(d="0")), ("a cycle later", lambda t: [e for e in t["ev"] if e["e"] == "see"][-9].update(t=77)),
        ("a cycle missing", lambda t: t["ev"].pop(-2) and None)]


def main():
    chk = vt.Check("C17")
    T = vt.THOROUGH
    n = 400 if T else 60
    cs = [g.case(chk.rng, i, g.CLASSES if T else g.CLASSES[:4]) for i in range(n)]
    envs = [e for c in cs for e in c["envs"]]
    vt.pmap(lambda e: e.configure(), envs)
    noc.build(envs)
    vt.note("built %d binaries" % len(noc._bins))
    ts = vt.pmap(lambda i: g.trace(cs[i]), range(n))
    vt.note("ran")
    label = lambda j: "cluster %s done at %s ns, failing: %s" % (cs[j]["want"], cs[j]["dn"], cs[j]["fails"])
    bad = conform.judge(chk, ts, "ClusterTrace.tla", rerun=lambda j: g.trace(cs[j]), extra_cfg=XC, label=label,
                        replay=lambda j: {"config": cs[j]["envs"][0].yaml, "settings": g.SETTINGS, "scenarios": cs[j]["envs"][0].scn, "output": cs[j]["envs"][-1].out})
    bi = {x[0] for x in bad}
    ok = [t for j, t in enumerate(ts) if j not in bi]
    if ok:
        conform.must_reject_all(chk, "ClusterTrace.tla", max(ok, key=lambda t: t["cfg"]["n"]), MUTS, extra_cfg=XC)
        conform.must_reject_all(chk, "ClusterTrace.tla", ok[0], MUTS, extra_cfg=XC)
    vt.note("judged")
    chk.extra.update(clusters=n, runs=len(envs), failing=sum(any(e["e"] == "fail" for e in t["ev"]) for t in ts), cycles_compared=sum(e["e"] == "see" for t in ts for e in t["ev"]),
                     settings=len(g.SETTINGS))
    for j in (0, 1, 2):
        chk.samples.append({"cluster": label(j), "first": ts[j]["ev"][:8]})
    chk.model("two_devices", vt.tlc("ClusterMC.tla", CFG % (2, 3, 9, "sound"), workers=8, timeout=600))
    chk.model("three_devices", vt.tlc("ClusterMC.tla", CFG % (3, 2, 12 if T else 6, "sound"), workers=8, timeout=6000))
    for w in ("any", "first", "order", "rare", "spoilt"):
        chk.refute("a loop that goes wrong (%s) is accepted" % w, vt.tlc("ClusterMC.tla", CFG % (2, 3, 12, w), workers=8))
    chk.assumptions = ["all devices report that they are done some time", "a design's own behaviour does not depend on the settings"]
    return chk.finish()


vt.main(main)
