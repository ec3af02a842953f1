#!/usr/bin/env python3
"""C02: valid/ready contract of the streaming ports under every stall pattern."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, noc, conform, gen_axis


def withdraw(t):
    for i, e in enumerate(t["ev"]):
        if e["e"] == "T":
            t["ev"].insert(i, {"e": "N", "p": e["p"], "m": ""})
            return True
    return False


def change(t):
    """the beat on show changes before it is taken"""
    for i, e in enumerate(t["ev"]):
        if e["e"] == "P" and t["ev"][i + 1]["e"] == "T":
            t["ev"].insert(i + 1, dict(e, m=e["m"][:-1] + ("0" if e["m"][-1] == "1" else "1")))
            return True
    return False


def overfill(t):
    """more beats outstanding than the path can hold"""
    a = [e for e in t["ev"] if e["e"] == "A"]
    if not a:
        return False
    t["ev"][0:0] = [dict(a[0]) for _ in range(t["cfg"]["cap"] + 1)]
    return True


def main():
    chk = vt.Check("C02")
    rng = chk.rng
    n = 700 if vt.THOROUGH else 110
    envs = [gen_axis.stalled(rng, i, (1, 2, 0) if vt.THOROUGH else (1, 2)) for i in range(n)]
    m = 700 if vt.THOROUGH else 60
    envs += [gen_axis.scenario(rng, i, rng.choice([1, 2])) for i in range(m)]
    res = conform.run_all(envs)
    traces = [gen_axis.trace(e, rc, ev) for e, (rc, ev) in zip(envs, res)]
    chk.extra["scenarios"] = n
    chk.extra["beats_delivered"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "T")
    bad = conform.judge(chk, traces, "AxisTrace.tla", rerun=lambda i: gen_axis.trace(envs[i], *noc.run(envs[i])),
                        label=lambda i: "scenario " + envs[i].name, replay=lambda i: conform.env_data(envs[i]))
    vt.note("validated")
    badset = {b[0] for b in bad}
    for k in range(3):
        chk.samples.append({"scenario": envs[k].name, "events": len(traces[k]["ev"]), "flows": traces[k]["cfg"]["flows"], "capacity": traces[k]["cfg"]["cap"]})
    good = [t for i, t in enumerate(traces) if i not in badset and len(t["ev"]) > 30]
    if good:
        for name, mut in (("withdrawn beat", withdraw), ("changed beat", change), ("overfilled path", overfill)):
            conform.must_reject(chk, "AxisTrace.tla", good[0], mut, name=name)
    gen_axis.models(chk)
    chk.assumptions = ["equal port widths at both ends", "adapter FIFO depth at least the VC buffer depth and one packet", "SystemC kernel"]
    return chk.finish()


vt.main(main)
