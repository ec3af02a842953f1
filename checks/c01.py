#!/usr/bin/env python3
"""C01: streaming messages cross the NoC exactly once, in order, intact."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, noc, conform, gen_axis


def drop_take_order(t):
    """swap the payloads of two deliveries / alter one bit"""
    for i, e in enumerate(t["ev"]):
        if e["e"] == "P":
            m = e["m"].split(":")
            m[0] = "%x" % (int(m[0], 16) ^ 1)
            e["m"] = ":".join(m)
            return True
    return False


def lose(t):
    for i, e in enumerate(t["ev"]):
        if e["e"] == "P" and i + 1 < len(t["ev"]) and t["ev"][i + 1]["e"] == "T":
            del t["ev"][i:i + 2]
            return True
    return False


def duplicate(t):
    for i, e in enumerate(t["ev"]):
        if e["e"] == "P" and i + 1 < len(t["ev"]) and t["ev"][i + 1]["e"] == "T":
            t["ev"][i + 2:i + 2] = [dict(e), dict(t["ev"][i + 1])]
            return True
    return False


def main():
    chk = vt.Check("C01")
    rng = chk.rng
    n = 1600 if vt.THOROUGH else 240
    ncls = len(gen_axis.CLASSES) if vt.THOROUGH else 4
    envs = [gen_axis.scenario(rng, i, i % ncls, big=(i % 10 == 0)) for i in range(n)]
    envs += gen_axis.special(rng, n)
    envs += [gen_axis.multi(rng, i, 1 if i % 2 else 0) for i in range(n // 12)]
    envs += [gen_axis.scenario(rng, "l%d" % i, i % 4, big=2) for i in range(n // 80)]     # long histories
    res = conform.run_all(envs)
    traces = [gen_axis.trace(e, rc, ev) for e, (rc, ev) in zip(envs, res)]
    chk.extra["scenarios"] = n
    chk.extra["beats_delivered"] = sum(1 for t in traces for e in t["ev"] if e["e"] == "T")
    chk.extra["clean_exits"] = sum(1 for rc, _ in res if rc == 0)
    bad = conform.judge(chk, traces, "AxisTrace.tla", rerun=lambda i: gen_axis.trace(envs[i], *noc.run(envs[i])),
                        label=lambda i: "scenario " + envs[i].name, replay=lambda i: conform.env_data(envs[i]))
    vt.note("validated")
    badset = {b[0] for b in bad}
    for k in range(5):
        if k not in badset:
            chk.samples.append({"scenario": envs[k].name, "events": len(traces[k]["ev"]), "first": traces[k]["ev"][:3]})
    good = [t for i, t in enumerate(traces) if i not in badset and len(t["ev"]) > 30]
    if good:
        conform.must_reject_all(chk, "AxisTrace.tla", good[0], (("bit flip", drop_take_order), ("lost beat", lose), ("duplicated beat", duplicate)))
    vt.note("self-tests done")
    gen_axis.models(chk)
    chk.assumptions = ["equal port widths at both ends", "adapter FIFO depth at least the VC buffer depth and one packet",
                       "SystemC kernel", "order is required where every message type has one virtual channel"]
    return chk.finish()


vt.main(main)
