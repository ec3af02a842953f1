#!/usr/bin/env python3
"""C03: memory-mapped requests and responses cross the NoC exactly once, unchanged."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, noc, conform, gen_mm


def flip(kind, field):
    def f(t):
        for e in t["ev"]:
            if e["e"] == "P" and e["p"].endswith("/" + kind):
                m = e["m"].split(":")
                m[field] = "%x" % (int(m[field], 16) ^ 1)
                e["m"] = ":".join(m)
                return True
        return False
    return f


def lose(t):
    for i, e in enumerate(t["ev"]):
        if e["e"] == "P" and t["ev"][i + 1]["e"] == "T":
            del t["ev"][i:i + 2]
            return True
    return False


def early(t):
    """write data accepted before their address"""
    for i, e in enumerate(t["ev"]):
        if e["e"] == "A" and e["k"] == "aw":
            del t["ev"][i]
            return True
    return False


def main():
    chk = vt.Check("C03")
    rng = chk.rng
    n = 900 if vt.THOROUGH else 150
    ncls = len(gen_mm.CLASSES) if vt.THOROUGH else 3
    envs = [gen_mm.scenario(rng, i, i % ncls, big=(i % 10 == 0)) for i in range(n)]
    envs += gen_mm.special(rng)
    envs += [gen_mm.scenario(rng, "l%d" % i, i % 3, big=2) for i in range(n // 75)]     # long histories
    res = conform.run_all(envs, timeout=240)
    traces = [gen_mm.trace(e, rc, ev) for e, (rc, ev) in zip(envs, res)]
    chk.extra["scenarios"] = len(envs)
    chk.extra["beats_delivered"] = {k: sum(1 for t in traces for e in t["ev"] if e["e"] == "P" and e["p"].endswith("/" + k)) for k in ("ar", "aw", "w", "r", "b")}
    bad = conform.judge(chk, traces, "AximmTrace.tla", rerun=lambda i: gen_mm.trace(envs[i], *noc.run(envs[i], 240)),
                        label=lambda i: "scenario " + envs[i].name, replay=lambda i: conform.env_data(envs[i]))
    vt.note("validated")
    badset = {b[0] for b in bad}
    for k in range(4):
        chk.samples.append({"scenario": envs[k].name, "events": len(traces[k]["ev"]), "first": traces[k]["ev"][:2]})
    good = [t for i, t in enumerate(traces) if i not in badset and len(t["ev"]) > 60 and {"ar", "aw", "w", "r", "b"} <=
            {e["p"].split("/")[1] for e in t["ev"] if e["e"] == "P"}]
    if good:
        for name, mut in (("address bit", flip("ar", 0)), ("data bit", flip("r", 0)), ("user bit", flip("b", 1)), ("lost beat", lose),
                          ("data without address", early)):
            conform.must_reject(chk, "AximmTrace.tla", good[0], mut, name=name)
    gen_mm.models(chk)
    chk.assumptions = ["a requester offers a write address only after the data of the previous one",
                       "one memory-mapped port per node, five packet types and virtual channels", "adapter FIFO depth at least one packet", "SystemC kernel"]
    return chk.finish()


vt.main(main)
