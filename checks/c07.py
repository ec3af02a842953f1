#!/usr/bin/env python3
"""C07: telemetry agrees with what the modules saw."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, noc, conform, gen_axis, gen_mm, gen_tele


def busiest(t):
    return max(t["cfg"]["recs"], key=lambda k: len(t["cfg"]["recs"][k]))


def stamp(i, d):
    def f(t):
        r = t["cfg"]["recs"][busiest(t)][3]
        r["t"][i] += d
        if i == 5:
            r["lat"] += d
    return f


def field(k, d):
    def f(t):
        t["cfg"]["recs"][busiest(t)][2][k] += d
    return f


def forget(t):
    del t["cfg"]["recs"][busiest(t)][-1]


def flow(t):
    t["ev"][-1]["traffic"][0]["bits"] += 64


def unflow(t):
    del t["ev"][-1]["traffic"][0]


def agg(t):
    t["ev"][-1]["agg"][0] += 64


def probe(t):
    t["ev"][-1]["probes"][0][-1] += 1


def cut(rng, e):
    """end the run while beats are under way"""
    s = re.sub(r"max_ns \d+", "max_ns %d" % rng.choice([60, 110, 200, 400]), e.scn[0])
    open(os.path.join(e.root, "scenario0.txt"), "w").write(s)
    e.scn[0] = s


def main():
    chk = vt.Check("C07")
    rng = chk.rng
    n = 400 if vt.THOROUGH else 70
    ncls = len(gen_axis.CLASSES) if vt.THOROUGH else 2
    envs = [gen_axis.scenario(rng, i, i % ncls, big=(i % 9 == 0)) for i in range(n)]
    envs += [gen_mm.scenario(rng, i, i % (4 if vt.THOROUGH else 2)) for i in range(n // 2)]
    envs += [gen_axis.multi(rng, i, 1) for i in range(n // 5)]
    for i, e in enumerate(envs):
        if i % 5 == 2:
            cut(rng, e)
        if i % 3 == 0:
            k = rng.randrange(1, 4)
            e.yaml["cluster"]["telemetry_traces"] = ["p%d" % j for j in range(k)]
            open(os.path.join(e.root, "example-designs/vt/config.yml"), "w").write(vt.yaml_dump(e.yaml))
    devs = [gen_tele.devices(rng, i) for i in range(n // 10)]
    res = conform.run_all(envs + devs, timeout=240)
    items = [(e, x, None) for e, x in zip(envs, res)] + [(e, x, d) for e, x in zip(devs, res[len(envs):]) for d in (0, 1)]
    traces = [gen_tele.trace(e, rc, ev, d) for e, (rc, ev), d in items]
    chk.extra["devices"] = 2 * len(devs)
    chk.extra["scenarios"] = len(envs)
    chk.extra["records"] = sum(len(r) for t in traces for r in t["cfg"]["recs"].values())
    chk.extra["unfinished_records"] = sum(1 for t in traces for r in t["cfg"]["recs"].values() for x in r if x["t"][5] == 0)
    chk.extra["flows"] = sum(len(t["ev"][-1].get("traffic", [])) for t in traces)
    chk.extra["probe_events"] = sum(len(p) for t in traces for p in t["ev"][-1].get("probes", []))
    bad = conform.judge(chk, traces, "TelemetryTrace.tla", rerun=lambda i: gen_tele.trace(items[i][0], *noc.run(items[i][0], 240), items[i][2]),
                        label=lambda i: "scenario " + items[i][0].name + ("" if items[i][2] is None else " device %d" % items[i][2]), replay=lambda i: conform.env_data(items[i][0]))
    vt.note("validated")
    badset = {b[0] for b in bad}
    for k in range(4):
        t = traces[k]
        chk.samples.append({"scenario": envs[k].name, "records": t["cfg"]["recs"][busiest(t)][:2], "end": {x: t["ev"][-1].get(x) for x in ("traffic", "agg", "probes")}})
    good = [t for i, t in enumerate(traces) if i not in badset and len(t["ev"]) > 60 and t["ev"][-1].get("agg", [0])[0] > 0
            and all(x["t"][5] for r in t["cfg"]["recs"].values() for x in r) and len(t["ev"][-1]["probes"]) and t["ev"][-1]["probes"][0]
            and len(t["cfg"]["recs"][busiest(t)]) > 4]
    if good:
        conform.must_reject_all(chk, "TelemetryTrace.tla", good[0], (("start stamp", stamp(0, 5000)), ("end stamp", stamp(5, 5000)), ("packet stamp", stamp(1, 9000000)), ("eject stamp", stamp(3, -9000000)),
                          ("hops", field("hops", 1)), ("width", field("w", 8)), ("destination", field("dst", 1)), ("latency", field("lat", 3000)),
                          ("missing record", forget), ("flow bits", flow), ("missing flow", unflow), ("aggregate", agg), ("probe", probe)))
    chk.assumptions = ["the table of records does not name devices: in the two-device runs no node sends on both", "files carry six significant digits",
                       "packets of memory-mapped beats are taken to have at least one flit"]
    return chk.finish()


vt.main(main)
