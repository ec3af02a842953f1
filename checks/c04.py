#!/usr/bin/env python3
"""C04: the NoC fabric delivers every flit once, in packet order, in its class, without overflow, deadlock or starvation."""
import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, fabric, conform
import gen_fabric as g
import gen_routes as gr


def run(sc):
    return g.trace(sc, *fabric.run(sc["name"], sc["c"], sc["script"]))


def drop(kind, nth=0):
    def f(t):
        k = [i for i, e in enumerate(t["ev"]) if e["e"] == kind]
        if len(k) <= nth:
            return False
        del t["ev"][k[nth]]
    return f


def twice(kind):
    def f(t):
        k = [i for i, e in enumerate(t["ev"]) if e["e"] == kind]
        if not k:
            return False
        t["ev"].insert(k[-1], dict(t["ev"][k[-1]]))
    return f


def change(kind, **kw):
    def f(t):
        for e in t["ev"]:
            if e["e"] == kind:
                e.update({x: y(e[x]) for x, y in kw.items()})
                return
        return False
    return f


def nocredit(t):
    """a buffer is never credited: it overflows or its credits are missing at the end"""
    k = [e for e in t["ev"] if e["e"] == "K"]
    if not k:
        return False
    t["ev"] = [e for e in t["ev"] if not (e["e"] == "K" and e["l"] == k[0]["l"] and e["v"] == k[0]["v"])]


def swap(t):
    """two flits of a packet arrive in the wrong order"""
    r = [i for i, e in enumerate(t["ev"]) if e["e"] == "R"]
    for a, b in zip(r, r[1:]):
        fa, fb = t["ev"][a], t["ev"][b]
        if t["cfg"]["pk"][fa["f"] - 1] == t["cfg"]["pk"][fb["f"] - 1]:
            t["ev"][a], t["ev"][b] = fb, fa
            return
    return False


def unbounded(t):
    if not any(t["cfg"]["bound"]):
        return False
    t["cfg"]["bound"] = [1 if b else 0 for b in t["cfg"]["bound"]]
    return


MUTS = [("lost flit", drop("R")), ("received twice", twice("R")), ("hop unreported", drop("L", 3)), ("flit duplicated on a link", twice("L")),
        ("never injected", drop("S", 1)), ("credit twice", twice("K")), ("credit lost", nocredit), ("wrong vc at the node", change("R", v=lambda v: v + 1)),
        ("wrong hop count", change("R", h=lambda h: h + 1)), ("contents changed", change("R", same=lambda s: False)),
        ("wrong node", change("R", n=lambda n: n + 1)), ("out of order", swap), ("never finished", change("end", fin=lambda f: 0)),
        ("flit left behind", change("end", occ=lambda f: 1)), ("crash", lambda t: t["ev"][-1].update(e="crash"))]


def cfg(big, shape, live=False):
    return "SPECIFICATION MCSpec\nCONSTANTS\n Big = %s\n Shape = \"%s\"\nINVARIANTS NoOverflow NoInvention Arrived InOrder\n%s" % (
        big, shape, "PROPERTY Delivered\n" if live else "")


def models(chk):
    runs = [("fabric_" + s, cfg("FALSE", s, s != "mesh"), True) for s in ("line", "mesh", "ring")] + [("fabric_no_dateline", cfg("FALSE", "deadlock"), False)]
    if vt.THOROUGH:
        runs += [("fabric_%s_big" % s, cfg("TRUE", s, s != "mesh"), True) for s in ("line", "mesh", "ring")]
        runs += [("fabric_mesh_live", cfg("FALSE", "mesh", True), True)]

    def one(r):
        return r[0], r[2], vt.tlc("FabricMC.tla", r[1], workers=3, timeout=800)
    for name, ok, r in vt.pmap(one, runs, 3):
        chk.model(name, r, need=ok)
        if not ok and "Deadlock" not in r.out:
            raise vt.Broken("model %s: expected a deadlock\n%s" % (name, r.out[-2000:]))


def deps(chk, rng):
    """routing rules without adaptive choice: no cycle of channels waiting for each other"""
    nets = []
    for t, rf, ks, vpt in (("mesh", "dim_order", (2, 3, 5, 6), 1), ("mesh", "dor", (4,), 1), ("mesh", "xy_yx", (2, 3, 4), 2), ("mesh", "adaptive_xy_yx", (3, 4), 2),
                           ("torus", "dim_order", (3, 4, 5, 6), 2), ("torus", "dim_order_bal", (3, 4, 5, 6), 2), ("torus", "dim_order", (4,), 4),
                           ("cmesh", "dor_no_express", (2, 4), 1), ("cmesh", "dor", (2, 4), 1), ("cmesh", "xy_yx_no_express", (2, 4), 2)):
        for k in ks + ((7, 8) if vt.THOROUGH and t != "cmesh" else ()):
            n = gr.network(rng, "d%d" % len(nets), t, rf, k, 2, vpt)
            n["drep"] = 1 if n["single"] else 8
            nets.append(n)
    for k in range(2, 10):
        n = gr.network(rng, "d%d" % len(nets), "anynet", "min", k, 2, 1)
        n["c"]["net"], where, adj = g.tree(rng, k)
        n["c"]["nodes"], n["drep"] = len(where), 1
        nets.append(n)
    traces = vt.pmap(gr.deps, nets)
    conform.judge(chk, traces, "DepsTrace.tla", rerun=lambda i: gr.deps(nets[i]), label=lambda i: "waiting " + nets[i]["name"],
                  replay=lambda i: {"name": nets[i]["name"], "network": fabric.config(dict(nets[i]["c"], file="net"))})
    chk.extra["dependency_graphs"] = len(nets)
    chk.extra["channels"] = sum(len(t["cfg"]["waits"]) for t in traces)

    def cycle(t):
        w = t["cfg"]["waits"]
        a = next((i for i, x in enumerate(w) if x), None)
        if a is None:
            return False
        w[w[a][0] - 1].append(a + 1)
    conform.must_reject_all(chk, "DepsTrace.tla", traces[1], [("cycle", cycle), ("class left", lambda t: t["ev"][0].update(inclass=False))])


def main():
    chk = vt.Check("C04")
    rng = chk.rng
    n, h = (1600, 60) if vt.THOROUGH else (240, 14)
    scs = [g.scenario(rng, i, g.ROUTES[i % len(g.ROUTES)], big=vt.THOROUGH and i % 4 == 0) for i in range(n)]
    scs += [g.hog(rng, i) for i in range(h)]
    fabric.exe()
    vt.note("built")
    traces = vt.pmap(run, scs)
    vt.note("ran %d" % len(scs))
    bad = conform.judge(chk, traces, "FabricTrace.tla", rerun=lambda i: run(scs[i]), label=lambda i: scs[i]["name"],
                        replay=lambda i: {"name": scs[i]["name"], "network": fabric.config(dict(scs[i]["c"], file="net")), "net": scs[i]["c"].get("net"),
                                          "script": scs[i]["script"]})
    vt.note("validated")
    badset = {b[0] for b in bad}
    chk.extra.update(scenarios=n, overtaking_scenarios=h, events=sum(len(t["ev"]) for t in traces),
                     combinations=sorted({s["c"]["topology"] + "/" + s["c"]["rf"] for s in scs}),
                     allocators=sorted({s["c"]["va"] for s in scs} | {s["c"]["sa"] for s in scs}))
    for k in range(3):
        chk.samples.append({"scenario": scs[k]["name"], "packets": len(scs[k]["pk"]), "events": len(traces[k]["ev"])})
    good = [i for i in range(n) if i not in badset and scs[i]["c"]["topology"] == "mesh" and scs[i]["c"]["single"]
            and max(p[3] for p in scs[i]["pk"]) > 2 and any(min(p[0:2]) != max(p[0:2]) for p in scs[i]["pk"])]
    if good:
        t = copy.deepcopy(traces[good[0]])
        conform.must_reject_all(chk, "FabricTrace.tla", t, MUTS)
    good = [i for i in range(n, n + h) if i not in badset]
    if good:
        conform.must_reject_all(chk, "FabricTrace.tla", max((traces[i] for i in good), key=lambda t: len(t["ev"])), [("starved", unbounded)])
    deps(chk, rng)
    vt.note("dependencies")
    models(chk)
    chk.assumptions = ["virtual channels enough for the routing function; anynet networks are trees", "packets leave the ejection buffers after a finite stall",
                       "bounded overtaking: iSLIP allocators and one-cycle allocation delays, as generated by config.py"]
    return chk.finish()


vt.main(main)
