#!/usr/bin/env python3
"""C16: the example accelerators compute the right result for every input."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform, accel
import gen_accel as g


def first(t, e):
    return next(x for x in t["ev"] if x["e"] == e)


def last(t, e):
    return [i for i, x in enumerate(t["ev"]) if x["e"] == e][-1]


def wrong_sum(t):
    x = first(t, "resp")
    x["v"] = x["v"][:-1] if x["v"] else [1]


def early(t):
    i = last(t, "resp")
    t["ev"].insert(last(t, "in"), t["ev"].pop(i))


def element(t):
    x = t["ev"][last(t, "out")]
    x["v"][len(x["v"]) // 2] += 1


def swap(t):
    o = [i for i, x in enumerate(t["ev"]) if x["e"] == "out"]
    for a, b in zip(o, o[1:]):
        if t["ev"][a]["v"] != t["ev"][b]["v"]:
            t["ev"][a], t["ev"][b] = t["ev"][b], t["ev"][a]
            return
    return False


SC = [("wrong result", wrong_sum), ("answer before the last input", early), ("two answers", lambda t: t["ev"].insert(-1, dict(first(t, "resp")))),
      ("no answer", lambda t: t["ev"].pop(last(t, "resp")) and None), ("a value lost", lambda t: t["ev"].pop(0) and None),
      ("last not marked", lambda t: t["ev"][last(t, "in")].update(last=0)), ("stuck", lambda t: t["ev"][-1].update(e="stuck"))]
MV = [("one element wrong", element), ("results out of order", swap), ("a result lost", lambda t: t["ev"].pop(last(t, "out")) and None),
      ("a result twice", lambda t: t["ev"].insert(-1, dict(t["ev"][last(t, "out")]))),
      ("result before its input", lambda t: t["ev"].insert(0, t["ev"].pop(last(t, "out")))), ("crash", lambda t: t["ev"][-1].update(e="crash"))]


def main():
    chk = vt.Check("C16")
    T = vt.THOROUGH
    r = chk.rng
    es = [g.scalar(r, i, k) for k in ("add", "mult") for i in range(150 if T else 24)]
    es += [g.scalar(r, 1000 + i, "add", rads=2) for i in range(20 if T else 4)]
    ms = [g.blocked(r, i) for i in range(150 if T else 20)] + [g.program(r, i) for i in range(150 if T else 20)] + [g.compiled(r, i) for i in range(40 if T else 5)]
    ms = [e for e in ms if e] + [g.flood(r, i, s) for i, s in enumerate(["in", "out", "held"] * (4 if T else 1))]
    vt.note("generated")
    vt.pmap(lambda e: e.configure(), es + ms)
    accel.build(es + ms)
    vt.note("built %d binaries" % len(accel._bins))

    def one(e):
        evs = accel.run(e, 90)
        return g.scalar_traces(e, evs) if hasattr(e, "seqs") else [g.mlp_trace(e, evs[0])]

    runs = vt.pmap(one, es + ms)
    vt.note("ran")
    ts = [(e, k, t) for e, x in zip(es + ms, runs) for k, t in enumerate(x)]
    def label(j):
        e, k, t = ts[j]
        return ("%s of %d values on device %d" % (e.design, len(e.seqs[k]), k)) if hasattr(e, "seqs") else "mlp, " + e.what
    bad = conform.judge(chk, [t for e, k, t in ts], "AccelTrace.tla", rerun=lambda j: one(ts[j][0])[ts[j][1]], label=label,
                        replay=lambda j: {"config": ts[j][0].yaml, "script": ts[j][0].stim, "output": ts[j][0].out})
    vt.note("judged")
    bi = {x[0] for x in bad}
    ok = [(e, t) for j, (e, k, t) in enumerate(ts) if j not in bi]
    for kind, muts in (("add", SC), ("mult", SC), ("product", MV), ("program", MV)):
        c = [t for e, t in ok if t["cfg"]["kind"] == kind and sum(x["e"] in ("in", "out") for x in t["ev"]) > 6 and
             (kind in ("add", "mult") or any(any(x["v"]) for x in t["ev"] if x["e"] == "out")) and (kind != "add" or any(first(t, "resp")["v"]))]
        if c:
            conform.must_reject_all(chk, "AccelTrace.tla", c[0], [m for m in muts if not (kind == "program" and m[0] == "result before its input" and len(c[0]["ev"]) < 8)])
    chk.extra.update(scalar_runs=len(es), engine_runs=len(ms), values=sum(len(s) for e in es for s in e.seqs),
                     wide_results=sum(len(first(t, "resp")["v"]) > 6 for e, t in ok if t["cfg"]["kind"] in ("add", "mult")),
                     vectors_out=sum(x["e"] == "out" for e, t in ok for x in t["ev"]))
    for j in (0, len(es), len(ts) - 1):
        chk.samples.append({"run": label(j), "last": ts[j][2]["ev"][-3:]})
    for name, cfg, t in models(T):
        chk.model(name, vt.tlc("AccelMC.tla", cfg, workers=8, timeout=t))
    for w in WRONG:
        chk.refute("an accelerator that goes wrong (%s) is accepted" % w, vt.tlc("AccelMC.tla", wrong(w), workers=8))
    chk.assumptions = ["at least one value; results fit the data type", "the inputs held by a dispatcher or engine fit its queue",
                       "modules driven by the test bench share its clock"]
    return chk.finish()


MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Kind = "%s"
 Way = "%s"
 Cols = %d
 Rows = %d
 Inputs = %d
 Engines <- %s
INVARIANTS Right
PROPERTIES Done
"""
WRONG = ["unit:early", "unit:twice", "unit:lossy", "unit:count", "net:noclear", "net:reduceall", "net:noreduce", "net:dest", "net:early", "net:unordered"]


def models(T):
    yield "unit", MC % ("unit", "sound", 1, 1, 4 if T else 3, "E1"), 600
    yield "one_layer", MC % ("net", "sound", 3, 2, 2, "E2"), 900
    yield "two_layers", MC % ("net", "sound", 2, 2, 3 if T else 2, "E22"), 3000
    if T:
        yield "three_engines", MC % ("net", "sound", 4, 2, 2, "E3"), 3000
        yield "three_layers", MC % ("net", "sound", 2, 2, 2, "E122"), 3000


def wrong(w):
    k, way = w.split(":")
    return MC % (k, way, 3, 2, 3 if k == "unit" else 2, "E2" if way != "dest" else "E22")


vt.main(main)
