#!/usr/bin/env python3
"""C19: the examples' own test benches judge right."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import accel, conform, gen_bench as g, vt

HOW = ["add 0", "add 0", "add 1", "add -1", "flip 0", "flip 15", "flip 31", "flip 32", "flip 64", "flip 127", "is 0", "add 10", "flip 16"]


def scenarios(T, rng):
    k = 12 if T else 3
    i = 0
    for _ in range(k):
        for d in ("add", "mult"):
            for h in HOW:
                yield g.scalar(rng, i, d, h)
                i += 1
    for _ in range(k):
        for w in g.WAYS:
            for d in ("mlp", "dlrm"):
                yield g.mlp(rng, i, d, w) if d == "mlp" else g.dlrm(rng, i, d, [w])
                i += 1
    for r in range(6 if T else 2):
        for w in g.WAYS:
            yield g.npu(rng, i, w)
            ws = [w, "right"] if (i + r) % 2 else ["right", w]
            yield g.dlrm(rng, i + 1, "dlrm_two_rad", ws if rng.random() < .8 else [w, rng.choice(g.WAYS)])
            i += 2
    for _ in range(3 if T else 1):
        for w in g.WAYS:
            yield g.mlp(rng, i, "mlp_int8", w)
            i += 1


def flip(t):
    e = t["ev"][-1]
    e["rc"] = 1 - e["rc"]


def drop(t):
    del t["ev"][next(i for i, x in enumerate(t["ev"]) if x["e"] == "in")]


def twice(t):
    i = next(i for i, x in enumerate(t["ev"]) if x["e"] == "in")
    t["ev"].insert(i, dict(t["ev"][i]))


def spoil(t):
    o = [x for x in t["ev"] if x["e"] == "out"][-1]
    o["v"] = o["v"][:-1] + ["77777" if o["v"][-1] != "77777" else "3"]


def short(t):
    del t["ev"][[i for i, x in enumerate(t["ev"]) if x["e"] == "out"][-1]]


def quiet(t):
    t["ev"][-1]["good"] = 0


MUT = [("exit status", flip), ("input lost", drop), ("input twice", twice), ("result other than reported", spoil), ("one result fewer", short), ("no message", quiet)]


def main():
    chk = vt.Check("C19")
    T = vt.THOROUGH
    es = list(scenarios(T, chk.rng))
    vt.pmap(lambda e: e.configure(), es)
    accel.build(es)
    vt.note("built %d binaries for %d runs" % (len({e.key for e in es}), len(es)))
    one = lambda e: g.trace(e, accel.run(e, 30))
    ts = vt.pmap(one, es)
    vt.note("ran")
    bad = conform.judge(chk, ts, "BenchTrace.tla", rerun=lambda j: one(es[j]), label=lambda j: es[j].what,
                        replay=lambda j: {"config": es[j].yaml, "answers": es[j].stim, "output": es[j].out})
    vt.note("judged")
    bi = {x[0] for x in bad}
    for d in ("mlp", "dlrm", "mlp_int8"):
        c = [t for j, t in enumerate(ts) if j not in bi and es[j].design == d and t["ev"][-1]["rc"] == 0 and len(t["cfg"]["devs"][0]["gold"]) > 1 and t["ev"][0]["e"] == "in"
             and t["cfg"]["devs"][0]["need"] == t["cfg"]["devs"][0]["n"] > 0]
        if c:
            conform.must_reject_all(chk, "BenchTrace.tla", min(c, key=lambda t: len(t["ev"])), MUT)
    chk.extra.update(runs=len(es), inputs=sum(x["e"] == "in" for t in ts for x in t["ev"]), results=sum(x["e"] == "out" for t in ts for x in t["ev"]),
                     failures_reported=sum(t["ev"][-1]["bad"] for t in ts), passes_reported=sum(t["ev"][-1]["good"] for t in ts),
                     examples=len({e.design for e in es}))
    for d in ("add", "dlrm", "dlrm_two_rad"):
        j = next(j for j, e in enumerate(es) if e.design == d)
        chk.samples.append({"run": es[j].what, "last": ts[j]["ev"][-1]})
    for name, n in (("one", (1, 2, 2)), ("several", (3, 3, 2))) + ((("more", (4, 4, 3)),) if T else ()):
        chk.model(name, vt.tlc("BenchMC.tla", MC % (("sound",) + n), workers=8))
    for w in WRONG:
        chk.refute("a test bench that goes wrong (%s) is accepted" % w, vt.tlc("BenchMC.tla", MC % (w, 2, 2, 2), workers=2))
    chk.assumptions = ["results are vectors as long as the expected ones", "every file the test bench reads is there", "which register file of the NPU a loader instruction names is not judged"]
    return chk.finish()


WRONG = ["ignore ready", "again", "last element", "first element", "any element", "latest", "skip first", "early", "never fails"]
MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Way = "%s"
 Inputs = %d
 Results = %d
 Width = %d
INVARIANTS Once Sound
PROPERTIES Ends
"""

vt.main(main)
