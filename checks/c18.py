#!/usr/bin/env python3
"""C18: the recommendation-model examples return the product of the gathered vectors."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform, accel
import gen_dlrm as g


def last(t, e):
    return [i for i, x in enumerate(t["ev"]) if x["e"] == e][-1]


def element(t):
    t["ev"][last(t, "out")]["v"][-1] += 1


def swap(t):
    o = [i for i, x in enumerate(t["ev"]) if x["e"] == "out"]
    for a, b in zip(o, o[1:]):
        if t["ev"][a]["v"] != t["ev"][b]["v"]:
            t["ev"][a], t["ev"][b] = t["ev"][b], t["ev"][a]
            return
    return False


def vector(t):
    """a vector in memory that is not what is read"""
    a = t["ev"][0]["a"][0]
    v = t["cfg"]["mem"][a[0] - 1][a[1]]
    t["cfg"]["mem"][a[0] - 1][a[1]] = [x + 1 for x in v]


MUT = [("one element wrong", element), ("results out of order", swap), ("a result lost", lambda t: t["ev"].pop(last(t, "out")) and None),
       ("a result twice", lambda t: t["ev"].insert(-1, dict(t["ev"][last(t, "out")]))),
       ("result before its input", lambda t: t["ev"].insert(0, t["ev"].pop(last(t, "out")))),
       ("stuck", lambda t: t["ev"][-1].update(e="stuck")), ("another vector", vector)]


def main():
    chk = vt.Check("C18")
    T = vt.THOROUGH
    r = chk.rng
    es = [g.case(r, i) for i in range(150 if T else 26)] + [g.case(r, 1000 + i, True) for i in range(30 if T else 6)]
    es += [g.compiled(r, i) for i in range(30 if T else 4)] + [g.compiled(r, 1000 + i, True) for i in range(6 if T else 1)]
    vt.note("generated")
    vt.pmap(lambda e: e.configure(), es)
    accel.build(es)
    vt.note("built %d binaries" % len(accel._bins))
    one = lambda e: g.trace(e, accel.run(e, 90))
    ts = vt.pmap(one, es)
    vt.note("ran")
    bad = conform.judge(chk, ts, "DlrmTrace.tla", rerun=lambda j: one(es[j]), label=lambda j: es[j].what,
                        replay=lambda j: {"config": es[j].yaml, "script": es[j].stim, "output": es[j].out})
    vt.note("judged")
    bi = {x[0] for x in bad}
    c = [t for j, t in enumerate(ts) if j not in bi and sum(x["e"] == "out" for x in t["ev"]) > 2 and t["cfg"]["n"] > 1 and "want" not in t["cfg"]
         and all(any(x["v"]) for x in t["ev"] if x["e"] == "out") and t["cfg"]["gather"][0][0]["f"] and len(str(t["cfg"]["ws"])) > 20000]
    if c:
        conform.must_reject_all(chk, "DlrmTrace.tla", c[0], MUT)
    chk.extra.update(runs=len(es), lookups=sum(len(x["a"]) for t in ts for x in t["ev"] if x["e"] == "in"), vectors_out=sum(x["e"] == "out" for t in ts for x in t["ev"]),
                     gather_instructions=sum(len(t["cfg"]["gather"]) for t in ts))
    for j in (0, 1, len(ts) - 1):
        chk.samples.append({"run": es[j].what, "last": ts[j]["ev"][-2:]})
    for name, cfg in models(T):
        chk.model(name, vt.tlc("DlrmMC.tla", cfg, workers=8, timeout=3000))
    for w, n in WRONG:
        chk.refute("a system that goes wrong (%s) is accepted" % w, vt.tlc("DlrmMC.tla", MC % ((w,) + n), workers=4))
    chk.assumptions = ["results fit 16 bits", "an input asks no channel for more than the queues hold", "engines of a layer share a clock",
                       "the words of an input can be dealt out evenly", "addresses are multiples of the word size"]
    return chk.finish()


MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Way = "%s"
 Asks <- %s
 Prog <- %s
 Engines = %d
 Inputs = %d
 Depth = %d
INVARIANTS Right
PROPERTIES Done
"""
WRONG = [("full", ("A11", "P11", 1, 2, 1)), ("again", ("A12", "P12", 2, 2, 2)), ("reorder", ("A11", "P11", 2, 2, 2)), ("channel", ("A12", "P12", 2, 2, 2)),
         ("once", ("A11", "P11", 2, 2, 2)), ("first", ("A12", "P12", 2, 2, 2)), ("keep", ("A121", "P121", 2, 2, 2)), ("deal", ("A12", "P12", 2, 2, 2))]


def models(T):
    n = 4 if T else 3
    yield "one_of_each", MC % ("sound", "A12", "P12", 2, n, 2)
    yield "two_of_one", MC % ("sound", "A11", "P11", 1, n + 1, 1)
    yield "slices", MC % ("sound", "A121", "P121", 2, n, 2)
    if T:
        yield "deep", MC % ("sound", "A121", "P121", 4, 5, 4)


vt.main(main)
