#!/usr/bin/env python3
"""C20: engines whose programs and matrices are loaded over the NoC compute with what was loaded."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform, accel
import gen_int8 as g


def last(t, e):
    return [i for i, x in enumerate(t["ev"]) if x["e"] == e][-1]


def element(t):
    x = t["ev"][last(t, "out")]
    x["v"][len(x["v"]) // 2] ^= 1


def swap(t):
    o = [i for i, x in enumerate(t["ev"]) if x["e"] == "out"]
    for a, b in zip(o, o[1:]):
        if t["ev"][a]["v"] != t["ev"][b]["v"]:
            t["ev"][a], t["ev"][b] = t["ev"][b], t["ev"][a]
            return
    return False


def early(t):
    t["ev"].insert(1, t["ev"].pop(last(t, "out")))


def row(t):
    """another matrix than the one that was loaded"""
    if t["cfg"]["kind"] != "program":
        return False
    c = t["cfg"]
    r = c["rows"]
    a = [i for i in c["insts"] if i[1]["release"] and i[1]["dest"] == 0]
    if not a:
        return False
    d, addr = a[0][0], a[0][1]["raddr"]
    for x in r:
        if x[0] == d and x[1] == addr:
            x[3] = [v + 1 for v in x[3]] or [1] * g.ND


MV = [("one element wrong", element), ("results out of order", swap), ("a result lost", lambda t: t["ev"].pop(last(t, "out")) and None),
      ("a result twice", lambda t: t["ev"].insert(-1, dict(t["ev"][last(t, "out")]))), ("result before its input", early), ("another matrix", row),
      ("stuck", lambda t: t["ev"][-1].update(e="stuck"))]


def main():
    chk = vt.Check("C20")
    T = vt.THOROUGH
    r = chk.rng
    es = [g.program(r, i) for i in range(200 if T else 24)] + [g.compiled(r, i) for i in range(30 if T else 4)]
    es = [e for e in es if e]
    vt.note("generated")
    vt.pmap(lambda e: e.configure(), es)
    accel.build(es)
    vt.note("built %d binaries" % len(accel._bins))

    def one(e):
        return [g.trace(e, accel.run(e, 150)[0])]

    ts = [x[0] for x in vt.pmap(one, es)]
    vt.note("ran")
    bad = conform.judge(chk, ts, "LoadedTrace.tla", rerun=lambda j: one(es[j])[0], label=lambda j: "mlp_int8, " + es[j].what,
                        replay=lambda j: {"config": es[j].yaml, "script": es[j].stim, "output": es[j].out})
    vt.note("judged")
    bi = {x[0] for x in bad}
    ok = [t for j, t in enumerate(ts) if j not in bi]
    for kind in ("program", "product"):
        c = [t for t in ok if t["cfg"]["kind"] == kind and sum(x["e"] == "out" for x in t["ev"]) >= (3 if kind == "program" else 1) and
             any(any(x["v"]) for x in t["ev"] if x["e"] == "out")]
        c.sort(key=lambda t: len(t["ev"]))
        if c:
            conform.must_reject_all(chk, "LoadedTrace.tla", c[len(c) // 3], [m for m in MV if kind == "program" or m[0] != "another matrix"])
    chk.extra.update(runs=len(es), results=sum(x["e"] == "out" for t in ok for x in t["ev"]), rows_loaded=sum(len(e.cfg.get("rows", [])) for e in es),
                     instructions_loaded=sum(len(e.cfg.get("insts", [])) for e in es))
    for j in (0, len(ts) - 1):
        chk.samples.append({"run": es[j].what, "last": ts[j]["ev"][-2:]})
    for a in ("FALSE", "TRUE"):
        chk.model("loading_again_%s" % a.lower(), vt.tlc("LoadedMC.tla", MC % ("sound", 3 if T else 2, a), workers=8, timeout=3000))
    for w, a in WRONG:
        chk.refute("loading that goes wrong (%s) is accepted" % w, vt.tlc("LoadedMC.tla", MC % (w, 2 if w == "once" else 1, a), workers=8))
    chk.assumptions = ["everything is loaded before the first input is fed", "at most 60 instructions to an engine; no more vectors for an engine than its queues hold",
                       "each queue has one sender", "modules driven by the test bench share its clock"]
    return chk.finish()


MC = """SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANTS
 Way = "%s"
 Inputs = %d
 Bits = 8
 Again = %s
INVARIANTS Exact
PROPERTIES Done
"""
WRONG = [("astray", "FALSE"), ("swap", "FALSE"), ("full", "FALSE"), ("uncut", "FALSE"), ("once", "FALSE"), ("stack", "TRUE")]
vt.main(main)
