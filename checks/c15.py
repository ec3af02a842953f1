#!/usr/bin/env python3
"""C15: a Verilog module, its port map and its wrapper agree."""
import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform
import gen_rtl as g

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Way = \"%s\"\n Plains = {%s}\n Itfs = {%s}\n Sigs = {%s}\n Widths = {1, 2}\nINVARIANTS MapIsTrue Verdicts Joined\n"


def change(kind, h, cond=lambda e: True):
    def m(t):
        for i, e in enumerate(t["ev"]):
            if e["e"] == kind and cond(e):
                return h(t, i, e)
        return False
    return m


def drop(t, i, e):
    del t["ev"][i]


def twice(t, i, e):
    t["ev"].insert(i, dict(e))


other = {"master": "slave", "slave": "master", "input": "output", "output": "input", "inout": "input", "axis": "aximm", "aximm": "axis"}
MAP = [("a port left out", change("mapport", drop)), ("a port twice", change("mapport", twice)), ("an AXI port left out", change("mapaxi", drop)),
       ("a wrong direction", change("mapport", lambda t, i, e: e.update(mode=other[e["mode"]]))), ("a wrong width", change("mapport", lambda t, i, e: e.update(w=e["w"] + 1), lambda e: e["w"] > 0)),
       ("a width given up", change("mapport", lambda t, i, e: e.update(w=-3), lambda e: e["w"] == 1)),
       ("a wrong name", change("mapport", lambda t, i, e: e.update(to=e["to"] + "x"))), ("a wrong role", change("mapaxi", lambda t, i, e: e.update(role=other[e["role"]]))),
       ("a wrong signal", change("mapaxi", lambda t, i, e: e.update(s="other"))), ("a wrong interface", change("mapaxi", lambda t, i, e: e.update(itf=e["itf"] + "x"))),
       ("a wrong protocol", change("mapaxi", lambda t, i, e: e.update(kind=other[e["kind"]]))), ("a module left out", change("mapmodule", drop)),
       ("an invented port", change("end", lambda t, i, e: t["ev"].insert(i, g.ev("mapport", mode="input", w=1, p="ghost", to="ghost")))),
       ("an unreadable line", change("end", lambda t, i, e: t["ev"].insert(i, g.ev("badline")))), ("no map", change("end", lambda t, i, e: e.update(e="crash")))]
WRAP = [("a good map refused", change("verdict", lambda t, i, e: e.update(w=0), lambda e: e["w"] == 1)), ("a spoilt map taken", change("verdict", lambda t, i, e: e.update(w=1), lambda e: e["w"] == 0))]
BUILT = [("a port not joined", change("join", drop)), ("a port joined elsewhere", change("join", lambda t, i, e: e.update(to="clk"), lambda e: e["to"] != "clk")), ("a member too wide", change("member", lambda t, i, e: e.update(w=e["w"] + 1))),
         ("a member the wrong way", change("member", lambda t, i, e: e.update(mode=other[e["mode"]]))), ("an interface not told", change("interface", drop)),
         ("an interface with the wrong role", change("interface", lambda t, i, e: e.update(role=other[e["role"]]))), ("a wrapper that does not compile", change("built", lambda t, i, e: e.update(e="nocompile")))]


def falsified(ts, bi, muts):
    out = []
    for name, m in muts:
        for j in range(len(ts)):
            if j in bi:
                continue
            t = copy.deepcopy(ts[j])
            if m(t) is not False:
                out.append((name, t))
                break
    return out


def run(c, tag):
    if c[0] == "map":
        return g.run_map(c[1], tag)
    t = g.run_wrap(c[1], tag, c[0] == "build")
    t.pop("log", None)
    return t


def main():
    chk = vt.Check("C15")
    T = vt.THOROUGH
    nm, nw, nb = (6000, 3000, 200) if T else (240, 224, 16)
    cs = [("map", g.map_case(chk.rng, i)) for i in range(nm)] + [("wrap", g.wrap_case(chk.rng, i)) for i in range(nw)] + [("build", g.wrap_case(chk.rng, i, False)) for i in range(nb)]
    g.objs()
    vt.note("built")
    order = list(range(nm + nw, len(cs))) + list(range(nm + nw))
    got = dict(zip(order, vt.pmap(lambda i: run(cs[i], str(i)), order)))
    ts = [got[i] for i in range(len(cs))]
    vt.note("ran")
    label = lambda j: ("modules %s of one map" % [m["name"] for f in cs[j][1]["files"] for m in f[1]]) if j < nm else "map %d (%s)" % (j, cs[j][1]["bad"] or "no mistake")
    what = lambda j: {"files": {f[0]: f[2] for f in cs[j][1]["files"]}} if j < nm else {"port.map": cs[j][1]["txt"]}
    bad = conform.judge(chk, ts, "PortMapTrace.tla", rerun=lambda j: run(cs[j], "again%d" % j), label=label, replay=what)
    bi = {x[0] for x in bad}
    vt.note("judged")
    if len(bi) < len(cs) // 2:
        small = lambda a, b: sorted((t for k, t in enumerate(ts[a:b], a) if k not in bi), key=lambda t: len(t["ev"]) < 30)
        conform.must_reject_each(chk, "PortMapTrace.tla", falsified(small(0, nm), (), MAP) + falsified(small(nm, nm + nw), (), WRAP) + falsified(small(nm + nw, len(cs)), (), BUILT))
    kinds = {}
    for t in ts:
        for e in t["ev"]:
            kinds[e["e"]] = kinds.get(e["e"], 0) + 1
    chk.extra.update(module_files=nm, maps_judged=nw + nb, maps_with_a_mistake=sum(bool(c[1].get("bad")) for c in cs[nm:]), wrappers_built=kinds.get("built", 0), events=kinds)
    chk.samples += [what(0), what(nm + 1), what(len(cs) - 1)]
    two = '"x", "y"'
    chk.model("every_small_module", vt.tlc("PortMapMC.tla", CFG % ("sound", '"a"', two, '"tvalid", "tready"'), workers=8, timeout=900))
    if T:
        chk.model("two_plain_ports", vt.tlc("PortMapMC.tla", CFG % ("sound", '"a", "b"', two, '"tvalid", "tready"'), workers=8, timeout=9000))
        chk.model("three_signals", vt.tlc("PortMapMC.tla", CFG % ("sound", '"a", "b"', '"x"', '"tvalid", "tready", "tdata", "tlast"'), workers=8, timeout=9000))
    for w in ("first", "forgets", "twice", "anyrole", "swap"):
        chk.refute("a way of making maps and wrappers that goes wrong (%s) is accepted" % w, vt.tlc("PortMapMC.tla", CFG % (w, '"a"', two, '"tvalid", "tready"'), workers=8))
    vt.note("models")
    chk.assumptions = ["the net types and range forms the parser lists", "AXI-prefixed names belong to AXI interfaces with a requester-driven signal", "no conditional compilation inside a port list"]
    return chk.finish()


vt.main(main)
