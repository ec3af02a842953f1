#!/usr/bin/env python3
"""C08: the inter-device link keeps order, latency, bandwidth and addressing."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, noc, conform
import gen_link as g

CFG = "SPECIFICATION MCSpec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n N = %d\n T = %d\n A = %d\n B = %d\n S = %d\n Beats = %d\n ReadFirst = %s\nINVARIANTS Explained Bounded\n"


def shows(t, k=0):
    """(event, device) pairs at which a beat is shown"""
    return [(i, d) for i, e in enumerate(t["ev"]) if e["e"] == "C" for d, o in enumerate(e["o"]) if o]


def early(t):
    s = shows(t)
    for i, d in s:
        if not t["ev"][i - 1]["o"][d]:
            t["ev"][i - 1]["o"][d], t["ev"][i]["o"][d] = t["ev"][i]["o"][d], ""
            return
    return False


def late(t):
    for i, d in shows(t):
        if not t["ev"][i + 1]["o"][d]:
            # alone on the link: nothing was accepted for it in the meantime
            lat = max(1, t["cfg"]["T"]) + 1
            if i >= lat and not any(t["ev"][j]["o"][d] for j in range(max(0, i - 4 * lat), i)):
                t["ev"][i + 1]["o"][d], t["ev"][i]["o"][d] = t["ev"][i]["o"][d], ""
                return
    return False


def swap(t):
    s = shows(t)
    for a in range(len(s)):
        for b in range(a + 1, len(s)):
            (i, d), (j, e) = s[a], s[b]
            if d == e and t["ev"][i]["o"][d] != t["ev"][j]["o"][d]:
                t["ev"][i]["o"][d], t["ev"][j]["o"][d] = t["ev"][j]["o"][d], t["ev"][i]["o"][d]
                return
    return False


def device(t):
    i, d = shows(t)[-1]
    o = t["ev"][i]["o"]
    o[d], o[d - 1] = o[d - 1], o[d]


def node(t):
    i, d = shows(t)[0]
    m = t["ev"][i]["o"][d].rsplit(":", 1)
    t["ev"][i]["o"][d] = m[0] + ":" + str(int(m[1]) + 1)


def lost(t):
    i, d = shows(t)[-1]
    t["ev"][i]["o"][d] = ""


def twice(t):
    i, d = shows(t)[-1]
    t["ev"][i + 1]["o"][d] = t["ev"][i]["o"][d]


def share(t):
    for e in t["ev"][10:]:
        if e["e"] == "C" and 0 in e["r"]:
            e["r"][e["r"].index(0)] = 1
            return
    return False


def refuse(t):
    for e in t["ev"][10:]:
        if e["e"] == "C" and 1 in e["r"] and not e["a"]:
            e["r"][e["r"].index(1)] = 0
            return
    return False


def silent(t):
    for e in t["ev"]:
        if e["e"] == "C" and e["lost"]:
            e["lost"] = 0
            return
    return False


def miscount(t):
    if not t["ev"][-1].get("count"):
        return False
    t["ev"][-1]["last"] -= 1


MUTS = [("early", early), ("late", late), ("out of order", swap), ("wrong device", device), ("wrong node", node), ("lost", lost), ("twice", twice), ("share exceeded", share),
        ("share not given", refuse), ("crash", lambda t: t["ev"].append({"e": "crash", "p": "1"}))]


def main():
    chk = vt.Check("C08")
    rng = chk.rng
    T = vt.THOROUGH
    envs = [g.design(rng, i) for i in range(14 if T else 5)]
    stim = [g.stimulus(rng, i) for i in range(600 if T else 120)]
    vt.pmap(lambda e: e.configure(), envs)
    noc.build(envs)
    g.exe()
    vt.note("built")
    links = vt.pmap(lambda i: g.run(stim[i], "%d" % i), range(len(stim)))
    lbad = conform.judge(chk, links, "InterRadTrace.tla", rerun=lambda i: g.run(stim[i], "%d" % i), label=lambda i: "link %d %s" % (i, links[i]["cfg"]), replay=lambda i: stim[i])
    vt.note("link validated")
    res = conform.run_all(envs)
    whole = [g.trace(e, rc, ev) for e, (rc, ev) in zip(envs, res)]
    conform.judge(chk, whole, "AxisTrace.tla", rerun=lambda i: g.trace(envs[i], *noc.run(envs[i])[:2]), label=lambda i: envs[i].name, replay=lambda i: conform.env_data(envs[i]))
    vt.note("designs validated")
    chk.extra.update(links=len(links), edges=sum(len(t["ev"]) for t in links), beats=sum(len(c["beats"]) for c in stim), losses=sum(t["ev"][-1].get("count", 0) for t in links),
                     designs=len(envs), remote_beats=sum(e.meta["beats"] for e in envs))
    for i in (0, 1, 2):
        chk.samples.append({"link": links[i]["cfg"], "edges": len(links[i]["ev"]), "end": links[i]["ev"][-1]})
    chk.samples.append({"design": envs[0].name, "flows": envs[0].meta["flows"][:4], "events": len(whole[0]["ev"])})
    bad = {b[0] for b in lbad}
    ok = [i for i in range(len(links)) if i not in bad and not links[i]["ev"][-1]["count"] and links[i]["cfg"]["A"] < links[i]["cfg"]["B"] and i % 4 == 0 and len(shows(links[i])) > 4]
    if ok:
        conform.must_reject_all(chk, "InterRadTrace.tla", links[ok[0]], MUTS)
    ok = [i for i in range(len(links)) if i not in bad and links[i]["ev"][-1]["count"]]
    if ok:
        conform.must_reject_all(chk, "InterRadTrace.tla", links[ok[0]], [("silent loss", silent), ("miscounted", miscount)])
    if all(x["e"] != "crash" for x in whole[0]["ev"]):
        def wrong(t):
            for e in reversed(t["ev"]):
                if e["e"] == "T":
                    o = [p for p in t["cfg"]["recv"] if p != e["p"]]
                    e["p"] = o[0]
                    return
        def drop(t):
            i = max(j for j, e in enumerate(t["ev"]) if e["e"] == "T")
            del t["ev"][i]
        conform.must_reject_all(chk, "AxisTrace.tla", whole[0], [("wrong receiver", wrong), ("lost beat", drop)])
    models = [(2, 2, 1, 2, 2, 4), (2, 3, 2, 3, 1, 4), (1, 1, 1, 1, 2, 5), (3, 2, 1, 1, 2, 3)]
    if T:
        models += [(2, 3, 2, 3, 2, 5), (3, 3, 1, 2, 1, 4), (2, 1, 3, 4, 3, 6)]
    def mc(m):
        return m, vt.tlc("InterRadMC.tla", CFG % (m + ("TRUE",)), workers=2)
    for m, r in vt.pmap(mc, models, 4):
        chk.model("link_N%d_T%d_A%d_B%d_S%d_beats%d" % m, r)
    r = vt.tlc("InterRadMC.tla", CFG % ((2, 2, 1, 2, 2, 3) + ("FALSE",)), workers=2)
    chk.refute("a link that delivers one cycle early", r)
    chk.assumptions = ["the portal's clock is the link's clock", "beats for another device address interface 0 of their node", "the destination field is wide enough for the number of devices",
                       "devices leave reset before traffic for them arrives"]
    return chk.finish()


vt.main(main)
