#!/usr/bin/env python3
"""C11: every accepted DRAM request completes exactly once and refresh never lapses."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform
import gen_dram as g

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Addrs = {%s}\n N = %d\n Cap = %d\n CmdCap = %d\n Waits = %s\n Dep = TRUE\nINVARIANTS Sound\nPROPERTIES AllServed\n"


def idx(t, e, w=None, from_=0):
    i = [i for i, x in enumerate(t["ev"]) if x["e"] == e and (w is None or x["w"] == w) and i >= from_]
    return i[len(i) // 2] if i else None


def lost(t):
    del t["ev"][idx(t, "D", 0)]


def lost_write(t):
    del t["ev"][idx(t, "D", 1)]


def twice(t):
    i = idx(t, "D", 0)
    t["ev"].insert(i, dict(t["ev"][i]))


def wrong(t):
    t["ev"][idx(t, "D", 0)]["a"] += 1000


def early(t):
    """a read that went to the array reported a cycle too soon"""
    for i, e in enumerate(t["ev"]):
        if e["e"] == "RD":
            for j in range(i + 1, len(t["ev"])):
                x = t["ev"][j]
                if x["e"] == "D" and x["a"] == e["a"] and x["w"] == 0:
                    if x["t"] == e["t"] + t["cfg"]["lat"]:
                        x["t"] -= 1
                        return
                    break
    return False


def stray(t):
    t["ev"].insert(0, dict(t["ev"][idx(t, "RD")], t=0))


def no_refresh(t):
    i = [i for i, x in enumerate(t["ev"]) if x["e"] == "REF" and x["u"] == 1]
    for j in reversed(i[len(i) // 2:]):
        del t["ev"][j]


def overtake(t):
    """a write back before a read that was accepted earlier"""
    for i, e in enumerate(t["ev"]):
        if e["e"] == "WR":
            for j in range(i - 1, -1, -1):
                x = t["ev"][j]
                if x["e"] == "RD" and x["a"] == e["a"]:
                    # the write must have been accepted before that read was served
                    if any(y["e"] == "Q" and y["w"] == 1 and y["a"] == e["a"] for y in t["ev"][:j]) and not any(y["e"] == "WR" and y["a"] == e["a"] for y in t["ev"][:i]):
                        t["ev"][j], t["ev"][i] = t["ev"][i], t["ev"][j]
                        return
    return False


def unsent(t):
    t["ev"][-1]["u"] = 1


MUTS = [("lost read", lost), ("lost write", lost_write), ("read reported twice", twice), ("wrong address", wrong), ("reported early", early), ("unasked read", stray), ("refresh lapsed", no_refresh),
        ("requests left", unsent), ("crash", lambda t: t["ev"].insert(3, {"e": "crash", "t": 0, "a": 0, "w": 0, "u": 0}))]


def main():
    chk = vt.Check("C11")
    rng = chk.rng
    T = vt.THOROUGH
    n, q = (2400, 600) if T else (160, 300)
    cs = [g.case(rng, i, q) for i in range(n)]
    g.exe()
    vt.note("built")
    bad, first, over, counts = [], None, None, {}
    step = 200
    for lo in range(0, n, step):
        part = cs[lo:lo + step]
        rs = vt.pmap(lambda i: g.run(part[i], "%d" % i), range(len(part)))
        items = [(i, ch) for i in range(len(part)) for ch in range(part[i]["x"]["counts"]["ch"])]
        tr = [g.queue_trace(part[i], rs[i], ch) for i, ch in items]
        for t in tr:
            for e in t["ev"]:
                counts[e["e"]] = counts.get(e["e"], 0) + 1
        b = conform.judge(chk, tr, "DramQueueTrace.tla", rerun=lambda j: g.queue_trace(part[items[j][0]], g.run(part[items[j][0]], "again%d" % j), items[j][1]),
                          label=lambda j: "%s channel %d, %s requests, %s" % (part[items[j][0]]["name"], items[j][1], part[items[j][0]]["style"], part[items[j][0]]["ini"]["system"]),
                          replay=lambda j: {"ini": part[items[j][0]]["ini"], "requests": part[items[j][0]]["reqs"]})
        bad += b
        bi = {x[0] for x in b}
        if first is None:
            ok = [t for j, t in enumerate(tr) if j not in bi and not t["cfg"]["sref"] and {"REF", "RD", "WR", "Q", "D"} <= {e["e"] for e in t["ev"]} and idx(t, "D", 1) is not None and idx(t, "D", 0) is not None
                  and sum(e["e"] == "REF" and e["u"] == 1 for e in t["ev"]) > 8]
            first = ok[0] if ok else None
            for j in (0, 1, 2):
                chk.samples.append({"device": part[items[j][0]]["name"], "style": part[items[j][0]]["style"], "system": part[items[j][0]]["ini"]["system"], "events": len(tr[j]["ev"]), "first": tr[j]["ev"][:3]})
        if over is None:
            import copy
            for j, t in enumerate(tr):
                if j not in bi and overtake(copy.deepcopy(t)) is not False:
                    over = t
                    break
    vt.note("validated")
    chk.extra.update(devices=len({c["name"] for c in cs}), events=counts, requests=sum(len(c["reqs"]) for c in cs))
    if first:
        conform.must_reject_all(chk, "DramQueueTrace.tla", first, MUTS)
    if over:
        conform.must_reject_all(chk, "DramQueueTrace.tla", over, [("write before an earlier read", overtake)])
    models = [("1, 2", 5, 2, 2), ("1, 2, 3", 4, 2, 2), ("1, 2", 5, 1, 1)]
    if T:
        models += [("1, 2, 3", 5, 2, 2), ("1, 2", 7, 2, 2), ("1, 2, 3", 6, 2, 1)]
    for m, r in vt.pmap(lambda m: (m, vt.tlc("DramQueueMC.tla", CFG % (m + ("TRUE",)), workers=2, timeout=3000, heap="6g")), models, 3):
        chk.model("queue_addrs%d_reqs%d_cap%d_cmd%d" % ((len(m[0].split(",")),) + m[1:]), r)
    chk.refute("a controller that stops on dependent writes serves everything", vt.tlc("DramQueueMC.tla", CFG % ("1, 2", 4, 2, 2, "FALSE"), workers=2))
    chk.assumptions = ["HMC devices are left out", "requests name aligned words", "finitely many requests compete: endless row hits or writes may hold back other requests (first-ready scheduling)",
                       "self-refresh excuses a rank from the refresh interval"]
    return chk.finish()


vt.main(main)
