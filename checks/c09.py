#!/usr/bin/env python3
"""C09: a memory channel behaves like an array of words behind ordered ports."""
import copy, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform
import gen_mem as g

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n Words = {%s}\n N = %d\n Reorder = %s\nINVARIANTS Sound\n"
LIVE = "PROPERTIES Answered\n"


def idx(t, e, pick=lambda x: True):
    i = [i for i, x in enumerate(t["ev"]) if x["e"] == e and pick(x)]
    return i[len(i) // 2] if i else None


def drop(e, pick=lambda x: True):
    def f(t):
        i = idx(t, e, pick)
        if i is None:
            return False
        del t["ev"][i]
    return f


def again(e):
    def f(t):
        i = idx(t, e)
        t["ev"].insert(i, dict(t["ev"][i]))
    return f


def change(e, k, v):
    def f(t):
        t["ev"][idx(t, e)][k] = v
    return f


def flip_last(t):
    i = idx(t, "R")
    t["ev"][i]["l"] = 1 - t["ev"][i]["l"]


def swap(e, key):
    """two responses of different requests change places"""
    def f(t):
        i = [i for i, x in enumerate(t["ev"]) if x["e"] == e]
        for a, b in zip(i, i[1:]):
            if key(t["ev"][a]) != key(t["ev"][b]):
                t["ev"][a], t["ev"][b] = t["ev"][b], t["ev"][a]
                return
        return False
    return f


def owners(t):
    """the word every read beat belongs to"""
    q, out, k = [], {}, 0
    for e in t["ev"]:
        if e["e"] == "AR":
            q += e["a"]
    for i, e in enumerate(t["ev"]):
        if e["e"] == "R":
            out[i] = q[k]
            k += 1
    return out


def stale(t):
    """a read issued after a write was acknowledged returns what was there before"""
    own = owners(t)
    words, data, live, acked, old = [], [], [], {}, {}
    init = t["cfg"]["init"]
    pend, k = [], 0
    for i, e in enumerate(t["ev"]):
        if e["e"] == "AW":
            words += [(w, j == len(e["a"]) - 1) for j, w in enumerate(e["a"])]
        elif e["e"] == "W":
            data.append(e["v"])
        while words and data:
            w, l = words.pop(0)
            live.append((w, data.pop(0), l))
        if e["e"] == "B":
            while True:
                w, v, l = live.pop(0)
                old.setdefault(w, []).append(acked.get(w, init[w - 1]))
                acked[w] = v
                if l:
                    break
        elif e["e"] == "AR":
            pend += [list(old.get(w, [])) for w in e["a"]]
        elif e["e"] == "R":
            o = [v for v in pend[k] if v != e["v"]]
            k += 1
            if o:
                t["ev"][i]["v"] = o[-1]
                return
    return False


MUTS = [("wrong data", change("R", "v", 999999)), ("wrong read tag", change("R", "u", "beef")), ("wrong write tag", change("B", "u", "beef")), ("wrong last", flip_last),
        ("lost read beat", drop("R")), ("lost write response", drop("B")), ("read beat twice", again("R")), ("write answered twice", again("B")), ("stale read", stale),
        ("read responses out of order", swap("R", lambda x: x["u"])), ("write responses out of order", swap("B", lambda x: x["u"])), ("requests left", lambda t: t["ev"][-1].update(l=1)),
        ("answered before the data", lambda t: t["ev"].insert(0, t["ev"].pop(idx(t, "B")))), ("crash", lambda t: t["ev"].insert(3, {"e": "crash", "a": [], "v": 0, "u": "", "l": 0}))]


def main():
    chk = vt.Check("C09")
    rng = chk.rng
    T = vt.THOROUGH
    n, q = (1600, 120) if T else (160, 60)
    cs = [g.case(rng, i, q if g.STYLES[i % len(g.STYLES)] != "long" else 6) for i in range(n)]
    g.exe()
    vt.note("built")
    counts, seen, wrong = {}, set(), []
    step = 160
    for lo in range(0, n, step):
        part = cs[lo:lo + step]
        rs = vt.pmap(lambda i: g.run(part[i], "%d" % i), range(len(part)))
        items = [(i, ch) for i in range(len(part)) for ch in range(part[i]["x"]["counts"]["ch"])]
        tr = [g.trace(part[i], rs[i], ch) for i, ch in items]
        for t in tr:
            for e in t["ev"]:
                counts[e["e"]] = counts.get(e["e"], 0) + 1
        b = conform.judge(chk, tr, "MemCtrlTrace.tla", rerun=lambda j: g.trace(part[items[j][0]], g.run(part[items[j][0]], "again%d" % j), items[j][1]),
                          label=lambda j: "%s channel %d, %s requests, queues of %d" % (part[items[j][0]]["name"], items[j][1], part[items[j][0]]["style"], part[items[j][0]]["queue"]),
                          replay=lambda j: {"ini": part[items[j][0]]["ini"], "queue": part[items[j][0]]["queue"], "requests": part[items[j][0]]["lines"]})
        bi = {x[0] for x in b}
        for name, f in MUTS:
            if name in seen:
                continue
            for j, t in enumerate(tr):
                if j in bi or idx(t, "R") is None or idx(t, "B") is None or len(t["ev"]) > 400:
                    continue
                m = copy.deepcopy(t)
                if f(m) is not False:
                    wrong.append((name, m))
                    seen.add(name)
                    break
        if not chk.samples:
            for j in (0, 1, 2):
                chk.samples.append({"device": part[items[j][0]]["name"], "style": part[items[j][0]]["style"], "queue": part[items[j][0]]["queue"], "events": len(tr[j]["ev"]), "first": tr[j]["ev"][:3]})
    vt.note("validated")
    chk.extra.update(devices=len({c["name"] for c in cs}), beats=counts, styles=list(g.STYLES), rejected=sorted(seen))
    conform.must_reject_each(chk, "MemCtrlTrace.tla", wrong)
    if len(seen) < len(MUTS) and not chk.viol:
        raise vt.Broken("no recorded run could be altered for " + ", ".join(m[0] for m in MUTS if m[0] not in seen))
    models = [("1, 2", 2, "TRUE", True), ("1, 2", 3, "TRUE", False)]
    if T:
        models += [("1, 2", 3, "TRUE", True), ("1, 2, 3", 3, "TRUE", False)]
    for m, r in vt.pmap(lambda m: (m, vt.tlc("MemCtrlMC.tla", CFG % m[:3] + (LIVE if m[3] else ""), workers=4, timeout=3000, heap="6g")), models, 2):
        chk.model("memory_words%d_reqs%d%s" % (len(m[0].split(",")), m[1], "_live" if m[3] else ""), r)
    chk.refute("a controller that does not put reads back in order is accepted", vt.tlc("MemCtrlMC.tla", CFG % ("1, 2", 2, "FALSE"), workers=4))
    chk.assumptions = ["one beat is one word of the device (AxSIZE matches)", "dram_queue_sizes above 16", "reset only at the start", "write data follows the order of write addresses", "byte strobes are not used"]
    return chk.finish()


vt.main(main)
