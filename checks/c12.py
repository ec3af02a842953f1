#!/usr/bin/env python3
"""C12: word addresses of a memory channel and DRAM locations correspond one to one."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform
import gen_dram as gd
import gen_mem as g

CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nCONSTANTS\n MaxW = %d\n Drop = \"%s\"\nINVARIANTS Sound\n"


def flat(c, loc):
    v = 0
    for n, k in zip(loc, ("ra", "bg", "ba", "ro", "co")):
        v = v * c["x"]["counts"][k] + n
    return v


def questions(rng, c, n):
    """single address bits, their pairs, runs and random words of two channels"""
    bits = c["words"].bit_length() - 1
    base = [0] + [1 << b for b in range(bits)]
    r0 = rng.randrange(c["words"])
    more = {r0 ^ (1 << b) for b in range(bits)} | {r0} | {(r0 + k) % c["words"] for k in range(20)} | {rng.randrange(c["words"]) for _ in range(n)} | {c["words"] - 1 - k for k in range(8)}
    more |= {(1 << rng.randrange(bits)) | (1 << rng.randrange(bits)) for _ in range(n // 3)}
    chans = c["x"]["counts"]["ch"]
    out = g.ask(c, 0, base)
    for ch in sorted({0, chans - 1, rng.randrange(chans)}):
        out += g.ask(c, ch, sorted((more | set(base[:6])) - (set(base) if ch == 0 else set())))
    return out


def follow(c, t):
    """asks again where a linear translation would clash"""
    rows, zero = {}, None
    for e in t["ev"]:
        if e["e"] == "map" and e["ch"] == 0 and e["w"] & (e["w"] - 1) == 0 and len(e["loc"]) == 5:
            if e["w"] == 0:
                zero = flat(c, e["loc"])
            else:
                rows[e["w"].bit_length() - 1] = flat(c, e["loc"])
    if zero is None:
        return None
    k = g.kernel(c["words"], {b: v ^ zero for b, v in rows.items()})
    return k if k is not None and k < c["words"] else None


def bursts(rng, i):
    """bursts written and read back word by word, and the other way round"""
    c = g.case(rng, 0, 1)
    c["style"], c["queue"], c["init"] = "burst/single", 64, {}
    words = 1
    for f in gd.FIELDS[1:]:
        words *= c["x"]["counts"][f]
    W = 1 << c["x"]["shift"]
    lines, v, u = [], 1, 1
    cols = c["x"]["counts"]["co"]
    for ch in range(c["x"]["counts"]["ch"]):
        nb = 0
        for k in range(8):
            ln = rng.choice([2, 3, 7, 16])
            a = max(0, min(words - ln, rng.choice([rng.randrange(words), cols * rng.randrange(1, max(2, words // cols)) - rng.randrange(1, ln), words - ln])))
            if k % 2:
                parts = [(a, ln)]
            else:
                parts = [(a + j, 1) for j in range(ln)]
            for b, n in parts:
                lines.append("o %d aw 0 %d %x %d %x 0 0" % (ch, nb, b * W, n, u))
                for j in range(n):
                    lines.append("o %d w 0 0 0 0 %x %d %x" % (ch, u, j == n - 1, v))
                    v += 1
                u += 1
            nb += len(parts)
            for b, n in ([(a, ln)] if not k % 2 else [(a + j, 1) for j in range(ln)]):
                lines.append("o %d ar 0 %d %x %d %x 0 0" % (ch, nb, b * W, n, u))
                u += 1
    c["lines"], c["cycles"] = lines, 40000
    return c


MUTS = [("two words at one place", lambda t: t["ev"][5].update(loc=list(t["ev"][4]["loc"]))), ("out of range", lambda t: t["ev"][3]["loc"].__setitem__(3, t["cfg"]["dims"][3])),
        ("another channel", lambda t: t["ev"][3].update(dch=t["ev"][3]["dch"] + 1)), ("controller files it elsewhere", lambda t: t["ev"][3].update(chan=t["ev"][3]["chan"] + 1)),
        ("one word at two places", lambda t: t["ev"].insert(6, dict(t["ev"][5], loc=list(t["ev"][4]["loc"][:4]) + [t["ev"][7]["loc"][4]]))),
        ("crash", lambda t: t["ev"].insert(1, dict(t["ev"][1], e="crash")))]


def main():
    chk = vt.Check("C12")
    rng = chk.rng
    T = vt.THOROUGH
    names = [n for n in gd.names() if gd.device(gd.parse(n))[0]["BL"] not in (0, 1) and (1 << gd.device(gd.parse(n))[1]["shift"]) <= 128]
    cs = []
    for n in names:
        for _ in range(8 if T else 2):
            c = g.map_case(rng, n, False)
            c["lines"] = questions(rng, c, 200 if T else 60)
            c["kind"] = "sampled"
            cs.append(c)
    for i in range(400 if T else 40):
        c = g.map_case(rng, rng.choice(names), True)
        chans = c["x"]["counts"]["ch"]
        c["lines"] = g.ask(c, 0, [0]) + ["x %d 0" % ch for ch in sorted({0, chans - 1})]
        c["kind"] = "every word"
        cs.append(c)
    g.exe()
    vt.note("built")
    tr = vt.pmap(lambda i: g.map_trace(cs[i], g.run(cs[i], "m%d" % i)), range(len(cs)))
    extra = [(i, k) for i, k in ((i, follow(cs[i], tr[i])) for i in range(len(cs)) if cs[i]["kind"] == "sampled") if k]
    for i, k in extra:
        cs[i]["lines"] = g.ask(cs[i], 0, [0, k]) + cs[i]["lines"][1:]
        tr[i] = g.map_trace(cs[i], g.run(cs[i], "k%d" % i))
    vt.note("asked")
    label = lambda j: "%s %s, %s %s" % (cs[j]["name"], cs[j]["ini"]["system"]["address_mapping"], cs[j]["kind"], cs[j]["x"]["counts"])
    bad = conform.judge(chk, tr, "AddrMapTrace.tla", rerun=lambda j: g.map_trace(cs[j], g.run(cs[j], "again%d" % j)), label=label, replay=lambda j: {"ini": cs[j]["ini"], "questions": cs[j]["lines"][:40]})
    bi = {x[0] for x in bad}
    ok = [t for j, t in enumerate(tr) if j not in bi and cs[j]["kind"] == "sampled"]
    if ok:
        conform.must_reject_all(chk, "AddrMapTrace.tla", ok[0], MUTS)
    ok = [t for j, t in enumerate(tr) if j not in bi and cs[j]["kind"] != "sampled"]
    if ok:
        conform.must_reject_all(chk, "AddrMapTrace.tla", ok[0], [("a place not reached", lambda t: t["ev"][-1]["loc"].__setitem__(0, t["ev"][-1]["loc"][0] - 1)),
                                                                 ("an answer out of range", lambda t: t["ev"][-1]["loc"].__setitem__(1, 1))])
    vt.note("places judged")
    bs = [bursts(rng, i) for i in range(160 if T else 24)]
    rs = vt.pmap(lambda i: g.run(bs[i], "b%d" % i), range(len(bs)))
    items = [(i, ch) for i in range(len(bs)) for ch in range(bs[i]["x"]["counts"]["ch"])]
    conform.judge(chk, [g.trace(bs[i], rs[i], ch) for i, ch in items], "MemCtrlTrace.tla", rerun=lambda j: g.trace(bs[items[j][0]], g.run(bs[items[j][0]], "bagain%d" % j), items[j][1]),
                  label=lambda j: "bursts of %s" % bs[items[j][0]]["name"], replay=lambda j: {"ini": bs[items[j][0]]["ini"], "requests": bs[items[j][0]]["lines"]})
    vt.note("bursts judged")
    chk.extra.update(devices=len({c["name"] for c in cs}), descriptions=len(cs), words_asked=sum(e["e"] == "map" for t in tr for e in t["ev"]),
                     words_enumerated=sum(e["w"] for t in tr for e in t["ev"] if e["e"] == "all"), clash_candidates=len(extra), burst_runs=len(bs))
    for j in (0, len(cs) // 2, len(cs) - 1):
        chk.samples.append({"device": label(j), "first": tr[j]["ev"][:3]})
    chk.model("orders_widths01", vt.tlc("AddrMapMC.tla", CFG % (1, "none"), workers=8, timeout=600))
    if T:
        chk.model("orders_widths012", vt.tlc("AddrMapMC.tla", CFG % (2, "none"), workers=8, timeout=14000))
    else:
        chk.refute("a translation that forgets a field is accepted", vt.tlc("AddrMapMC.tla", CFG % (1, "ba"), workers=8))
    chk.assumptions = ["HMC devices are left out", "all counts are powers of two, as in every supplied description", "addresses of whole words"]
    return chk.finish()


vt.main(main)
