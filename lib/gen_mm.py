"""Random memory-mapped scenarios (single device)."""
import math
import noc
from gen_axis import pattern

# one binary per class: payload, data width, user width, radix choices
CLASSES = [
    dict(payload=166, dataw=512, user=66, k=[3, 4], ratios=[(5.0, 1.25), (5.0, 2.5), (8.0, 1.25), (1.25, 1.25), (4.0, 2.0), (3.3, 2.0)]),
    dict(payload=48, dataw=96, user=66, k=[2], ratios=[(5.0, 1.25), (10.0, 1.25), (4.0, 2.5), (1.0, 1.25)]),
    dict(payload=34, dataw=80, user=66, k=[3], ratios=[(10.0, 1.25), (5.0, 1.0), (8.0, 1.25), (2.5, 2.5)]),
    # thorough
    dict(payload=256, dataw=128, user=100, k=[4], ratios=[(5.0, 2.5), (4.0, 1.0), (2.0, 2.0), (7.0, 2.0), (1.0, 2.0)]),
    dict(payload=64, dataw=256, user=64, k=[5], ratios=[(10.0, 1.25), (8.0, 1.0), (8.0, 1.25), (1.25, 1.25)]),
]
REQ = {"ar": 1, "aw": 1, "w": 1}


def nflits(c):
    a = 64 + 13 + 2 + c["user"] + 1
    d = c["dataw"] + 2 + c["user"] + 1
    return max(math.ceil(a / c["payload"]), math.ceil(d / c["payload"]))


def scenario(rng, idx, cls, big=False):
    c = CLASSES[cls]
    k = rng.choice(c["k"])
    per = rng.choice([1, 1, 1, 1]) if True else 1
    maxnf = nflits(c)
    vcb = rng.choice([maxnf + 1, maxnf + 2, 16])
    fifo = max(vcb, rng.choice([vcb, 16, 32]))
    nodeper, adper = rng.choice(c["ratios"])
    n = {"payload_width": [c["payload"]], "dim_x": [k], "dim_y": [k], "vcs": [5], "num_packet_types": [5], "vc_buffer_size": [vcb],
         "vc_allocator": [rng.choice(["islip", "separable_input_first", "wavefront"])], "sw_allocator": [rng.choice(["islip", "separable_input_first"])],
         "routing_delay": [rng.choice([0, 1])], "clk_period": [rng.choice([1.0, 0.5, 1.25, 2.0])], "credit_delay": [rng.choice([1, 2])],
         "routing_func": [rng.choice(["dim_order", "dor"])]}
    ad = {"clk_period": [adper], "fifo_size": [fifo], "obuff_size": [2]}
    itf = {"max_axi_data_width": c["dataw"], "axi_user_width": c["user"], "max_axis_tdata_width": 64, "axis_tuser_width": 16}
    nodes = list(range(k * k))
    rng.shuffle(nodes)
    nreq = rng.randrange(1, 4 if k > 2 else 3)
    nresp = rng.randrange(1, 4 if k > 2 else 3)
    nodebits = max(1, noc.clog2(k * k))
    out, place, clks, flows = [], [], [], set()
    node_of, kinds = {}, {}
    reqs, resps = [], []
    mods = []
    # some modules own several ports
    for i in range(nreq):
        mods.append(("q%d" % i, "m"))
    for i in range(nresp):
        mods.append(("s%d" % i, "s"))
    group = rng.random() < 0.3
    names = {}
    for j, (nm, ms) in enumerate(mods):
        mod = ("g" if group else nm)
        names[nm] = (mod, nm if group else "p")
    for mod in sorted({m for m, _ in names.values()}):
        out.append("mod " + mod)
        clks.append("%s 0 0" % mod)
    for nm, ms in mods:
        mod, pn = names[nm]
        node = nodes.pop()
        dw = c["dataw"]
        out.append("port %s %s %s aximm %d 0" % (mod, pn, ms, dw))
        full = "%s.%s" % (mod, pn)
        if not group and rng.random() < 0.4:
            place.append("%s 0 %d aximm" % (mod, node))
        else:
            place.append("%s 0 %d aximm" % (full, node))
        node_of[full] = node
        kinds[full] = ms
        (reqs if ms == "m" else resps).append(full)
    ubits = c["user"] - 64

    def user():
        return (rng.getrandbits(ubits) << 64 if ubits > 0 else 0) | rng.getrandbits(64 - nodebits)

    def addr():
        return rng.getrandbits(64 - nodebits)
    cnt = 0
    nops = rng.randrange(600, 700) if big == 2 else rng.randrange(4, 40 if not big else 150)
    got = {r: {"ar": 0, "aw": 0} for r in resps}
    todo_r = {r: [] for r in resps}
    todo_b = {r: [] for r in resps}
    ar_pos = {r: 0 for r in resps}
    style = rng.randrange(3)
    causal = rng.random() < 0.5
    for q in reqs:
        wcount = 0
        for _ in range(nops):
            d = rng.choice(resps)
            gap = rng.choice([0, 0, 0, 1, 4, 12])
            fld = (rng.randrange(256), rng.randrange(8), rng.randrange(4), rng.randrange(256))
            if rng.random() < 0.5:
                out.append("mm %s/ar %d 0 0 0 %s %x 0 %x 0 %d %d %d %d 0" % (q, gap, d, addr(), user(), fld[0], fld[1], fld[2], fld[3]))
                flows.add(("r0.%s/ar" % q, "r0.%s/ar" % d))
                todo_r[d].append(q)
                cnt += 1
            else:
                out.append("mm %s/aw %d 0 0 %d %s %x 0 %x 0 %d %d %d %d 0" % (q, gap, wcount, d, addr(), user(), fld[0], fld[1], fld[2], fld[3]))
                flows.add(("r0.%s/aw" % q, "r0.%s/aw" % d))
                nb = rng.choice([1, 1, 2, 4, 9])
                for b in range(nb):
                    out.append("mm %s/w %d 0 0 0 %s 0 %x %x %d 0 0 0 %d 0" % (q, rng.choice([0, 0, 0, 2, 7]), d, rng.getrandbits(c["dataw"]), user(),
                                                                         1 if b == nb - 1 else 0, rng.randrange(256)))
                    cnt += 1
                wcount += nb
                flows.add(("r0.%s/w" % q, "r0.%s/w" % d))
                todo_b[d].append(q)
                cnt += 2
    for d in resps:
        rng.shuffle(todo_r[d])
        rng.shuffle(todo_b[d])
        for i, q in enumerate(todo_r[d]):
            nb = rng.choice([1, 1, 2, 5])
            for b in range(nb):
                out.append("mm %s/r %d 0 0 %d %s 0 %x %x %d 0 0 0 %d %d" % (d, rng.choice([0, 0, 1, 5]), i + 1 if causal else 0, q,
                                                                        rng.getrandbits(c["dataw"]), user(), int(b == nb - 1), rng.randrange(256), rng.randrange(4)))
                cnt += 1
            flows.add(("r0.%s/r" % d, "r0.%s/r" % q))
        for i, q in enumerate(todo_b[d]):
            out.append("mm %s/b %d 0 0 %d %s 0 0 %x 0 0 0 0 %d %d" % (d, rng.choice([0, 0, 1, 5]), i + 1 if causal else 0, q, user(), rng.randrange(256), rng.randrange(4)))
            cnt += 1
            flows.add(("r0.%s/b" % d, "r0.%s/b" % q))
    for p in reqs + resps:
        for ch in (("r", "b") if p in reqs else ("ar", "aw", "w")):
            lazy, pat = pattern(rng)
            out.append("ready %s/%s %d %s" % (p, ch, lazy, pat))
    maxper = max(nodeper, n["clk_period"][0])
    drain = rng.choice([300, 1500, 4000])
    out += ["drain_ns %d" % drain, "quiet_ns %d" % int(600 * maxper), "max_ns %d" % (drain + int(cnt * maxnf * maxper * 60) + 30000), "reset 4"]
    e = noc.Env("mm%s" % idx, noc=n, adapters=ad, interfaces=itf, clk_periods=[nodeper], place={"vt.place": "\n".join(place) + "\n"},
                clks={"vt.clks": "\n".join(clks) + "\n"}, scn=["\n".join(out) + "\n"])
    flits = 3 * maxnf + 2 * fifo + 2 + (2 * k) * vcb + 3 * maxnf
    e.meta = {"flows": sorted(flows), "ordered": True, "cap": flits + 8, "nodes": node_of, "k": k, "ports": reqs + resps,
              "nper": n["clk_period"][0], "mods_per": [nodeper], "dataw": c["dataw"], "topo": "mesh"}
    return e


def trace(env, rc, ev):
    evs = []
    for x in ev:
        if x["e"] in ("A", "P", "T", "N"):
            y = {"e": x["e"], "p": x["p"], "m": x["m"]}
            if x["e"] == "A":
                y["d"] = x["d"] + "/" + x["p"].split("/")[1]
                y["k"] = x["p"].split("/")[1]
                y["q"] = x["p"].split("/")[0]
                y["t"] = x["d"]
                if y["k"] == "w":
                    y["last"] = x["m"].split(":")[2] == "1"
            evs.append(y)
        elif x["e"] == "done":
            evs.append({"e": "end", "p": x["p"], "m": "", "u": x["unsent"]})
    if rc != 0:
        evs.append({"e": "crash", "p": str(rc), "m": ""})
    return {"cfg": {"flows": [list(f) for f in env.meta["flows"]], "ordered": env.meta["ordered"], "cap": env.meta["cap"],
                    "recv": sorted({f[1] for f in env.meta["flows"]}), "reqs": sorted({f[0].split("/")[0] for f in env.meta["flows"]})}, "ev": evs}


def special(rng):
    return []


PATH_CFG = """SPECIFICATION Spec
CONSTANTS Shape = %d NFlits = %d Buf = %d Fifo = %d Obuf = %d MaxResp = %d
INVARIANTS Wormhole Bounds
%s
"""


def models(chk):
    """The path model refines AximmNoc and cannot deadlock."""
    import vt
    runs = [("mm_refines", (0, 2, 2, 2, 1, 1, "PROPERTY Refines")), ("mm_burst", (1, 1, 2, 2, 1, 1, "")),
            ("mm_two_requesters", (2, 1, 2, 2, 1, 1, "")), ("mm_two_responders", (3, 1, 2, 2, 1, 1, ""))]
    if vt.THOROUGH:
        runs += [("mm_two_requesters_refines", (2, 1, 2, 2, 1, 1, "PROPERTY Refines")), ("mm_two_responders_refines", (3, 1, 2, 2, 1, 1, "PROPERTY Refines")),
                 ("mm_burst_nf2", (1, 2, 2, 2, 2, 1, "")), ("mm_long", (4, 1, 2, 2, 1, 1, ""))]
    for name, r in vt.pmap(lambda x: (x[0], vt.tlc("AximmPathMC.tla", PATH_CFG % x[1], workers=3, timeout=800)), runs, 3):
        chk.model(name, r)
