"""Random stream scenarios (single device)."""
import math
import noc

TYPES_OK = list(range(5))


def hexbits(rng, w):
    return "%x" % rng.getrandbits(w)


def pattern(rng):
    k = rng.randrange(7)
    if k == 0:
        return -1, "1"
    if k == 1:
        return rng.randrange(0, 4), "1"          # ready only after valid
    if k == 2:
        return -1, "0" * rng.randrange(1, 6) + "1"
    if k == 3:
        return -1, "0" * 400 + "1" * rng.randrange(1, 40)
    if k == 4:
        return -1, "0"                           # stalled until the drain phase
    if k == 5:
        return -1, "".join(rng.choice("01") for _ in range(rng.randrange(2, 40))) + "1"
    return -1, "1" * rng.randrange(1, 8) + "0" * rng.randrange(1, 12)


# Configurations sharing one generated header (one binary each).
# payload, max data, user, (message types, VCs per type) choices, radix choices
CLASSES = [
    dict(payload=166, maxd=512, user=75, vcs=[(5, 1)], k=[3, 4], topo=["mesh"]),
    dict(payload=64, maxd=96, user=40, vcs=[(3, 1), (4, 1)], k=[3, 4], topo=["mesh"]),
    dict(payload=40, maxd=250, user=33, vcs=[(2, 1)], k=[2], topo=["mesh"]),
    dict(payload=128, maxd=64, user=20, vcs=[(5, 2), (5, 3)], k=[3, 4], topo=["torus", "torus", "mesh"]),
    # thorough only
    dict(payload=82, maxd=512, user=75, vcs=[(1, 1)], k=[2], topo=["mesh"]),
    dict(payload=100, maxd=64, user=24, vcs=[(2, 2)], k=[5], topo=["torus", "mesh"]),
    dict(payload=512, maxd=1024, user=128, vcs=[(5, 1)], k=[6, 8], topo=["mesh"]),
]


def scenario(rng, idx, cls, big=False):
    c = CLASSES[cls]
    payload, maxd, userw = c["payload"], c["maxd"], c["user"]
    types, per = rng.choice(c["vcs"])
    topo = rng.choice(c["topo"])
    if topo == "torus":
        rf = rng.choice(["dim_order", "dim_order", "dim_order_bal"])
    else:
        rf = rng.choice(["dim_order", "dim_order", "dor"] + (["xy_yx"] if per >= 2 else []))
    k = rng.choice(c["k"])
    dx = dy = k
    if topo == "mesh" and rng.random() < 0.3 and k > 2:
        dx = rng.randrange(2, k + 1)
    nodes = [x + y * k for y in range(dy) for x in range(dx)]
    maxnf = math.ceil((maxd + userw + 1) / payload)
    vcb = rng.choice([maxnf, maxnf + 1, 8, 16])
    vcb = max(vcb, maxnf)
    fifo = max(rng.choice([vcb, vcb + 1, 16, 32]), vcb)
    n = {
        "payload_width": [payload], "topology": [topo], "dim_x": [dx], "dim_y": [dy], "routing_func": [rf],
        "vcs": [types * per], "num_packet_types": [types], "vc_buffer_size": [vcb],
        "output_buffer_size": [rng.choice([8, 8, 4, 16])],
        "vc_allocator": [rng.choice(["islip", "islip", "separable_input_first", "wavefront", "separable_output_first", "loa", "pim"])],
        "sw_allocator": [rng.choice(["islip", "islip", "separable_input_first", "wavefront", "separable_output_first", "max_size"])],
        "credit_delay": [rng.choice([1, 1, 2])], "routing_delay": [rng.choice([0, 1, 1, 2])],
        "vc_alloc_delay": [rng.choice([1, 1, 2])], "sw_alloc_delay": [rng.choice([1, 1, 2])],
        "clk_period": [rng.choice([1.0, 0.5, 1.25, 2.0, 0.8])],
    }
    # adapters exchange at most one credit per NoC cycle
    nper = n["clk_period"][0]
    aper = rng.choice([p for p in (1.0, 1.25, 2.0, 2.5, 5.0, 0.8, 0.5, 1.7)])
    mods_per = [rng.choice([5.0, 2.5, 4.0, 1.25, 3.3, 2.0, 1.0]) for _ in range(rng.randrange(1, 4))]
    ad = {"clk_period": [aper, rng.choice([1.25, 2.0, 5.0])], "fifo_size": [fifo], "obuff_size": [rng.choice([1, 2, 2, 3, 4])]}
    itf = {"max_axis_tdata_width": maxd, "axis_tuser_width": userw}

    nmods = rng.randrange(2, 6)
    place, clks, scn = [], [], []
    senders, receivers = [], []
    node_of, noclk = {}, {}
    free = nodes[:]
    rng.shuffle(free)
    used = []
    flows = {}
    for m in range(nmods):
        name = "m%d" % m
        scn.append("mod " + name)
        ci, ai = rng.randrange(len(mods_per)), rng.randrange(2)
        share = bool(used) and (rng.random() < 0.25 or not free)
        if share:
            node, ci, ai = rng.choice(used)
        else:
            node = free.pop()
            used.append((node, ci, ai))
        clks.append("%s %d %d" % (name, ai, ci))
        nin, nout = rng.randrange(0, 4), rng.randrange(0, 4)
        if nin + nout == 0:
            nin = 1
        if m == 0:
            nout = max(nout, 1)
        if m == 1:
            nin = max(nin, 1)
        plist = []
        for i in range(nin):
            plist.append(("in%d" % i, "s"))
        for i in range(nout):
            plist.append(("out%d" % i, "m"))
        rng.shuffle(plist)
        bymod = rng.random() < 0.4
        if bymod:
            place.append("%s 0 %d axis" % (name, node))
        for pn, ms in plist:
            typ = rng.randrange(types)
            pnode = node
            if not bymod:
                if rng.random() < 0.3 and free:   # a port of its own node
                    pnode = free.pop()
                    used.append((pnode, ci, ai))
                place.append("%s.%s 0 %d axis" % (name, pn, pnode))
            full = "%s.%s" % (name, pn)
            node_of[full] = pnode
            (receivers if ms == "s" else senders).append((full, typ))
            scn.append(("port", name, pn, ms, typ))
    dataw = rng.choice([maxd, maxd, max(8, maxd // 2), max(8, maxd - 37)])
    dataw2 = dataw if rng.random() < 0.6 else rng.choice([8, max(8, dataw // 3), maxd])
    width = {r: rng.choice([dataw, dataw2]) for r, _ in receivers}
    for s, _ in senders:
        width[s] = width[rng.choice(receivers)[0]]
    out = []
    for s in scn:
        out.append("port %s %s %s axis %d %d" % (s[1], s[2], s[3], width["%s.%s" % (s[1], s[2])], s[4]) if isinstance(s, tuple) else s)
    nmsg = 0
    total = rng.randrange(2200, 2600) if big == 2 else rng.randrange(10, 120 if not big else 400)
    cnt = 0
    slow = max(mods_per)
    style = rng.randrange(4)
    hot = rng.choice(receivers)[0]
    for s, typ in senders:
        k = total // len(senders) + 1
        mine = [r for r, _ in receivers if width[r] == width[s]]
        dw = width[s]
        for _ in range(k):
            cnt += 1
            gap = 0 if style in (0, 1) else rng.choice([0, 0, 1, 2, 5, 20])
            tmo = rng.choice([0, 0, 0, 0, 1, 3]) if style in (1, 3) else 0
            d = hot if style == 0 and rng.random() < 0.8 and hot in mine else rng.choice(mine)
            u = (rng.getrandbits(userw - 12) << 12) | cnt
            data = rng.getrandbits(dw)
            if rng.random() < 0.1:
                data = rng.choice([0, (1 << dw) - 1])
            out.append("send %s/s %d %d 0 0 %s %x %x %d" % (s, gap, tmo, d, data, u, rng.randrange(2)))
            flows["r0.%s/s>r0.%s/s" % (s, d)] = 1
    for r, typ in receivers:
        lazy, pat = pattern(rng)
        out.append("ready %s/s %d %s" % (r, lazy, pat))
    maxper = max(mods_per + [aper, nper, 5.0])
    drain = int(rng.choice([300, 1000, 2500]) * (2 if big else 1))
    out += ["drain_ns %d" % drain, "quiet_ns %d" % int(400 * maxper), "max_ns %d" % (drain + int(cnt * maxnf * maxper * 30) + 20000), "reset 4"]
    rng.shuffle(place)
    e = noc.Env("ax%s" % idx, noc=n, adapters=ad, interfaces=itf, clk_periods=mods_per,
                place={"vt.place": "\n".join(place) + "\n"}, clks={"vt.clks": "\n".join(clks) + "\n"},
                scn=["\n".join(out) + "\n"])
    nf = math.ceil((min(width.values()) + userw + 1) / payload)
    e.meta = {"nodes": node_of, "nf": nf, "ordered": per == 1 and rf in ("dim_order", "dor"), "types": dict(senders + receivers),
              "ports": [s for s, _ in senders] + [r for r, _ in receivers], "flows": sorted(flows), "k": k, "topo": topo,
              "cap": capacity(n, ad, nf, dx, dy, per, k if topo == "torus" else max(dx, dy)), "dataw": dataw, "nper": nper, "mods_per": mods_per}
    return e


def capacity(n, ad, nf, dx, dy, per, k):
    """Beats of one flow that fit between the two handshakes."""
    hops = 2 * k - 1
    vcb = n["vc_buffer_size"][0]
    flits = 2 * nf + ad["fifo_size"][0] + 1 + (hops + 1) * vcb * per + nf + 1
    return flits // nf + 1 + ad["obuff_size"][0] + 1


def trace(env, rc, ev):
    evs = []
    for x in ev:
        if x["e"] in ("A", "P", "T", "N"):
            y = {"e": x["e"], "p": x["p"], "m": x["m"]}
            if x["e"] == "A":
                y["d"] = x["d"] + "/s"
            evs.append(y)
        elif x["e"] == "done":
            evs.append({"e": "end", "p": x["p"], "m": "", "u": x["unsent"]})
    if rc != 0:
        evs.append({"e": "crash", "p": str(rc), "m": ""})
    return {"cfg": {"flows": [f.split(">") for f in env.meta["flows"]], "ordered": env.meta["ordered"], "cap": env.meta["cap"],
                    "recv": sorted({f.split(">")[1] for f in env.meta["flows"]})}, "ev": evs}


def hand(name, cls, types, k, mods, sends, readies=(), noc_over=None, ad_over=None, mods_per=(5.0,), drain=300, maxns=40000, topo="mesh", per=1):
    """mods: {module: (node, [(port, m|s, type)])}; sends: (port, dst, gap, tmo, nb, data, user, last)"""
    c = CLASSES[cls]
    n = {"payload_width": [c["payload"]], "topology": [topo], "dim_x": [k], "dim_y": [k], "routing_func": ["dim_order"],
         "vcs": [types * per], "num_packet_types": [types], "vc_buffer_size": [16]}
    n.update(noc_over or {})
    ad = {"fifo_size": [16], "obuff_size": [2], "clk_period": [1.25, 5.0]}
    ad.update(ad_over or {})
    out, place, clks, node_of, tp = [], [], [], {}, {}
    for m, (node, ports) in mods.items():
        out.append("mod " + m)
        clks.append("%s 0 0" % m)
        place.append("%s 0 %d axis" % (m, node))
        for pn, ms, typ in ports:
            out.append("port %s %s %s axis %d %d" % (m, pn, ms, c["maxd"], typ))
            node_of[m + "." + pn] = node
            tp[m + "." + pn] = typ
    flows = set()
    for s, d, gap, tmo, nb, data, user, last in sends:
        out.append("send %s/s %d %d %d 0 %s %x %x %d" % (s, gap, tmo, nb, d, data & ((1 << c["maxd"]) - 1), user & ((1 << c["user"]) - 1), last))
        flows.add("r0.%s/s>r0.%s/s" % (s, d))
    for r, lazy, pat in readies:
        out.append("ready %s/s %d %s" % (r, lazy, pat))
    out += ["drain_ns %d" % drain, "quiet_ns 4000", "max_ns %d" % maxns, "reset 4"]
    itf = {"max_axis_tdata_width": c["maxd"], "axis_tuser_width": c["user"]}
    e = noc.Env(name, noc=n, adapters=ad, interfaces=itf, clk_periods=list(mods_per), place={"vt.place": "\n".join(place) + "\n"},
                clks={"vt.clks": "\n".join(clks) + "\n"}, scn=["\n".join(out) + "\n"])
    nf = math.ceil((c["maxd"] + c["user"] + 1) / c["payload"])
    e.meta = {"nodes": node_of, "nf": nf, "ordered": per == 1, "types": tp, "ports": list(tp), "flows": sorted(flows), "k": k, "topo": topo,
              "cap": capacity(dict(n), ad, nf, k, k, per, k), "dataw": c["maxd"], "nper": n.get("clk_period", [1.0])[0], "mods_per": list(mods_per)}
    return e


def special(rng, base):
    """Long histories and extreme fan-in that random scenarios do not reach."""
    out = []

    def rnd(w):
        return rng.getrandbits(w)
    # traffic long after the start (counters of the fabric beyond 2^31 ps)
    mods = {"a": (0, [("o", "m", 0)]), "b": (3, [("i", "s", 0)]), "c": (1, [("i", "s", 1), ("o", "m", 1)])}
    sends = []
    for t in (0, 2140000, 2146000, 2147000, 2148000, 2160000):
        for j in range(4):
            sends.append(("a.o", "b.i", 0, 0, t, rnd(250), (rnd(20) << 12) | len(sends), j & 1))
            sends.append(("c.o", "c.i" if j == 0 else "c.i", 1, 0, t, rnd(250), (rnd(20) << 12) | len(sends), j & 1))
    out.append(hand("late", 2, 2, 2, mods, sends, drain=0, maxns=2400000, noc_over={"clk_period": [5.0]}, ad_over={"clk_period": [5.0, 5.0]}))
    # many ports at one node, both directions
    nm = 12
    mods = {"hub": (4, [("i%d" % i, "s", i % 5) for i in range(nm)] + [("o%d" % i, "m", (i * 2) % 5) for i in range(nm)]),
            "src": (0, [("o%d" % i, "m", i % 5) for i in range(nm)] + [("i%d" % i, "s", i % 5) for i in range(nm)])}
    sends = []
    for r in range(6):
        for i in range(nm):
            sends.append(("src.o%d" % i, "hub.i%d" % ((i + r) % nm), 0, 0, 0, rnd(512), (rnd(60) << 12) | len(sends), r & 1))
            sends.append(("hub.o%d" % i, "src.i%d" % ((i * 5 + r) % nm), 0, 0, 0, rnd(512), (rnd(60) << 12) | len(sends), r & 1))
    out.append(hand("fanin", 0, 5, 3, mods, sends, [("hub.i%d" % i, -1, "0" * (i % 4) + "1") for i in range(nm)]))
    # thousands of messages through one port pair
    mods = {"a": (0, [("o", "m", 0), ("p", "m", 1)]), "b": (2, [("i", "s", 0), ("j", "s", 1)])}
    sends = []
    for j in range(1500):
        sends.append(("a.o", "b.i", 0, 0, 0, rnd(250), (rnd(20) << 12) | (j & 4095), j & 1))
        if j % 3 == 0:
            sends.append(("a.p", "b.j", 0, 0, 0, rnd(250), (rnd(20) << 12) | (j & 4095), j & 1))
    out.append(hand("long", 2, 2, 2, mods, sends, drain=0, maxns=90000))
    # a receiver that never looks while another port of the same node does
    mods = {"a": (0, [("o", "m", 0), ("p", "m", 1)]), "b": (8, [("i", "s", 0), ("j", "s", 1), ("k", "s", 0)])}
    sends = []
    for j in range(60):
        sends.append(("a.o", "b.i" if j % 2 else "b.k", 0, 0, 0, rnd(96), (rnd(20) << 12) | j, j & 1))
        sends.append(("a.p", "b.j", j % 7, 0, 0, rnd(96), (rnd(20) << 12) | j, j & 1))
    out.append(hand("stall", 1, 3, 3, mods, sends, [("b.i", -1, "0"), ("b.j", -1, "01"), ("b.k", 3, "1")], drain=2500))
    return out


PATH_CFG = """SPECIFICATION Spec
CONSTANTS MaxK = %d NFlits = %d Buf = %d Fifo = %d Obuf = %d Guard = %s Small = %s
INVARIANTS Wormhole Credits Bounds
%s
"""


def models(chk):
    """The path model refines AxisNoc; without the credit guard it does not."""
    import vt
    runs = [("path_k1", (1, 2, 2, 2, 1, "TRUE", "FALSE", ""), True),
            ("path_k1_small", (1, 2, 2, 2, 1, "TRUE", "TRUE", "PROPERTY Refines"), True),
            ("path_noguard", (2, 2, 2, 2, 1, "FALSE", "FALSE", ""), False)]
    if vt.THOROUGH:
        runs += [("path_k1_refines", (1, 2, 2, 2, 1, "TRUE", "FALSE", "PROPERTY Refines"), True),
                 ("path_k2_small", (2, 1, 2, 2, 1, "TRUE", "TRUE", "PROPERTY Refines"), True),
                 ("path_k2_nf2", (2, 2, 2, 2, 1, "TRUE", "TRUE", "PROPERTY Refines"), True),
                 ("path_k2_nf3", (2, 3, 3, 3, 2, "TRUE", "TRUE", ""), True)]

    def one(r):
        name, c, ok = r
        return name, ok, vt.tlc("AxisPathMC.tla", PATH_CFG % c, workers=3 if not vt.THOROUGH else 4, timeout=800)
    for name, ok, r in vt.pmap(one, runs, 3):
        if ok:
            chk.model(name, r)
        else:
            chk.model(name, r, need=False)
            if not r.violated:
                raise vt.Broken("model %s: expected a violation of Credits\n%s" % (name, r.out[-2000:]))


def stalled(rng, i, cls=(1, 2)):
    """Senders that never run dry against receivers that stall for long."""
    cl = rng.choice(cls)
    c = CLASSES[cl]
    k = rng.choice(c["k"])
    types = rng.choice(c["vcs"])[0]
    nf = math.ceil((c["maxd"] + c["user"] + 1) / c["payload"])
    vcb = rng.choice([nf, nf + 1, 8 if nf <= 8 else nf])
    fifo = max(vcb, rng.choice([vcb, vcb + 3]))
    obuf = rng.choice([1, 2, 3])
    nodes = list(range(k * k))
    rng.shuffle(nodes)
    nr = rng.randrange(1, 4)
    ns = rng.randrange(1, 4)
    rtypes = [rng.randrange(types) for _ in range(nr)]
    mods = {}
    share = rng.random() < 0.5
    if share:
        mods["rx"] = (nodes[0], [("i%d" % j, "s", rtypes[j]) for j in range(nr)])
        rx = ["rx.i%d" % j for j in range(nr)]
    else:
        nr = min(nr, len(nodes) - 2)
        rx = []
        for j in range(nr):
            mods["rx%d" % j] = (nodes[j], [("i", "s", rtypes[j])])
            rx.append("rx%d.i" % j)
    left = nodes[1:] if share else nodes[nr:]
    onenode = rng.random() < 0.5 or len(left) < ns
    tx = []
    stypes = []
    for j in range(ns):
        t = rng.randrange(types)
        stypes.append(t)
    if onenode:
        mods["tx"] = (left[0], [("o%d" % j, "m", stypes[j]) for j in range(ns)])
        tx = ["tx.o%d" % j for j in range(ns)]
    else:
        for j in range(ns):
            mods["tx%d" % j] = (left[j], [("o", "m", stypes[j])])
            tx.append("tx%d.o" % j)
    sends = []
    cap = capacity({"vc_buffer_size": [vcb]}, {"fifo_size": [fifo], "obuff_size": [obuf]}, nf, k, k, 1, k)
    n = cap + 25
    cnt = 0
    for s in tx:
        dests = rx if rng.random() < 0.5 else [rng.choice(rx)]
        tm = rng.choice([0, 0, 1, 2, 5])
        for _ in range(n if len(dests) == 1 else n // 2):
            gap = rng.choice([0, 0, 0, 1, 3])
            u = (rng.getrandbits(c["user"] - 12) << 12) | (cnt & 4095)
            cnt += 1
            sends.append((s, rng.choice(dests), gap, tm if rng.random() < 0.5 else 0, 0, rng.getrandbits(c["maxd"]), u, rng.randrange(2)))
    ready = []
    for r in rx:
        ready.append((r,) + rng.choice([(-1, "0"), (-1, "0"), (-1, "0" * rng.randrange(20, 400) + "1"), (rng.randrange(1, 30), "1"),
                                       (-1, "".join(rng.choice("0001") for _ in range(50)) + "1"), (-1, "10"), (-1, "1")]))
    per = rng.choice([(5.0,), (2.0,), (1.25,), (4.0,)])
    return hand("st%d" % i, cl, types, k, mods, sends, ready, mods_per=per, drain=rng.choice([1500, 4000]), maxns=4000 + cnt * nf * 80,
                noc_over={"vc_buffer_size": [vcb], "output_buffer_size": [rng.choice([4, 8])], "clk_period": [rng.choice([1.0, 2.0])]},
                ad_over={"fifo_size": [fifo], "obuff_size": [obuf], "clk_period": [rng.choice([1.25, 2.0, 0.8]), 5.0]})


def multi(rng, i, cls, same=False):
    """Two NoCs in one device, each with its own modules, sizes, clocks and traffic."""
    a = scenario(rng, "m%da" % i, cls)
    while True:
        b = scenario(rng, "m%db" % i, cls)
        if not same or (b.noc["dim_x"] == a.noc["dim_x"] and b.noc["dim_y"] == a.noc["dim_y"] and b.noc["vcs"] == a.noc["vcs"]
                        and b.noc["num_packet_types"] == a.noc["num_packet_types"] and a.noc["topology"] == b.noc["topology"]):
            break
    ma, mb = a.meta, b.meta
    pa, pb = list(ma["mods_per"]), list(mb["mods_per"])
    na, ad = dict(a.noc), dict(a.ad)
    for k, v in b.noc.items():
        if isinstance(v, list):
            na[k] = a.noc[k] + v
    na["num_nocs"] = 2
    na["num_nodes"] = [0, 0]
    for k in ("fifo_size", "obuff_size", "in_arbiter", "out_arbiter", "vc_mapping"):
        ad[k] = a.ad[k] + b.ad[k]
    ad["clk_period"] = a.ad["clk_period"] + b.ad["clk_period"]
    oa = len(a.ad["clk_period"])
    import os

    def rd(e, f):
        return open(os.path.join(e.root, "example-designs/vt", f)).read()

    def ren(s):     # module mK of the second network becomes nK
        return "n" + s[1:]
    place = rd(a, "vt.place")
    for l in rd(b, "vt.place").splitlines():
        f = l.split()
        place += " ".join([ren(f[0]), "1"] + f[2:]) + "\n"
    clks = rd(a, "vt.clks")
    for l in rd(b, "vt.clks").splitlines():
        f = l.split()
        clks += "%s %d %d\n" % (ren(f[0]), int(f[1]) + oa, int(f[2]) + len(pa))
    opt = {}
    out = []
    for e, fn in ((a, lambda s: s), (b, ren)):
        for l in e.scn[0].splitlines():
            f = l.split()
            if f[0] in ("drain_ns", "quiet_ns", "max_ns", "reset"):
                opt[f[0]] = max(opt.get(f[0], 0), int(f[1]))
                continue
            if f[0] in ("mod", "port", "ready", "send"):
                f[1] = fn(f[1])
            if f[0] == "send":
                f[6] = fn(f[6])
            out.append(" ".join(f))
    # interleave the module order
    out = sorted(out, key=lambda l: {"mod": 0, "port": 1}.get(l.split()[0], 2))
    out += ["%s %d" % kv for kv in opt.items()]
    e = noc.Env("mn%d" % i, noc=na, adapters=ad, interfaces=a.itf, clk_periods=pa + pb, place={"vt.place": place}, clks={"vt.clks": clks},
                scn=["\n".join(out) + "\n"])

    def rf(s):
        return s.replace("r0.m", "r0.n")
    nodes = dict(ma["nodes"])
    nodes.update({ren(k): v for k, v in mb["nodes"].items()})
    types = dict(ma["types"])
    types.update({ren(k): v for k, v in mb["types"].items()})
    e.meta = {"nodes": nodes, "nf": max(ma["nf"], mb["nf"]), "ordered": ma["ordered"] and mb["ordered"], "types": types,
              "ports": ma["ports"] + [ren(x) for x in mb["ports"]], "flows": sorted(ma["flows"] + [rf(x) for x in mb["flows"]]),
              "k": max(ma["k"], mb["k"]), "topo": ma["topo"], "cap": max(ma["cap"], mb["cap"]), "dataw": max(ma["dataw"], mb["dataw"]),
              "nper": ma["nper"], "mods_per": pa + pb}
    return e
