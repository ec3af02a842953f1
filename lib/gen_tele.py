"""Telemetry traces: module-side events joined with the statistics files."""
import math, os, re
import gen_axis, gen_mm, noc


def layout(e, r=0, pre="vt"):
    """port -> (noc, node, adapter period, module period), from the design's own files"""
    d = os.path.join(e.root, "example-designs/vt")
    place, clks = {}, {}
    for l in open(os.path.join(d, pre + ".place")):
        f = l.split()
        if len(f) >= 3:
            place[f[0]] = (int(f[1]), int(f[2]))
    for l in open(os.path.join(d, pre + ".clks")):
        f = l.split()
        clks[f[0]] = (int(f[1]), int(f[2]))
    per = [v for k, v in e.yaml.items() if k.startswith("config")][0]["design"]["clk_periods"]
    out = {}
    for l in e.scn[r].splitlines():
        f = l.split()
        if f[:1] == ["port"]:
            full = f[1] + "." + f[2]
            n, node = place.get(full) or place[f[1]]
            a, c = clks[f[1]]
            out[full] = (n, node, e.ad["clk_period"][a], per[c], int(f[5]), f[4])
    return out


def ps(s):
    return int(round(float(s) * 1000))


def hops(e, n, a, b):
    k = max(e.noc["dim_x"][n], e.noc["dim_y"][n])
    h = 1
    for x, y in ((a % k, b % k), (a // k, b // k)):
        d = abs(x - y)
        h += min(d, k - d) if e.noc["topology"][n] == "torus" else d
    return h


def width(e, port, ch, lay):
    c = e.itf
    p = lay[port]
    if p[5] == "axis":
        return p[4] + c["axis_tuser_width"] + 1
    a = 64 + 13 + 2 + c["axi_user_width"] + 1
    d = c["max_axi_data_width"] + 2 + c["axi_user_width"] + 1
    return None


def flits(e, port, ch, lay, dst_dw=None):
    p = lay[port]
    pw = e.noc["payload_width"][p[0]]
    if p[5] == "axis":
        return math.ceil((p[4] + e.itf["axis_tuser_width"] + 1) / pw)
    return 1   # lower bound is enough for the memory-mapped kinds


def devices(rng, idx):
    """Two devices under traffic of their own.  No node sends on both, so every
    record of the one table belongs to a known device."""
    n = {"payload_width": [100], "dim_x": [4], "dim_y": [4], "vc_buffer_size": [8]}
    nodes = list(range(16))
    rng.shuffle(nodes)
    portal, half = nodes[:2], [nodes[2:6], nodes[6:10]]
    scn, place, clks, flows, k, total = [], {}, {}, set(), 0, 0
    for r in range(2):
        out, pl, ck = [], ["portal_inst 0 %d axis" % portal[r]], ["portal_inst 0 0"]
        snd, rcv = ["%s%d" % (rng.choice("abx"), i) for i in range(4)], ["%s%d" % (rng.choice("cdw"), i) for i in range(4)]
        for m, node in list(zip(snd, half[r])) + list(zip(rcv, half[1 - r])):
            out.append("mod " + m)
            ck.append("%s 0 0" % m)
            pl.append("%s 0 %d axis" % (m, node))
            out.append("port %s %s axis 96 0" % (m, "out m" if m in snd else "in s"))
        for m in rcv:
            out.append("ready %s.in/s -1 %s" % (m, rng.choice(["1", "01", "0001"])))
        for m in snd:
            for _ in range(rng.randrange(0, 12)):
                k, total, q = k + 1, total + 1, rng.choice(rcv)
                out.append("send %s.out/s %d 0 0 %d %s.in %x %x %d" % (m, rng.choice([0, 0, 1, 6]), r, q, (k << 64) | rng.getrandbits(60), rng.getrandbits(40), rng.randrange(2)))
                flows.add(("r%d.%s.out/s" % (r, m), "r%d.%s.in/s" % (r, q)))
        scn.append(out)
        place["vt%d.place" % r] = "\n".join(pl) + "\n"
        clks["vt%d.clks" % r] = "\n".join(ck) + "\n"
    for r in range(2):
        scn[r] += ["drain_ns 1500", "quiet_ns 4000", "max_ns %d" % (40000 + total * 400), "reset 4", "place vt%d.place" % r, "clks vt%d.clks" % r]
    e = noc.Env("dev%d" % idx, noc=n, adapters={"fifo_size": [16]}, interfaces={"max_axis_tdata_width": 96, "axis_tuser_width": 40}, clk_periods=[5.0], rads=2, place=place, clks=clks,
                scn=["\n".join(s) + "\n" for s in scn], cluster={"inter_rad_latency": 10, "inter_rad_bw": 19.2})
    e.meta = {"flows": sorted(flows), "ordered": True}
    return e


def trace(e, rc, ev, dev=None):
    """what one device showed"""
    r = dev or 0
    tag, k0 = "r%d." % r, str(r) if r else ""
    lay = layout(e, r, "vt" if dev is None else "vt%d" % r)
    recs, n = {}, 0
    rows = []
    p = os.path.join(e.root, "stats.csv")
    if os.path.exists(p):
        L = open(p).read().splitlines()
        for l in L[1:]:
            f = [x.strip() for x in l.split(",")]
            rows.append(dict(id=int(f[0]), noc=int(f[1]), src=int(f[2]), dst=int(f[3]), w=int(f[4]), hops=int(f[5]), t=[ps(x) for x in f[6:12]], lat=ps(f[12])))
    if dev is not None:
        other = {(x[0], x[1]) for p, x in layout(e, 1 - dev, "vt%d" % (1 - dev)).items() if p.endswith(".out")}
        rows = [x for x in rows if (x["noc"], x["src"]) not in other]
    rows.sort(key=lambda r: r["id"])
    for r in rows:
        recs.setdefault("%d.%d" % (r["noc"], r["src"]), []).append(r)
        del r["id"]
    for port, x in lay.items():
        recs.setdefault("%d.%d" % (x[0], x[1]), [])
    used = {}
    evs, pairs, rec = [], set(), [[] for _ in range(len(e.yaml["cluster"]["telemetry_traces"]))]
    shown = {}
    drv = e.yaml["cluster"]["sim_driver_period"]
    end = max([x["t"] for x in ev if x["e"] == "done"], default=1 << 40)
    ev = [x for x in ev if x.get("p", "").startswith(tag)]
    # a node's accepting edge precedes its hand-over edge in the same instant
    for x in ev:
        if x["e"] == "A":
            s, d = lay[x["p"].split("/")[0][3:]], lay[x["d"][3:]]
            key = "%d.%d" % (s[0], s[1])
            used[key] = used.get(key, 0) + 1
            if x["t"] >= end and used[key] > len(recs[key]):   # the run ended in this very instant
                continue
            pairs.add((s[0], s[1], d[1]))
            if x.get("tr", -1) >= 0:
                rec[x["tr"]].append(int(math.ceil(x["t"] / drv / 1000)))
            evs.append({"e": "A", "p": x["p"], "d": x["d"] + "/" + x["p"].split("/")[1], "m": x["m"], "t": x["t"], "noc": s[0], "src": s[1], "dst": d[1], "w": s[4],
                        "key": "%d.%d" % (s[0], s[1]), "nf": flits(e, x["p"].split("/")[0][3:], "", lay), "ap": int(round(s[2] * 1000)),
                        "np": int(round(e.noc["clk_period"][s[0]] * 1000)),
                        "slack": int(round(1000 * ((2 if s[5] == "axis" else 6) * s[2] + 2 * e.noc["clk_period"][s[0]]))), "hops": hops(e, s[0], s[1], d[1])})
        elif x["e"] == "P":
            shown[x["p"]] = x["m"]
        elif x["e"] == "T" and x["t"] < end:
            evs.append({"e": "T", "p": x["p"], "m": shown[x["p"]], "t": x["t"]})
    cyc, agg = 1, []
    p = os.path.join(e.root, "agg%s.txt" % k0)
    if os.path.exists(p):
        for l in open(p):
            f = l.split()
            if f[0] == "cycles":
                cyc = int(f[1])
            else:
                agg.append(float(f[1]))
    sec = cyc * drv * 1e-9
    name2node = {}
    for port, x in lay.items():
        name2node.setdefault((x[0], x[1]), set()).add(port.split(".")[0])
    groups = {}   # flows as the file names them -> node pairs
    for n, a, b in sorted(pairs):
        groups.setdefault((n, min(name2node[(n, a)]), min(name2node[(n, b)])), []).append([n, a, b])
    traffic = {}
    for k in range(e.noc["num_nocs"]):
        p = os.path.join(e.root, "flows%s_noc%d.xml" % (k0, k))
        if os.path.exists(p):
            for m in re.finditer(r'src="\.\*noc_router_(\S+?)\.\*" dst="\.\*noc_router_(\S+?)\.\*" bandwidth="([^"]*)"', open(p).read()):
                q = (k, m.group(1), m.group(2))
                traffic[q] = traffic.get(q, 0) + float(m.group(3)) * sec
    traffic = [dict(members=groups.get(q, []), bits=int(round(b)), name="%d:%s>%s" % q) for q, b in sorted(traffic.items())]
    probes = []
    p = os.path.join(e.root, "sim.trace")
    if rec and os.path.exists(p):
        probes = [[int(z) for z in l.split()] for l in open(p).read().splitlines()]
    lim = math.ceil(end / drv / 1000)   # probes of the very last instant may follow the log
    probes = [[c for c in q if c < lim] for q in probes]
    rec = [[c for c in q if c < lim] for q in rec]
    evs.append({"e": "end", "p": "", "m": "", "now": end if end < 1 << 40 else 0, "traffic": traffic, "agg": [int(round(a * sec)) if a * sec < 2e9 else 2000000000 for a in agg],
                "links": [dict(noc=a, src=b, dst=c, hops=hops(e, a, b, c) - 1) for a, b, c in sorted(pairs)], "probes": probes, "want": rec})
    if rc != 0:
        evs.append({"e": "crash", "p": str(rc), "m": ""})
    fl = [f.split(">") if isinstance(f, str) else list(f) for f in e.meta["flows"]]
    fl = [f for f in fl if f[0].startswith(tag)]
    return {"cfg": {"flows": fl, "recs": recs, "pairs": [list(q) for q in sorted(pairs)], "ordered": e.meta["ordered"]}, "ev": evs}
