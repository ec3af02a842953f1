"""Random placement and clock files (C13)."""
import csv, os
import noc

CLASSES = [
    dict(dims=[(4, 4)]),
    dict(dims=[(4, 4), (3, 3)]),
    dict(dims=[(2, 2), (5, 5), (3, 2)]),
    # thorough only
    dict(dims=[(8, 8)]),
    dict(dims=[(3, 3), (3, 3), (2, 2), (4, 4)]),
]
PERIODS = [5.0, 2.5, 4.0, 8.0]


def scenario(rng, idx, cls):
    dims = CLASSES[cls]["dims"]
    nn = len(dims)
    n = {"type": ["2d"] * nn, "num_nocs": nn, "payload_width": [166] * nn, "topology": ["mesh"] * nn, "dim_x": [d[0] for d in dims], "dim_y": [d[1] for d in dims],
         "routing_func": ["dim_order"] * nn, "vcs": [5] * nn, "vc_buffer_size": [8] * nn, "output_buffer_size": [8] * nn, "num_packet_types": [5] * nn,
         "router_uarch": ["iq"] * nn, "vc_allocator": ["islip"] * nn, "sw_allocator": ["islip"] * nn, "credit_delay": [1] * nn, "routing_delay": [1] * nn,
         "vc_alloc_delay": [1] * nn, "sw_alloc_delay": [1] * nn, "clk_period": [rng.choice([1.0, 1.25, 0.8]) for _ in dims]}
    if nn > 1:
        n["num_nodes"] = [0] * nn
    ad = {"clk_period": [1.25, 1.0], "fifo_size": [16] * nn, "obuff_size": [2] * nn}
    itf = {"max_axis_tdata_width": 64, "axis_tuser_width": 75, "max_axi_data_width": 128, "axi_user_width": 75}
    pers = PERIODS[:]
    rng.shuffle(pers)
    pers = pers[:rng.randrange(1, 5)]
    free = [(k, x + y * max(d)) for k, d in enumerate(dims) for x in range(d[0]) for y in range(d[1])]
    rng.shuffle(free)

    def take():     # every network as likely, however small
        k = rng.choice(sorted({f[0] for f in free}))
        f = [f for f in free if f[0] == k][-1]
        free.remove(f)
        return f
    scn, place, clks, ports, lines = [], [], [], {}, []
    sites = []          # [noc, node, clocks]
    names = ["m", "m1", "m10", "m2", "zz", "A_b", "dram", "x9"]
    rng.shuffle(names)
    nm = rng.randrange(3, 8)
    modclk = {}

    def put(full, role, kind, site):
        ports[full] = {"port": full, "noc": site[0], "node": site[1], "role": role, "kind": kind}
    for i in range(nm):
        mod = names[i]
        mm = rng.random() < 0.45
        clk = (rng.randrange(2), rng.randrange(len(pers)))
        sites_here = []
        shared = None
        if not mm and sites and rng.random() < 0.35:    # share a node, hence its clocks
            shared = rng.choice(sites)
            clk = shared[2]
        modclk[mod] = clk
        scn.append("mod " + mod)
        if mm:
            np_ = rng.choice([1, 1, 2, 3])
            pn = rng.sample(["s", "mem10", "mem2", "q", "zz"], np_)
            bymod = np_ == 1 and rng.random() < 0.5
            for p in pn:
                if not free:
                    break
                ms = rng.choice("ms")
                k, x = take()
                full = "%s.%s" % (mod, p)
                scn.append("port %s %s %s aximm 64 0" % (mod, p, ms))
                put(full, ms, "aximm", (k, x))
                lines.append(("M", mod, k, x, "aximm") if bymod else ("P", full, k, x, "aximm"))
        else:
            np_ = rng.randrange(1, 6)
            pn = rng.sample(["in", "in10", "in2", "out", "a", "z", "b1"], np_)
            bymod = rng.random() < 0.4
            for j, p in enumerate(pn):
                if bymod:
                    site = sites_here[0] if sites_here else None
                else:
                    site = rng.choice(sites_here) if sites_here and rng.random() < 0.5 else None
                if site is None:
                    if shared and (j == 0 or rng.random() < 0.4):
                        site = shared
                    elif free:
                        site = take() + (clk,)
                        sites.append(site)
                    elif sites_here:
                        site = sites_here[0]
                    else:
                        break
                    sites_here.append(site)
                ms = rng.choice("ms")
                full = "%s.%s" % (mod, p)
                scn.append("port %s %s %s axis 64 %d" % (mod, p, ms, rng.randrange(3)))
                put(full, ms, "axis", site)
                if not bymod:
                    lines.append(("P", full, site[0], site[1], "axis"))
            if bymod and sites_here:
                lines.append(("M", mod, sites_here[0][0], sites_here[0][1], "axis"))
    rng.shuffle(lines)
    place = ["%s %d %d %s" % l[1:] for l in lines]
    order = list(modclk)
    rng.shuffle(order)
    clks = ["%s %d %d" % (m, modclk[m][0], modclk[m][1]) for m in order]
    # traffic: every sender to every receiver of its NoC
    out = list(scn)
    cnt = 0
    typ = {tuple(s.split()[1:3]): int(s.split()[-1]) for s in scn if s.startswith("port")}
    for a in ports.values():
        if a["role"] != "m":
            continue
        for b in sorted(ports):
            b = ports[b]
            if b["role"] != "s" or b["noc"] != a["noc"] or b["kind"] != a["kind"]:
                continue
            if a["kind"] == "axis":
                if typ[tuple(a["port"].split("."))] != typ[tuple(b["port"].split("."))]:
                    pass
                for _ in range(rng.choice([1, 2])):
                    cnt += 1
                    out.append("send %s/s %d 0 0 0 %s %x 0 1" % (a["port"], rng.randrange(4), b["port"], (cnt << 40) | rng.getrandbits(30)))
            else:
                cnt += 1
                out.append("mm %s/ar %d 0 0 0 %s %x 0 0 0 0 3 1 1 0" % (a["port"], rng.randrange(4), b["port"], cnt << 8))
    out += ["drain_ns 300", "quiet_ns 2000", "max_ns %d" % (20000 + cnt * 400), "reset 4"]
    e = noc.Env("place%d" % idx, noc=n, adapters=ad, interfaces=itf, clk_periods=pers, place={"vt.place": "\n".join(place) + "\n"},
                clks={"vt.clks": "\n".join(clks) + "\n"}, scn=["\n".join(out) + "\n"])
    e.meta = {"ports": ports, "lines": lines, "pers": pers, "clk": modclk, "cnt": cnt}
    return e


def dist(e, k, a, b):
    w = max(e.noc["dim_x"][k], e.noc["dim_y"][k])
    return abs(a % w - b % w) + abs(a // w - b // w) + 1


def trace(e, rc, ev):
    m = e.meta
    evs = []
    for l in m["lines"]:
        evs.append({"e": "port" if l[0] == "P" else "module", "n": l[1], "noc": l[2], "node": l[3], "kind": l[4]})
    for mod, c in sorted(m["clk"].items()):
        evs.append({"e": "clkline", "n": mod, "ai": c[0] + 1, "ci": c[1] + 1})
    pub = {x["p"][3:]: x for x in ev if x["e"] == "place"}
    for p in sorted(pub):
        x = pub[p]
        evs.append({"e": "pub", "n": p, "noc": x["noc"], "node": x["node"], "itf": x["itf"], "base": x.get("base", "")})
    tag = {}
    for x in ev:
        if x["e"] == "A":
            evs.append({"e": "A", "n": x["p"][3:].split("/")[0], "d": x["d"][3:], "m": mid(x)})
        elif x["e"] == "P":
            tag[x["p"]] = mid(x)
        elif x["e"] == "T":
            evs.append({"e": "T", "n": x["p"][3:].split("/")[0], "m": tag.get(x["p"], "?")})
    p = os.path.join(e.root, "stats.csv")
    rows, st = {}, []
    if os.path.exists(p):
        for l in open(p).read().splitlines()[1:]:
            f = [z.strip() for z in l.split(",")]
            k = (int(f[1]), int(f[2]), int(f[3]), int(f[5]))
            rows[k] = rows.get(k, 0) + 1
            # the file carries six digits: up to 10 microseconds they are exact
            st.append({"noc": k[0], "src": k[1], "dst": k[2], "t": [round(float(z) * 1000) if float(z) < 9999 else 0 for z in f[6:12]]})
    evs.append({"e": "rows", "rows": [{"noc": k[0], "src": k[1], "dst": k[2], "hops": k[3], "n": v} for k, v in sorted(rows.items())]})
    evs.append({"e": "stamps", "rows": st})
    for x in ev:
        if x["e"] == "clk" and x["edges"] > 1:
            evs.append({"e": "clk", "n": x["p"][3:], "edges": x["edges"] - 1, "span": int(x["last"] - x["first"])})
    evs.append({"e": "end"} if rc == 0 else {"e": "crash", "n": str(rc)})
    roles = [{"n": p, "mod": p.split(".")[0], "role": v["role"], "kind": v["kind"]} for p, v in sorted(m["ports"].items())]
    return {"cfg": {"ports": roles, "pers": [int(z * 1000) for z in m["pers"]], "aper": [round(z * 1000) for z in e.ad["clk_period"]], "nper": [round(z * 1000) for z in e.noc["clk_period"]], "w": [max(a, b) for a, b in zip(e.noc["dim_x"], e.noc["dim_y"])]}, "ev": evs}


def mid(x):
    f = x["m"].split(":")
    return f[0] if not x["p"].endswith("/ar") else f[0][-6:]
