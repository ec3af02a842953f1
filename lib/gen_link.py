"""The inter-device link by itself, and whole multi-device designs (C08)."""
import json, os, shutil, subprocess
import noc, vt

W = dict(noc={"payload_width": [100], "dim_x": [4], "dim_y": [4]}, interfaces={"max_axis_tdata_width": 96, "axis_tuser_width": 40}, adapters={"fifo_size": [16]})
_exe = []


def exe():
    """link.cpp with the simulator's own sources (without its main)."""
    if not _exe:
        e = noc.Env("linkcfg", rads=2, clk_periods=[5.0], scn=[], **W).configure()
        noc.build([e])
        d = os.path.join(vt.scratch(), "obj_" + e.key)
        objs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if not f.endswith("_main.cpp.o")]
        s = os.path.join(vt.scratch(), "src_" + e.key, "sim")
        h = os.path.join(vt.VERIF, "harness/vt")
        flags = ["-O0"] + vt.pch() + ["-I" + s, "-I" + os.path.join(s, "noc"), "-I" + h] + ["-I" + os.path.join(vt.RS, "sim", x) for x in vt.INC_NOC[1:]]
        lo = vt.compile_objs([os.path.join(vt.VERIF, "harness/link/link.cpp")], os.path.join(vt.scratch(), "obj_link"), flags)
        _exe.append(vt.link(objs + lo + vt.common_objs("booksim"), os.path.join(vt.scratch(), "linkbin"), ["-lsystemc", "-lpthread"]))
    return _exe[0]


def stimulus(rng, idx):
    n = rng.choice([2, 2, 3, 4])
    T = rng.choice([1, 2, 3, 5, 9, 20])
    B = rng.choice([1, 1, 2, 3, 5, 8])
    A = rng.randrange(1, B + 1)
    S = rng.choice([1, 2, 3, 5, 12, 40, 1000])
    style = idx % 4      # lone beats, bursts, everything at once, random
    c = {"n": n, "T": T, "A": A, "B": B, "S": S}
    beats = []
    k = 0
    per = rng.randrange(4, 9) if style == 0 else rng.randrange(6, 40)
    last = 0
    for s in range(n):
        if style == 0 and s > 0 and rng.random() < 0.4:
            continue
        t = 0
        hot = rng.randrange(n)
        for i in range(per):
            k += 1
            gap = {0: T + B + rng.randrange(0, 6), 1: 0 if i % 5 else rng.randrange(0, 3 * T + 4), 2: 0, 3: rng.choice([0, 0, 1, 2, 3, T])}[style]
            d = hot if style == 2 and rng.random() < 0.8 else rng.randrange(n)
            beats.append((s, gap, d, rng.randrange(16), "%x" % ((k << 80) | rng.getrandbits(80)), "%x" % rng.getrandbits(40), rng.randrange(2)))
            t += gap + 1
        last = max(last, t)
    c["cycles"] = last * B // A + 2 * len(beats) + 3 * T + 40
    c["beats"] = beats
    return c


def run(c, name):
    d = os.path.join(vt.scratch(), "link_" + name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(os.path.join(d, "link.txt"), "w").write("%(n)d %(T)d %(A)d %(B)d %(S)d %(cycles)d\n" % c + "".join(" ".join(map(str, b)) + "\n" for b in c["beats"]))
    try:
        p = vt.sprun([exe()], cwd=d, capture_output=True, timeout=120, env=dict(os.environ, SC_COPYRIGHT_MESSAGE="DISABLE"))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    ev = []
    f = os.path.join(d, "link.ndjson")
    if os.path.exists(f):
        for l in open(f):
            try:
                ev.append(json.loads(l))
            except ValueError:
                pass
    shutil.rmtree(d, ignore_errors=True)
    if rc != 0:
        ev.append({"e": "crash", "p": str(rc)})
    return {"cfg": {k: c[k] for k in ("n", "T", "A", "B", "S")}, "ev": ev}


# ---- whole designs -------------------------------------------------------

def design(rng, idx):
    rads = 2 if idx % 3 else 3
    lat, bw = rng.choice([(5, 1), (10, 1), (100, 1), (20, 2), (45, 4), (5, 2)])
    n = {"payload_width": [100], "dim_x": [4], "dim_y": [4], "vc_buffer_size": [8]}
    scn, place, clks = [], {}, {}
    ports = {}
    nms = ["aa", "bb", "cc", "dd"]
    for r in range(rads):
        free = list(range(16))
        rng.shuffle(free)
        pl, ck, out = ["portal_inst 0 %d axis" % free.pop()], ["portal_inst 0 0"], []
        for m in nms[:rng.randrange(2, 5)]:
            node = free.pop()
            out.append("mod " + m)
            ck.append("%s 0 %d" % (m, 0))
            pl.append("%s 0 %d axis" % (m, node))
            for p, ms in (("in", "s"), ("out", "m"))[: 2]:
                out.append("port %s %s %s axis 96 0" % (m, p, ms))
                ports["%s.%s" % (m, p), r] = ms
        scn.append(out)
        place["vt%d.place" % r] = "\n".join(pl) + "\n"
        clks["vt%d.clks" % r] = "\n".join(ck) + "\n"
    flows, k = set(), 0
    total = 0
    for (p, r), ms in sorted(ports.items(), key=lambda x: (x[0][1], x[0][0])):
        if ms != "m":
            continue
        for _ in range(rng.randrange(3, 25)):
            q, r2 = rng.choice([x for x, v in sorted(ports.items()) if v == "s" and (rng.random() < 0.2 or x[1] != r)] or [("aa.in", 1 - r if r < 2 else 0)])
            k += 1
            total += 1
            scn[r].append("send %s/s %d 0 0 %d %s %x %x %d" % (p, rng.choice([0, 0, 1, 6]), r2, q, (k << 64) | rng.getrandbits(60), rng.getrandbits(40), rng.randrange(2)))
            flows.add(("r%d.%s/s" % (r, p), "r%d.%s/s" % (r2, q)))
    for (p, r), ms in ports.items():
        if ms == "s":
            scn[r].append("ready %s/s -1 %s" % (p, rng.choice(["1", "01", "0001", "1" * 5 + "0" * 9])))
    for r in range(rads):
        scn[r] += ["drain_ns 1500", "quiet_ns %d" % (4000 + 20 * lat), "max_ns %d" % (40000 + total * 400), "reset 4", "place vt%d.place" % r, "clks vt%d.clks" % r]
    e = noc.Env("multi%d" % idx, noc=n, adapters=W["adapters"], interfaces=W["interfaces"], clk_periods=[5.0], rads=rads, place=place, clks=clks,
                scn=["\n".join(s) + "\n" for s in scn], cluster={"inter_rad_latency": lat, "inter_rad_bw": round(96 / 5.0 / bw, 6)})
    e.meta = {"flows": sorted(flows), "beats": total}
    return e


def trace(e, rc, ev):
    evs = []
    for x in ev:
        if x["e"] in "APTN":
            y = {"e": x["e"], "p": x["p"], "m": x["m"]}
            if x["e"] == "A":
                y["d"] = x["d"] + "/s"
            evs.append(y)
    evs.append({"e": "end", "p": "", "m": "", "u": sum(x["unsent"] for x in ev if x["e"] == "done")} if rc == 0 else {"e": "crash", "p": str(rc), "m": ""})
    return {"cfg": {"flows": [list(f) for f in e.meta["flows"]], "ordered": True, "cap": 1000000, "recv": sorted({f[1] for f in e.meta["flows"]})}, "ev": evs}
