"""Clusters of several devices, each run several times under different settings (C17)."""
import hashlib, json, os, re, shutil, subprocess
import gen_link, noc, vt

CLASSES = [["vt"], ["vt", "vt"], ["vt", "vu", "vt"], ["vu", "vt"], ["vu", "vt", "vt", "vu"]]
SETTINGS = [dict(telemetry_log_verbosity=0, telemetry_traces=["x", "y z"]), dict(telemetry_log_verbosity=0, telemetry_traces=["x", "y z"]),
            dict(telemetry_log_verbosity=4, telemetry_traces=["only"]), dict(telemetry_log_verbosity=2, telemetry_traces=[]),
            dict(telemetry_log_verbosity=1, telemetry_traces=["t%d" % i for i in range(9)])]


def case(rng, idx, kinds):
    want = kinds[idx % len(kinds)]
    n = len(want)
    lat, bw = rng.choice([(5, 1), (20, 2), (50, 1)])
    per = rng.choice([5.0, 5.0, 2.0, 8.0, 4.0, 1.0])
    scn, place, clks, ports = [], {}, {}, []
    for r in range(n):
        free = list(range(16))
        rng.shuffle(free)
        pl, ck, out = [], [], []
        if n > 1:
            pl, ck = ["portal_inst 0 %d axis" % free.pop()], ["portal_inst 0 0"]
        for m in ["aa", "bb", "cc"][:rng.randrange(2, 4)]:
            out.append("mod " + m)
            ck.append("%s 0 0" % m)
            pl.append("%s 0 %d axis" % (m, free.pop()))
            for p, ms in (("in", "s"), ("out", "m")):
                out.append("port %s %s %s axis 96 0" % (m, p, ms))
                ports.append((m + "." + p, r, ms))
        scn.append(out)
        place["vt%d.place" % r] = "\n".join(pl) + "\n"
        clks["vt%d.clks" % r] = "\n".join(ck) + "\n"
    k = 0
    for p, r, ms in ports:
        if ms == "s":
            scn[r].append("ready %s/s -1 %s" % (p, rng.choice(["1", "01", "0001"])))
            continue
        for _ in range(rng.randrange(0, 14)):
            q, r2, _m = rng.choice([x for x in ports if x[2] == "s" and (x[1] == r or per == 5.0)])
            k += 1
            scn[r].append("send %s/s %d 0 0 %d %s %x %x %d" % (p, rng.choice([0, 0, 1, 6]), r2, q, (k << 64) | rng.getrandbits(60), rng.getrandbits(40), rng.randrange(2)))
    same = rng.random() < 0.25
    dn = [rng.randrange(60, 1500) for _ in range(n)]
    if same:
        dn = [dn[0]] * n
    fails = rng.choice(["none", "none", "one", "last", "early", "after", "some"])
    who = rng.randrange(n)
    if fails == "last":
        who = max(range(n), key=lambda r: dn[r])
    if fails == "after":
        who = min(range(n), key=lambda r: dn[r])
    for r in range(n):
        s = scn[r]
        s += ["drain_ns 99999", "quiet_ns 99999", "max_ns 99999", "done_always 1", "done_ns %d" % dn[r], "reset %d" % rng.choice([1, 4]), "place vt%d.place" % r, "clks vt%d.clks" % r, "watch 1", "talk %d" % 3]
        if fails in ("one", "last") and r == who or fails == "some" and rng.random() < 0.5:
            s.append("fail 1")
        if fails == "early" and r == who:
            s.append("fail_ns %d %d" % (dn[r] // 3, dn[r] // 2))
        if fails == "after" and r == who and max(dn) > dn[r] + 100:
            s.append("fail_ns %d" % (dn[r] + 60))
    envs = []
    # a device's configuration; devices that share one share its design
    rc = []
    names = {}
    for r, d in enumerate(want):
        names.setdefault(d, "c%s%d" % (d, r))
        rc.append((names[d], [5.0]))
    for j, st in enumerate(SETTINGS):
        cl = dict(st, sim_driver_period=per)
        if n > 1:
            cl.update(inter_rad_latency=float(lat), inter_rad_bw=round(96 / per / bw, 6))
        e = noc.Env("clu%d_%d" % (idx, j), noc={"payload_width": [100], "dim_x": [4], "dim_y": [4], "vc_buffer_size": [8]}, adapters=gen_link.W["adapters"], interfaces=gen_link.W["interfaces"],
                    clk_periods=[5.0], rads=n, place=place, clks=clks, scn=["\n".join(s) + "\n" for s in scn], cluster=cl, rad_configs=rc, designs={names[d]: d for d in names})
        e.settings = st
        envs.append(e)
    c = {"want": want, "period": int(per * 1000), "envs": envs, "dn": dn, "fails": fails}
    return c


def digest(x):
    return hashlib.md5(x.encode()).hexdigest()[:12]


FILES = ["stats.csv", "flits.csv", "flows_noc0.xml", "agg.txt"]


def run_one(e, j):
    """events of one run"""
    for f in ("events.ndjson", "sim.trace") + tuple(FILES):
        p = os.path.join(e.root, f)
        if os.path.exists(p):
            os.unlink(p)
    env = dict(os.environ, SC_COPYRIGHT_MESSAGE="DISABLE")
    if j == 1:
        env.update(MALLOC_PERTURB_="171", VT_PAD="x" * 3000)
    if j == 3:
        env.update(MALLOC_PERTURB_="85")
    try:
        p = vt.sprun([noc._bins[e.key]], cwd=e.root, capture_output=True, timeout=100, env=env, errors="replace", text=True)
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, out = -99, ""
    e.out, e.rc = out[-1500:], rc
    ev = [_ev("run", t=j)]
    cyc, cur = None, []
    f = os.path.join(e.root, "events.ndjson")
    seen = []
    for line in open(f) if os.path.exists(f) else []:
        try:
            x = json.loads(line)
        except ValueError:
            continue
        x.pop("tr", None)  # what the observing module itself recorded
        if x["e"] == "design":
            ev = [q for q in ev if not (q["e"] == "design" and q["r"] == int(x["p"][1:]) + 1)]
        if x["e"] in ("design", "done", "fail", "end"):
            ev.append(_ev(x["e"], r=int(x.get("p", "r-1")[1:]) + 1, d=x.get("d", ""), t=x["t"]))
        t = x.get("t", 0)
        if t != cyc and cur:
            seen.append(_ev("see", t=cyc, d=digest("".join(cur))))
            cur = []
        cyc = t
        cur.append(json.dumps(x))
    if cur:
        seen.append(_ev("see", t=cyc, d=digest("".join(cur))))
    m = re.search(r"Simulation Cycles from main.cpp = (-?\d+)", out)
    ev.append(_ev("exit", r=rc, t=int(m.group(1)) if m else -1))
    for i, n in enumerate(FILES):
        p = os.path.join(e.root, n)
        seen.append(_ev("see", t=-i, d=digest(open(p, errors="replace").read()) if os.path.exists(p) else "none"))
    return ev + seen


def _ev(e, r=0, d="", t=0):
    return {"e": e, "r": r, "d": d, "t": t}


def trace(c):
    ev = []
    for j, e in enumerate(c["envs"]):
        ev += run_one(e, j)
    ev.append(_ev("over"))
    return {"cfg": {"n": len(c["want"]), "want": c["want"], "period": c["period"]}, "ev": ev}
