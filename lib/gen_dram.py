"""Runs of the DRAM model under random devices, policies and request streams (C10, C11)."""
import os, shutil, subprocess
import vt

CONFIGS = os.path.join(vt.RS, "sim/dram/DRAMsim3/configs")
_exe = []
NUM = ("AL CL CWL tRCD tRCDRD tRCDWR tRP tRAS tRFC tRFCb tREFI tREFIb tRRD_S tRRD_L tWTR_S tWTR_L tFAW t32AW tWR tRTP tRTP_L tCCD_S tCCD_L tPPD tRTRS tXS tCKESR").split()
FIELDS = ("ch", "ra", "bg", "ba", "ro", "co")


def exe():
    if not _exe:
        o = vt.common_objs("dramsim_trace")
        h = vt.compile_objs([os.path.join(vt.VERIF, "harness/dram/dram.cpp")], os.path.join(vt.scratch(), "obj_dram"), ["-O1", "-DFMT_HEADER_ONLY=1", "-DCMD_TRACE"] + vt.incs())
        _exe.append(vt.link(h + o, os.path.join(vt.scratch(), "drambin"), ["-lpthread"]))
    return _exe[0]


def names(kinds=None):
    out = []
    for f in sorted(os.listdir(CONFIGS)):
        if f.endswith(".ini") and "HMC" not in f and (kinds is None or any(f.startswith(k) for k in kinds)):
            out.append(f)
    return out


def parse(name):
    ini, sec = {}, None
    for l in open(os.path.join(CONFIGS, name), errors="replace"):
        l = l.split(";")[0].split("#")[0].strip()
        if l.startswith("["):
            sec = l.strip("[]").strip()
            ini.setdefault(sec, {})
        elif "=" in l:
            k, v = [x.strip() for x in l.split("=", 1)]
            ini[sec][k] = v
    return ini


def write(ini, path):
    with open(path, "w") as f:
        for s in ini:
            f.write("[%s]\n" % s + "".join("%s = %s\n" % kv for kv in ini[s].items()) + "\n")


def clog2(n):
    i = 0
    while n > 1:
        n //= 2
        i += 1
    return i


def device(ini):
    """What the description says: sizes, the raw timing values (-1 where not given)
    and the position of every address field."""
    g = lambda s, k, d: int(float(ini.get(s, {}).get(k, d) or d))
    st = ini["dram_structure"]
    d = {"proto": st["protocol"], "G": g("dram_structure", "bankgroups", 2), "K": g("dram_structure", "banks_per_group", 2)}
    if st.get("bankgroup_enable", "true").lower() in ("false", "0", "no", "off"):
        d["K"] *= d["G"]
        d["G"] = 1
    d["BL"] = g("dram_structure", "BL", 8)
    rows, cols, w = g("dram_structure", "rows", 65536), g("dram_structure", "columns", 1024), g("dram_structure", "device_width", 8)
    bl = d["BL"] or (4 if d["proto"].startswith("HBM") and not d["proto"].startswith("GDDR") else 8)
    if d["proto"].startswith("GDDR"):
        cols *= bl
    elif d["proto"].startswith("HBM"):
        cols *= 2
    bus = g("system", "bus_width", 64)
    megs = cols * w // 8 * (rows // 1024) // 1024 * d["G"] * d["K"] * (bus // w)
    size = g("system", "channel_size", 1024)
    d["R"] = 1 if megs > size else size // megs
    for k in NUM:
        d[k] = g("timing", k, -1)
    d["dual"] = d["proto"].startswith("HBM") and st.get("hbm_dual_cmd", "true").lower() in ("true", "1", "yes", "on")
    d["refpol"] = ini["system"].get("refresh_policy", "RANK_LEVEL_STAGGERED")
    m = {"ch": g("system", "channels", 1), "ra": d["R"], "bg": d["G"], "ba": d["K"], "ro": rows, "co": cols // bl}
    order = ini["system"]["address_mapping"]
    pos = clog2(bus // 8 * bl)
    a = {}
    for i in range(10, -1, -2):
        f = order[i:i + 2]
        a[f] = (pos, clog2(m[f]))
        pos += clog2(m[f])
    d2 = {"fields": a, "bits": pos, "counts": m, "shift": clog2(bus // 8 * bl), "megs": megs}
    return d, d2


def decode(x, addr):
    return {f: (addr >> p) & ((1 << w) - 1) for f, (p, w) in x["fields"].items()}


def encode(x, c):
    a = 0
    for f, (p, w) in x["fields"].items():
        a |= (c.get(f, 0) & ((1 << w) - 1)) << p
    return a


BOOST = ["tRTP tRTP_L", "tWR", "tWTR_S tWTR_L", "tWTR_L", "tCCD_S tCCD_L", "tCCD_L", "tRTRS", "tRRD_S tRRD_L", "tRRD_L", "tFAW", "tRP", "tRAS", "tRCD tRCDRD tRCDWR", "tRCDWR", "tRCDRD",
         "t32AW", "tPPD", "tXS", "tCKESR"]
STYLES = ("hot", "random", "stream", "conflict", "writes", "mixed", "ranks", "sparse")


def case(rng, idx, n, kinds=None, refresh=None, boost=False):
    """a description derived from a supplied one, and a request stream"""
    pool = names(kinds)
    name = pool[rng.randrange(len(pool))] if kinds is None or idx % 2 else pool[idx // 2 % len(pool)]
    ini = parse(name)
    s, t = ini["system"], ini["timing"]
    d, x = device(ini)
    s["row_buf_policy"] = rng.choice(["OPEN_PAGE", "OPEN_PAGE", "CLOSE_PAGE"])
    s["queue_structure"] = rng.choice(["PER_BANK", "PER_BANK", "PER_RANK"])
    s["unified_queue"] = rng.choice(["False", "False", "True"])
    s["cmd_queue_size"] = rng.choice([2, 4, 8, 8, 16])
    s["trans_queue_size"] = rng.choice([4, 16, 32, 32])
    ranks = rng.choice([1, 1, 2, 4])
    s["channel_size"] = ranks * x["megs"]
    if int(s.get("channels", 1)) > 2:
        s["channels"] = rng.choice([1, 2])
    pol = refresh or rng.choice(["RANK_LEVEL_STAGGERED", "RANK_LEVEL_STAGGERED", "RANK_LEVEL_SIMULTANEOUS", "BANK_LEVEL_STAGGERED"])
    s["refresh_policy"] = pol
    s["address_mapping"] = rng.choice([s["address_mapping"], "rochrababgco", "rorabgbachco", "rocorabgbach", "chrobabgraco", "rorabachbgco"])
    if boost and rng.random() < 0.7:
        # make one or the other minimum dominate, and refreshes short and frequent
        for k in rng.sample(BOOST, rng.randrange(1, 4)):
            f = rng.choice([2, 3, 4])
            for y in k.split():
                # a description with only the value for one bank group runs at
                # the simulator's own default for the other: leave those alone
                if d[y] > 0 and not (y.endswith("_L") and d.get(y[:-1] + "S", 0) < 0):
                    t[y] = d[y] * f
        if d["tRFC"] > 40:
            t["tRFC"] = rng.choice([20, 40])
        if d["tRFCb"] > 40:
            t["tRFCb"] = rng.choice([15, 30])
        d, x = device(ini)
    banks = d["G"] * d["K"]
    rfc = d["tRFC"] if d["tRFC"] >= 0 else 74
    rc = d["tRAS"] + d["tRP"]
    if pol == "BANK_LEVEL_STAGGERED":
        if d["tRFCb"] < 0 and rng.random() < 0.7:
            t["tRFCb"] = rng.choice([20, 40, 90])
        rfcb = int(t.get("tRFCb") or 20)
        t["tREFIb"] = (rc + rfcb + 20 + rng.randrange(30)) * 3 * ranks
        t["tREFI"] = t["tREFIb"] * banks
    else:
        t["tREFI"] = (3 * (rc + rfc) + 60 + rng.randrange(200)) * ranks + rng.randrange(3)
    sref = rng.random() < 0.15
    if sref:
        s["enable_self_refresh"] = "True"
        s["sref_threshold"] = rng.choice([20, 60, 300])
    ini.setdefault("other", {})["epoch_period"] = 1000000000
    ini["other"]["output_level"] = 0
    d, x = device(ini)
    style = STYLES[idx % len(STYLES)]
    reqs = []
    few = [encode(x, {f: rng.getrandbits(w) for f, (p, w) in x["fields"].items()}) for _ in range(rng.randrange(2, 7))]
    base = {f: rng.getrandbits(w) for f, (p, w) in x["fields"].items()}
    rate = rng.choice([0, 0, 1, 4, 15])
    pw = rng.choice([0, 0.2, 0.5, 0.8])
    for i in range(n):
        c = {f: rng.getrandbits(w) for f, (p, w) in x["fields"].items()}
        gap = rng.randrange(2 * rate + 1)
        w = int(rng.random() < pw)
        if style == "hot":
            a = rng.choice(few)
            w = int(rng.random() < 0.4)
        elif style == "stream":
            c = dict(base, co=i, ch=base["ch"])
            a = encode(x, c)
            gap = 0
        elif style == "conflict":
            c = dict(base, ro=rng.randrange(3) + base["ro"], co=c["co"])
            a = encode(x, c)
        elif style == "writes":
            w = int(rng.random() < 0.9)
            c["ro"] &= 1
            a = encode(x, c)
            gap = 0
        elif style == "ranks":
            c = dict(base, ra=c["ra"], bg=c["bg"], ro=c["ro"] & 1, co=c["co"])
            a = encode(x, c)
            gap = 0 if rate < 4 else gap
        elif style == "sparse":
            a = encode(x, c)
            gap = rng.choice([0, 0, 3, 40, 200, 900])
        elif style == "mixed":
            c["ro"] &= 3
            c["ba"] &= 1
            a = encode(x, c)
        else:
            a = encode(x, c)
        reqs.append((gap, a, w))
    cyc = sum(r[0] for r in reqs) + n * (2 * rc + 40) + 3 * int(t["tREFI"]) + 2000
    return {"name": name, "style": style, "ini": ini, "d": d, "x": x, "reqs": reqs, "cycles": cyc, "sref": sref}


CMD = {"read": "RD", "read_p": "RDA", "write": "WR", "write_p": "WRA", "activate": "ACT", "precharge": "PRE", "refresh_bank": "REFB", "refresh": "REF",
       "self_refresh_enter": "SRE", "self_refresh_exit": "SRX"}


def run(c, tag):
    """(per-channel command lists, requests/completions, end record)"""
    dr = os.path.join(vt.scratch(), "dram_" + tag)
    shutil.rmtree(dr, ignore_errors=True)
    os.makedirs(dr)
    write(c["ini"], os.path.join(dr, "dev.ini"))
    open(os.path.join(dr, "dram.txt"), "w").write("dev.ini %d\n" % c["cycles"] + "".join("%d %x %d\n" % r for r in c["reqs"]))
    try:
        rc = vt.sprun([exe()], cwd=dr, capture_output=True, timeout=120).returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    qd, end, info = [], None, None
    p = os.path.join(dr, "dram.log")
    for l in (open(p) if os.path.exists(p) else []):
        k = l.split()
        if k[0] == "E" and len(k) == 3:
            end = (int(k[1]), int(k[2]))
        elif k[0] == "I":
            info = [int(y) for y in k[1:]]
        elif len(k) == 4 and k[0] in "QD":
            qd.append((int(k[1]), k[0], int(k[2], 16), int(k[3])))
    cmds = {}
    for f in sorted(os.listdir(dr)):
        if f.endswith("cmd.trace"):
            ch = int(f.rsplit("ch_", 1)[1].split("cmd")[0])
            cmds[ch] = []
            for l in open(os.path.join(dr, f)):
                k = l.split()
                if len(k) == 8:
                    r = [int(y) for y in k[2:6]]
                    row, col = [int(y, 16) & 0xffffffff for y in k[6:8]]
                    cmds[ch].append((int(k[0]), CMD.get(k[1], "?"), r[1], r[2], r[3], row, col))
    shutil.rmtree(dr, ignore_errors=True)
    return rc, cmds, qd, end, info


def timing_trace(c, res, ch, limit):
    rc, cmds, qd, end, info = res
    ev = [{"e": "C", "t": t, "c": k, "r": r, "g": g, "k": b, "row": row if row < 1 << 31 else -1} for t, k, r, g, b, row, col in cmds.get(ch, [])[:limit]]
    if rc != 0:
        ev.append({"e": "crash", "t": 0, "c": str(rc), "r": 0, "g": 0, "k": 0, "row": 0})
    ev.append({"e": "end", "t": 0, "c": "", "r": 0, "g": 0, "k": 0, "row": 0})
    return {"cfg": c["d"], "ev": ev}


def queue_trace(c, res, ch):
    """requests, completions and commands of one channel, with word addresses numbered"""
    rc, cmds, qd, end, info = res
    d, x = c["d"], c["x"]
    ids, ev = {}, []

    def key(f):
        return ids.setdefault(tuple(f[n] for n in FIELDS), len(ids) + 1)
    for t, e, a, w in qd:
        f = decode(x, a)
        if f["ch"] == ch:
            ev.append((t, 0 if e == "Q" else 1, len(ev), {"e": e, "t": t, "a": key(f), "w": w, "u": 0}))
    G, K = d["G"], d["K"]
    for t, k, r, g, b, row, col in cmds.get(ch, []):
        o = None
        if k in ("RD", "RDA", "WR", "WRA"):
            o = {"e": k[:2], "t": t, "a": key({"ch": ch, "ra": r, "bg": g, "ba": b, "ro": row, "co": col}), "w": 0, "u": 0}
        elif k == "REF":
            o = {"e": "REF", "t": t, "a": 0, "w": 0, "u": r + 1}
        elif k == "REFB":
            o = {"e": "REF", "t": t, "a": 0, "w": 0, "u": r * G * K + g * K + b + 1}
        if o:
            ev.append((t, 2, len(ev), o))
    ev = [y[3] for y in sorted(ev, key=lambda y: y[:3])]
    if rc != 0:
        ev.append({"e": "crash", "t": 0, "a": 0, "w": 0, "u": 0})
    ev.append({"e": "end", "t": end[0] if end else 0, "a": 0, "w": 0, "u": end[1] if end else 1})
    bank = d["refpol"] == "BANK_LEVEL_STAGGERED"
    s = c["ini"]["system"]
    nq = d["R"] * (G * K if s["queue_structure"] == "PER_BANK" else 1)
    lat = max(d["AL"], 0) + max(d["CL"], 0) + burst(d)
    return {"cfg": {"units": d["R"] * (G * K if bank else 1), "per": d["tREFIb"] * G * K if bank else d["tREFI"], "sref": c["sref"], "lat": lat,
                    "cap": int(s["trans_queue_size"]) + nq * int(s["cmd_queue_size"])}, "ev": ev}


def burst(d):
    return d["BL"] // {"GDDR5": 4, "GDDR5X": 8, "GDDR6": 16}.get(d["proto"], 2)
