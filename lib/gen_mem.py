"""Runs of the memory controller by itself (C09, C12)."""
import math, os, shutil, subprocess
import noc, vt
import gen_dram as gd

_exe = []


def exe():
    if not _exe:
        e = noc.Env("memcfg", clk_periods=[2.0], scn=[], noc={"payload_width": [600]}).configure()
        noc.build([e])
        d = os.path.join(vt.scratch(), "obj_" + e.key)
        objs = [os.path.join(d, f) for f in sorted(os.listdir(d)) if not f.endswith("_main.cpp.o")]
        s = os.path.join(vt.scratch(), "src_" + e.key, "sim")
        flags = ["-O0", "-DFMT_HEADER_ONLY=1"] + vt.pch() + ["-I" + s, "-I" + os.path.join(s, "noc"), "-I" + os.path.join(vt.VERIF, "harness/vt")] + \
            ["-I" + os.path.join(vt.RS, "sim", x) for x in vt.INC_NOC[1:] + vt.INC_DRAM]
        lo = vt.compile_objs([os.path.join(vt.VERIF, "harness/mem/mem.cpp"), os.path.join(s, "dram/mem_controller.cpp")], os.path.join(vt.scratch(), "obj_mem"), flags)
        _exe.append(vt.link(objs + lo + vt.common_objs("booksim") + vt.common_objs("dramsim"), os.path.join(vt.scratch(), "membin"), ["-lsystemc", "-lpthread"]))
    return _exe[0]


def period(ini):
    """the controller clock that fits the device: one word per cycle"""
    d, x = gd.device(ini)
    bl = d["BL"] or (4 if d["proto"].startswith("HBM") else 8)
    return float(ini["timing"]["tCK"]) * bl / 2.0


def run(c, tag, timeout=120):
    """(exit status, log records)"""
    dr = os.path.join(vt.scratch(), "mem_" + tag)
    shutil.rmtree(dr, ignore_errors=True)
    cd = os.path.join(dr, "root/sim/dram/DRAMsim3/configs")
    os.makedirs(cd)
    os.makedirs(os.path.join(dr, "root/logs"))
    gd.write(c["ini"], os.path.join(cd, "dev.ini"))
    init = "-"
    files = c.get("init") or {}
    for ch, words in [(k, files.get(k, [])) for k in range(c["x"]["counts"]["ch"])] if files else []:
        init = os.path.join(dr, "init_%d" % c["init_base"])
        with open(os.path.join(dr, "init_%d.dat" % (c["init_base"] + int(ch))), "w") as f:
            f.write("".join("%d %s\n" % (a, format(v, "b").zfill(512)) for a, v in words))
    with open(os.path.join(dr, "mem.txt"), "w") as f:
        f.write("%s dev %d %r %s %d\n" % (os.path.join(dr, "root"), c["queue"], period(c["ini"]), init, c["cycles"]) + "".join(l + "\n" for l in c["lines"]))
    try:
        p = vt.sprun([exe()], cwd=dr, capture_output=True, timeout=timeout, env=dict(os.environ, SC_COPYRIGHT_MESSAGE="DISABLE"))
        rc = p.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    log = []
    p = os.path.join(dr, "mem.log")
    for l in (open(p) if os.path.exists(p) else []):
        k = l.split()
        if len(k) > 2:
            log.append([int(k[0])] + k[1:])
    shutil.rmtree(dr, ignore_errors=True)
    return rc, log


STYLES = ("raw", "hot", "bursts", "stall", "pingpong", "reads", "writes", "mixed", "long")


def case(rng, idx, n):
    while True:
        name = rng.choice(gd.names(["DDR3", "DDR4", "HBM", "GDDR5_", "GDDR6", "LPDDR3"]))
        ini = gd.parse(name)
        d, x = gd.device(ini)
        if (1 << x["shift"]) <= 128 and float(ini["timing"].get("tCK", 0) or 0) > 0 and (d["BL"] or 4) > 1:
            break
    s = ini["system"]
    if int(s.get("channels", 1)) > 2:
        s["channels"] = rng.choice([1, 2])
    s["channel_size"] = rng.choice([1, 1, 2]) * x["megs"]
    s["row_buf_policy"] = rng.choice(["OPEN_PAGE", "CLOSE_PAGE"])
    s["queue_structure"] = rng.choice(["PER_BANK", "PER_RANK"])
    s["unified_queue"] = rng.choice(["False", "True"])
    s["trans_queue_size"] = rng.choice([2, 4, 16, 32])
    s["cmd_queue_size"] = rng.choice([2, 8])
    ini.setdefault("other", {})["epoch_period"] = 1000000000
    ini["other"]["output_level"] = 0
    d, x = gd.device(ini)
    W = 1 << x["shift"]
    style = STYLES[idx % len(STYLES)]
    nch = x["counts"]["ch"]
    words = 1
    for f in gd.FIELDS[1:]:
        words *= x["counts"][f]
    lines, init, val, user = [], {}, 1, 1
    slots = rng.choice([3, 6, 12])
    total = 0
    for ch in range(nch):
        base = [rng.randrange(words) for _ in range(slots)]
        pool = [(b + k) % words for b in base for k in range(3)]
        maxlen = {"raw": 2, "hot": 1, "bursts": 16, "stall": 4, "pingpong": 1, "reads": 8, "writes": 8, "mixed": 5, "long": 256}[style]
        pw = {"reads": 0.15, "writes": 0.85}.get(style, 0.5)
        g = rng.choice([0, 0, 1, 5])
        nb = 0
        big = rng.random() < 0.3
        if rng.random() < 0.6:
            init[ch] = [(a * W, rng.getrandbits(48) | 1) for a in sorted(set(rng.sample(pool, min(len(pool), 8))))]
        for i in range(n):
            a = rng.choice(pool)
            ln = rng.choice([129, 200, 255, 256, rng.randrange(1, 257)]) if style == "long" else rng.randrange(1, maxlen + 1)
            k = min(rng.choice([1, 2, 3]), 7 - x["shift"]) if big and rng.random() < 0.5 else 0  # beats of several words
            ln = max(1, min(ln, words - a) >> k)
            if ln << k > words - a:
                k = 0
            ln, lt = ln << k, ln + 1000 * k  # words, and what is asked for
            gap = rng.randrange(2 * g + 1)
            total += ln + gap
            u = "%x" % (user * 17 + ch)
            user += 1
            if rng.random() < pw:
                lines.append("o %d aw %d 0 %x %d %s 0 0" % (ch, gap, a * W, lt, u))
                for b in range(ln):
                    lines.append("o %d w %d 0 0 0 %s %d %x" % (ch, rng.randrange(g + 1), u, b == ln - 1, val * 4096 + rng.getrandbits(12)))
                    val += 1
                nb += 1
                if style in ("raw", "pingpong") and rng.random() < 0.8:
                    # read it back as soon as its write is acknowledged
                    lines.append("o %d ar 0 %d %x %d %x 0 0" % (ch, nb, a * W, lt, user * 17 + ch))
                    user += 1
            else:
                lines.append("o %d ar %d %d %x %d %s 0 0" % (ch, gap, nb if style == "raw" and rng.random() < 0.3 else 0, a * W, lt, u))
        for k in ("b", "r"):
            if style == "stall" or rng.random() < 0.3:
                lines.append("p %d %s %s" % (ch, k, rng.choice(["0" * 200 + "1" * 60, "0" * 30 + "1", "01", "0" * 700 + "1" * 300, "0011", "1" * 9 + "0"])))
    return {"name": name, "style": style, "ini": ini, "d": d, "x": x, "queue": rng.choice([17, 18, 20, 24, 64, 64, 128]), "lines": lines, "init": init, "init_base": rng.choice([0, 0, 3, 10]),
            "cycles": 3000 + total * 130, "n": n}


def trace(c, res, ch):
    """the events of one channel; addresses are numbered, word after word of a burst"""
    rc, log = res
    W = 1 << c["x"]["shift"]
    ids, vals = {}, {"0": 0}

    def ad(a):
        return ids.setdefault(a, len(ids) + 1)

    def vl(v):
        return vals.setdefault(v, len(vals))
    ev = []
    order = {"AW": 0, "W": 1, "AR": 2, "B": 3, "R": 4}
    log2 = sorted([(k[0], order[k[1]], i, k) for i, k in enumerate(log) if k[1] in order and int(k[2]) == ch], key=lambda y: y[:3])
    for t, o, i, k in log2:
        e = {"e": k[1], "a": [], "v": 0, "u": "", "l": 0}
        if k[1] in ("AW", "AR"):
            b = int(k[3], 16) // W
            e["a"] = [ad(b + j) for j in range(int(k[4]) % 1000 << int(k[4]) // 1000)]
            e["u"] = k[5]
        elif k[1] in ("W", "R"):
            e.update(v=vl(k[3]), u=k[4], l=int(k[5]))
        else:
            e["u"] = k[3]
        ev.append(e)
    end = [k for k in log if k[1] == "E"]
    if rc != 0:
        ev.append({"e": "crash", "a": [], "v": 0, "u": str(rc), "l": 0})
    ev.append({"e": "end", "a": [], "v": 0, "u": "", "l": int(end[0][2]) if end else 1})
    init = [0] * len(ids)
    for a, v in (c.get("init") or {}).get(ch, []):
        if a // W in ids:
            init[ids[a // W] - 1] = vl("%x" % v)
    return {"cfg": {"init": init}, "ev": ev}


# ---- where words are kept (C12)
def map_case(rng, name, small):
    """a device with questions; small: few enough words to ask for all of them"""
    while True:
        ini = gd.parse(name)
        s, st = ini["system"], ini["dram_structure"]
        if small:
            s["channels"] = rng.choice([1, 1, 2, 4])
            st["rows"] = 1024
            bus = int(s.get("bus_width", 64))
            st["device_width"] = rng.choice([bus, bus, bus // 2])
            st["columns"] = rng.choice([64, 128, 256, 1024])
            st["bankgroups"] = rng.choice([1, 2, 4])
            st["banks_per_group"] = rng.choice([2, 4, 8])
        else:
            s["channels"] = rng.choice([int(s.get("channels", 1)), 1, 2, 8])
        try:
            d, x = gd.device(ini)
        except ZeroDivisionError:  # less than a megabyte in a bank
            continue
        s["channel_size"] = x["megs"] * rng.choice([1, 2, 4])
        if small or rng.random() < 0.5:
            f = ["ch", "ra", "bg", "ba", "ro", "co"]
            rng.shuffle(f)
            s["address_mapping"] = "".join(f)
        ini.setdefault("other", {})["epoch_period"] = 1000000000
        ini["other"]["output_level"] = 0
        d, x = gd.device(ini)
        words = 1
        for k in gd.FIELDS[1:]:
            words *= x["counts"][k]
        if small and words > 1 << 19 or words >= 1 << 31:
            continue
        return {"name": name, "ini": ini, "d": d, "x": x, "queue": 64, "cycles": 0, "words": words, "lines": []}


def ask(c, ch, words):
    W = 1 << c["x"]["shift"]
    return ["a %d %x" % (ch, w * W) for w in words]


def kernel(words, rows):
    """a non-zero word address whose location would be that of word 0 if the translation is linear, or None
    rows: {bit: flattened location}"""
    red = []
    for b, v in sorted(rows.items()):
        comb = 1 << b
        for p, pv, pc in red:
            if v >> p & 1:
                v ^= pv
                comb ^= pc
        if v == 0:
            return comb
        red.append((v.bit_length() - 1, v, comb))
    return None


def map_trace(c, res):
    rc, log = res
    W = 1 << c["x"]["shift"]
    ev, last, dims = [], None, [c["x"]["counts"][f] for f in ("ra", "bg", "ba", "ro", "co")]
    for k in log:
        if k[1] == "I" and int(k[3]) != W:
            ev.append({"e": "word size", "w": 0, "ch": 0, "chan": 0, "dch": 0, "loc": [int(k[3]), W]})
        elif k[1] == "M":
            ch = int(k[2])
            if last is not None and ch != last:
                ev.append({"e": "channel", "w": 0, "ch": ch, "chan": 0, "dch": 0, "loc": []})
            last = ch
            ev.append({"e": "map", "ch": ch, "w": min(int(k[3], 16) // W, 2 ** 31 - 1), "chan": int(k[5]), "dch": int(k[6]), "loc": [int(v) for v in k[7:12]]})
        elif k[1] == "X":
            ev.append({"e": "all", "ch": int(k[2]), "w": int(k[3]), "chan": 0, "dch": 0, "loc": [int(k[4]), int(k[5]), int(k[6])]})
    if rc != 0 or not log:
        ev.append({"e": "crash", "w": 0, "ch": 0, "chan": 0, "dch": 0, "loc": []})
    return {"cfg": {"dims": dims}, "ev": ev}
