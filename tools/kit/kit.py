"""Runs small designs against the simulator in the current directory."""
import concurrent.futures as cf, hashlib, json, os, shutil, subprocess, sys, tempfile, atexit
import yaml
HERE = os.path.dirname(os.path.abspath(__file__))
RS = os.path.join(os.getcwd(), "rad-sim")
TMP = tempfile.mkdtemp(prefix="demo_")
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
NOC = dict(type=["2d"], num_nocs=1, clk_period=[1.0], payload_width=[166], topology=["mesh"], dim_x=[3], dim_y=[3],
           routing_func=["dim_order"], vcs=[5], vc_buffer_size=[8], output_buffer_size=[8], num_packet_types=[5],
           router_uarch=["iq"], vc_allocator=["islip"], sw_allocator=["islip"], credit_delay=[1], routing_delay=[1],
           vc_alloc_delay=[1], sw_alloc_delay=[1])
AD = dict(clk_period=[1.25], fifo_size=[16], obuff_size=[2], in_arbiter=["fixed_rr"], out_arbiter=["priority_rr"], vc_mapping=["direct"])
INC = ["", "noc", "noc/booksim", "noc/booksim/routers", "noc/booksim/allocators", "noc/booksim/arbiters", "noc/booksim/networks",
       "noc/booksim/power", "dram", "dram/DRAMsim3", "dram/DRAMsim3/src", "dram/DRAMsim3/ext/headers", "dram/DRAMsim3/ext/fmt/include"]


def cc(srcs, out, flags, tag):
    d = os.path.join(TMP, tag)
    os.makedirs(d, exist_ok=True)

    def one(s):
        o = os.path.join(d, hashlib.md5(s.encode()).hexdigest()[:8] + ".o")
        if not os.path.exists(o):
            c = ["gcc", "-w"] if s.endswith(".c") else ["g++", "-std=c++17", "-w"]
            subprocess.run(c + flags + ["-c", s, "-o", o], check=True)
        return o
    with cf.ThreadPoolExecutor(8) as ex:
        return list(ex.map(one, srcs))


def ls(d, e=(".cpp", ".cc", ".c")):
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(e))


def booksim(root):
    b = os.path.join(root, "sim/noc/booksim")
    s = [f for f in ls(b, (".cpp", ".c")) if os.path.basename(f) not in ("rng.c", "rng-double.c")]
    for x in ("routers", "allocators", "arbiters", "networks", "power"):
        s += ls(os.path.join(b, x))
    return s


def incs(root):
    return ["-I" + os.path.join(root, "sim", i) for i in INC]


_bs = None


class Run:
    def __init__(self, scn, place, clks, noc={}, ad={}, itf={}, periods=(5.0,), cluster={}, rads=1, name="d", files={}):
        global _bs
        self.root = os.path.join(TMP, name)
        d = os.path.join(self.root, "example-designs/vt")
        os.makedirs(d)
        y = {"config rad1": {"design": {"name": "vt", "noc_placement": ["vt.place"], "clk_periods": list(periods)}},
             "noc": dict(NOC, **noc), "noc_adapters": dict(AD, **ad),
             "cluster": dict(dict(sim_driver_period=5.0, telemetry_log_verbosity=0, telemetry_traces=[], num_rads=rads,
                                  cluster_configs=["rad1"] * rads), **cluster)}
        if itf:
            y["interfaces"] = itf
        open(os.path.join(d, "config.yml"), "w").write(yaml.safe_dump(y, sort_keys=False))
        open(os.path.join(d, "vt.place"), "w").write(place)
        open(os.path.join(d, "vt.clks"), "w").write(clks)
        for f, t in files.items():
            open(os.path.join(d, f), "w").write(t)
        for i, s in enumerate(scn if isinstance(scn, list) else [scn]):
            open(os.path.join(self.root, "scenario%d.txt" % i), "w").write(s)
        shutil.copytree(os.path.join(RS, "sim"), os.path.join(self.root, "sim"), ignore=shutil.ignore_patterns("*.o", "DRAMsim3"))
        shutil.copy(os.path.join(RS, "config.py"), self.root)
        os.makedirs(os.path.join(self.root, "shim"))
        open(os.path.join(self.root, "shim/cmake"), "w").write("#!/bin/sh\nexit 0\n")
        os.chmod(os.path.join(self.root, "shim/cmake"), 0o755)
        subprocess.run([sys.executable, "config.py", "vt"], cwd=self.root, check=True, stdout=subprocess.DEVNULL,
                       env=dict(os.environ, PATH=os.path.join(self.root, "shim") + ":" + os.environ["PATH"]))
        for r in range(1, rads):
            for k in range(y["noc"]["num_nocs"]):
                f = os.path.join(self.root, "sim/noc/noc%d_rad%d_config" % (k, r))
                if not os.path.exists(f):
                    shutil.copy(f.replace("rad%d_" % r, "rad0_"), f)
        if _bs is None:
            _bs = cc(booksim(RS), None, ["-O0"] + incs(RS), "bs")
        s = os.path.join(self.root, "sim")
        h = os.path.join(HERE, "vt")
        o = cc(ls(s) + ls(s + "/noc") + ls(h), None, ["-O0", "-I" + h] + incs(self.root) + incs(RS), "o_" + name)
        exe = os.path.join(self.root, "exe")
        subprocess.run(["g++", "-o", exe] + o + _bs + ["-lsystemc", "-lpthread"], check=True)
        try:
            p = subprocess.run([exe], cwd=self.root, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
            self.rc, self.out = p.returncode, p.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            self.rc, self.out = "timeout", ""
        self.ev = []
        p = os.path.join(self.root, "events.ndjson")
        if os.path.exists(p):
            for l in open(p):
                try:
                    self.ev.append(json.loads(l))
                except ValueError:
                    pass
        self.stats = []
        p = os.path.join(self.root, "stats.csv")
        if os.path.exists(p):
            L = [x.split(",") for x in open(p).read().splitlines()]
            self.stats = [dict(zip([h.strip() for h in L[0]], [float(v) for v in l])) for l in L[1:]]

    def accepted(self):
        """beats accepted, per (sender, receiver)"""
        o = {}
        for e in self.ev:
            if e["e"] == "A":
                o.setdefault((e["p"], e["d"] + "/" + e["p"].split("/")[1]), []).append(e["m"])
        return o

    def taken(self):
        """beats handed over, per receiver"""
        cur, o = {}, {}
        for e in self.ev:
            if e["e"] == "P":
                cur[e["p"]] = e["m"]
            elif e["e"] == "T":
                o.setdefault(e["p"], []).append(cur[e["p"]])
        return o

    def intact(self):
        """every receiver took exactly the accepted beats, per sender in order"""
        bad = []
        if self.rc != 0:
            bad.append("exit status %s" % self.rc)
        t = self.taken()
        want = {}
        for (s, d), ms in self.accepted().items():
            want.setdefault(d, []).append(ms)
        for d in set(want) | set(t):
            got = list(t.get(d, []))
            allm = sorted(m for ms in want.get(d, []) for m in ms)
            if sorted(got) != allm:
                bad.append("%s: took %d beats, %d sent to it" % (d, len(got), len(allm)))
            else:
                for ms in want.get(d, []):
                    s = set(ms)
                    if [m for m in got if m in s] != ms:
                        bad.append("%s: order" % d)
        if not any(t.values()):
            bad.append("nothing arrived")
        return bad
