"""The example accelerators, built from their sources with test benches of our own."""
import hashlib, json, os, shutil, subprocess
import noc, vt
from vt import RS, Broken

H = os.path.join(vt.VERIF, "harness/accel")


class Env(noc.Env):
    """One run of an example design; interface as in noc.Env."""
    log = "accel"

    def __init__(self, name, design, nocp=None, adapters=None, interfaces=None, clk_periods=(5.0,), rads=1, place="", clks="", stim=(), dram=None, cluster=None):
        self.name, self.design = name, design
        self.noc = dict(noc.DEF_NOC, **(nocp or {}))
        self.ad = dict(noc.DEF_AD, **(adapters or {}))
        self.rads = rads
        self.root = os.path.join(vt.scratch(), "acc_" + name)
        shutil.rmtree(self.root, ignore_errors=True)
        d = self.dir = os.path.join(self.root, "example-designs", design)
        os.makedirs(d)
        self.yaml = y = {"config rad1": {"design": {"name": design, "noc_placement": [design + ".place"], "clk_periods": list(clk_periods)}},
                         "noc": self.noc, "noc_adapters": self.ad}
        if dram:
            y["config rad1"]["dram"] = dram
        if interfaces:
            y["interfaces"] = interfaces
        y["cluster"] = dict(sim_driver_period=5.0, telemetry_log_verbosity=0, telemetry_traces=[], num_rads=rads, cluster_configs=["rad1"] * rads, **(cluster or {}))
        open(os.path.join(d, "config.yml"), "w").write(vt.yaml_dump(y))
        open(os.path.join(d, design + ".place"), "w").write(place)
        open(os.path.join(d, design + ".clks"), "w").write(clks)
        if dram:
            c = os.path.join(self.root, "sim/dram/DRAMsim3")
            os.makedirs(c)
            os.makedirs(os.path.join(self.root, "logs"))
            shutil.copytree(os.path.join(RS, "sim/dram/DRAMsim3/configs"), os.path.join(c, "configs"))
        self.stim = list(stim)
        for r, s in enumerate(self.stim):
            open(os.path.join(self.root, self.log + "%d.txt" % r), "w").write(s)
        self.designs = [design]
        self.scn = self.stim

    def configure(self):
        noc.Env.configure(self)
        self.key = hashlib.md5((self.design + self.key).encode()).hexdigest()[:12]
        return self

    def sources(self, d):
        """puts the design in d; the sources to compile"""
        design_sources(self.design, d)
        return vt.lsrc(d) + vt.lsrc(os.path.join(d, "modules"))


def design_sources(design, dst):
    """the design without its own driver, and ours in its place"""
    src = os.path.join(RS, "example-designs", design)
    shutil.copytree(src, dst, ignore=lambda d, fs: [f for f in fs if f.endswith(("_driver.cpp", "_driver.hpp")) or f in ("compiler", "test", "scripts")])
    cls = ("mlp" if design.startswith("mlp") else design) + "_driver"
    if design.startswith("dlrm"):
        shutil.copy(os.path.join(H, "dlrm_driver.hpp"), dst)
    elif cls == "mlp_driver":
        shutil.copy(os.path.join(H, "mlp_driver.hpp"), dst)
        shutil.copy(os.path.join(H, "mlp_driver.cpp"), dst)
    else:
        t = open(os.path.join(H, "scalar_driver.hpp.in")).read().replace("@D@", cls)
        open(os.path.join(dst, cls + ".hpp"), "w").write(t)


_bins = {}


def build(envs):
    bs = vt.common_objs("booksim")
    if any(e.design.startswith("dlrm") for e in envs):
        bs = bs + vt.common_objs("dramsim")
    keys = {}
    for e in envs:
        keys.setdefault(e.key, e)
    work = []
    for k in [k for k in keys if k not in _bins]:
        e = keys[k]
        root = os.path.join(vt.scratch(), "accsrc_" + k)
        shutil.copytree(os.path.join(RS, "sim"), os.path.join(root, "sim"), ignore=shutil.ignore_patterns("DRAMsim3", "booksim", "*.o"))
        open(os.path.join(root, "sim/radsim_defines.hpp"), "w").write(e.hdr)
        open(os.path.join(root, "sim/main.cpp"), "w").write(e.main)
        d = os.path.join(root, "design")
        own = e.sources(d)
        s = os.path.join(root, "sim")
        mem = e.design.startswith("dlrm")
        srcs = vt.lsrc(s) + vt.lsrc(os.path.join(s, "noc")) + own + (vt.lsrc(os.path.join(s, "dram")) if mem else [])
        flags = ["-O0"] + vt.pch() + ["-I" + s, "-I" + os.path.join(s, "noc"), "-I" + d, "-I" + os.path.join(d, "modules")] + \
                ["-I" + os.path.join(RS, "sim", x) for x in vt.INC_NOC[1:]]
        if mem:
            flags += ["-DFMT_HEADER_ONLY=1", "-I" + os.path.join(s, "dram")] + ["-I" + os.path.join(RS, "sim", x) for x in vt.INC_DRAM]
        work += [(k, f, flags) for f in srcs]
    objs = {}
    for k, o in vt.pmap(lambda x: (x[0], vt.compile_objs([x[1]], os.path.join(vt.scratch(), "accobj_" + x[0]), x[2], jobs=1)[0]), work):
        objs.setdefault(k, []).append(o)

    def lk(k):
        _bins[k] = vt.link(objs[k] + bs, os.path.join(vt.scratch(), "acc_bin_" + k), ["-lsystemc", "-lpthread"])

    vt.pmap(lk, objs)


def run(e, timeout=120):
    """exit status and the records of each device"""
    for r in range(e.rads):
        p = os.path.join(e.root, e.log + "%d.ndjson" % r)
        if os.path.exists(p):
            os.unlink(p)
    try:
        p = vt.sprun([_bins[e.key]], cwd=e.root, capture_output=True, timeout=timeout, env=dict(os.environ, SC_COPYRIGHT_MESSAGE="DISABLE"))
        rc, out = p.returncode, p.stdout.decode(errors="replace") + p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired:
        rc, out = "timeout", ""
    e.rc, e.all, e.out = rc, out, out[-1500:]
    evs = []
    for r in range(e.rads):
        ev = []
        p = os.path.join(e.root, e.log + "%d.ndjson" % r)
        for line in open(p) if os.path.exists(p) else []:
            try:
                ev.append(json.loads(line))
            except ValueError:
                pass
        if rc != 0:
            ev.append({"e": "crash", "rc": str(rc)})
        evs.append(ev)
    return evs
