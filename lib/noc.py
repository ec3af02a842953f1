"""Scenario-driven runs of whole RAD-Sim designs (real config.py, real generated
main.cpp, real sources) and conversion of their logs into traces."""
import hashlib, json, math, os, re, shutil, subprocess
import vt
from vt import RS, Broken

DEF_NOC = dict(type=["2d"], num_nocs=1, clk_period=[1.0], payload_width=[166], topology=["mesh"], dim_x=[4], dim_y=[4],
               routing_func=["dim_order"], vcs=[5], vc_buffer_size=[8], output_buffer_size=[8], num_packet_types=[5],
               router_uarch=["iq"], vc_allocator=["islip"], sw_allocator=["islip"], credit_delay=[1], routing_delay=[1],
               vc_alloc_delay=[1], sw_alloc_delay=[1])
DEF_AD = dict(clk_period=[1.25], fifo_size=[16], obuff_size=[2], in_arbiter=["fixed_rr"], out_arbiter=["priority_rr"],
              vc_mapping=["direct"])


class Env:
    """One configured design directory."""

    def __init__(self, name, noc=None, adapters=None, interfaces=None, clk_periods=(5.0,), cluster=None, rads=1,
                 place=None, clks=None, scn=None, extra_yaml=None, rad_configs=None, designs=None):
        self.name = name
        self.noc = dict(DEF_NOC, **(noc or {}))
        self.ad = dict(DEF_AD, **(adapters or {}))
        self.itf = interfaces or {}
        self.rads = rads
        self.root = os.path.join(vt.scratch(), "env_" + name)
        shutil.rmtree(self.root, ignore_errors=True)
        d = os.path.join(self.root, "example-designs/vt")
        os.makedirs(d)
        y = {}
        if rad_configs is None:
            rad_configs = [("rad1", list(clk_periods))]
            assign = ["rad1"] * rads
        else:
            assign = [c for c, _ in rad_configs][:rads]
        for cname, per in rad_configs:
            y["config " + cname] = {"design": {"name": (designs or {}).get(cname, "vt"), "noc_placement": ["vt.place"], "clk_periods": list(per)}}
        y["noc"] = self.noc
        y["noc_adapters"] = self.ad
        if self.itf:
            y["interfaces"] = self.itf
        y["cluster"] = dict(dict(sim_driver_period=5.0, telemetry_log_verbosity=0, telemetry_traces=[], num_rads=rads,
                                 cluster_configs=assign), **(cluster or {}))
        with open(os.path.join(d, "config.yml"), "w") as f:
            f.write(vt.yaml_dump(y))
        self.yaml = y
        for fn, txt in (place or {}).items():
            open(os.path.join(d, fn), "w").write(txt)
        for fn, txt in (clks or {}).items():
            open(os.path.join(d, fn), "w").write(txt)
        for i, s in enumerate(scn or []):
            open(os.path.join(self.root, "scenario%d.txt" % i), "w").write(s)
        self.scn = scn
        # the designs named on the command line, one directory each
        self.designs = ["vt"] + sorted(set((designs or {}).values()) - {"vt"})
        for x in self.designs[1:]:
            os.makedirs(os.path.join(self.root, "example-designs", x))
            for fn, txt in list((place or {}).items()) + list((clks or {}).items()):
                open(os.path.join(self.root, "example-designs", x, fn), "w").write(txt)

    def configure(self):
        p = vt.run_config_py(self.root, self.designs)
        if p.returncode != 0 or not os.path.exists(os.path.join(self.root, "sim/main.cpp")):
            raise Broken("config.py failed for %s:\n%s" % (self.name, (p.stdout + p.stderr)[-2000:]))
        hdr = open(os.path.join(self.root, "sim/radsim_defines.hpp")).read()
        hdr = hdr.replace(self.root, ".")
        main = open(os.path.join(self.root, "sim/main.cpp")).read()
        self.hdr, self.main = hdr, main
        self.key = hashlib.md5((hdr + "\0" + main).encode()).hexdigest()[:12]
        # multi-device runs read one NoC file per device
        for k in range(self.noc["num_nocs"]):
            src = os.path.join(self.root, "sim/noc/noc%d_rad0_config" % k)
            for r in range(1, self.rads):
                dst = os.path.join(self.root, "sim/noc/noc%d_rad%d_config" % (k, r))
                if not os.path.exists(dst) and os.path.exists(src):
                    shutil.copy(src, dst)
        return self


_bins = {}


def build(envs):
    """Build one binary per (header, main.cpp) class; returns {key: path}."""
    bs = vt.common_objs("booksim")
    keys = {}
    for e in envs:
        keys.setdefault(e.key, e)
    todo = [k for k in keys if k not in _bins]
    jobs = []
    for k in todo:
        e = keys[k]
        inc = os.path.join(vt.scratch(), "inc_" + k)
        os.makedirs(inc, exist_ok=True)
        # a private copy of the simulator sources without the generated files
        srcroot = os.path.join(vt.scratch(), "src_" + k)
        if not os.path.isdir(srcroot):
            shutil.copytree(os.path.join(RS, "sim"), os.path.join(srcroot, "sim"),
                            ignore=shutil.ignore_patterns("DRAMsim3", "booksim", "*.o"))
        open(os.path.join(srcroot, "sim/radsim_defines.hpp"), "w").write(e.hdr)
        open(os.path.join(srcroot, "sim/main.cpp"), "w").write(e.main)
        h = os.path.join(vt.VERIF, "harness/vt")
        s = os.path.join(srcroot, "sim")
        srcs = [f for f in vt.lsrc(s)] + vt.lsrc(os.path.join(s, "noc")) + vt.lsrc(h)
        flags = ["-O0"] + vt.pch() + ["-I" + s, "-I" + os.path.join(s, "noc"), "-I" + h] + \
                ["-I" + os.path.join(RS, "sim", d) for d in vt.INC_NOC[1:]]
        jobs.append((k, srcs, flags))
    allsrc = [(k, f, fl) for k, srcs, fl in jobs for f in srcs]

    def one(x):
        k, f, fl = x
        return k, vt.compile_objs([f], os.path.join(vt.scratch(), "obj_" + k), fl, jobs=1)[0]

    objs = {}
    for k, o in vt.pmap(one, allsrc):
        objs.setdefault(k, []).append(o)

    def lk(k):
        _bins[k] = vt.link(objs[k] + bs, os.path.join(vt.scratch(), "vt_" + k), ["-lsystemc", "-lpthread"])

    vt.pmap(lk, objs)
    return _bins


def run(env, timeout=120):
    """Run the design; returns (exit status, events)."""
    for f in ("events.ndjson", "stats.csv"):
        p = os.path.join(env.root, f)
        if os.path.exists(p):
            os.unlink(p)
    try:
        p = vt.sprun([_bins[env.key]], cwd=env.root, capture_output=True, timeout=timeout,
                           env=dict(os.environ, SC_COPYRIGHT_MESSAGE="DISABLE"))
        rc, out = p.returncode, p.stdout.decode(errors="replace") + p.stderr.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        rc, out = "timeout", ""
    env.out = out
    ev = []
    p = os.path.join(env.root, "events.ndjson")
    if os.path.exists(p):
        for line in open(p):
            try:
                ev.append(json.loads(line))
            except ValueError:
                pass
    env.rc = rc
    return rc, ev


def clog2(n):
    return int(math.ceil(math.log(n, 2)))
