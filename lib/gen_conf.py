"""Random cluster descriptions, run through the real generator and read back (C14)."""
import os, random, re, shutil, subprocess
import noc, vt

_exe = []


def exe():
    if not _exe:
        e = noc.Env("confcfg", scn=[]).configure()
        d = os.path.join(vt.scratch(), "conf_inc")
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "radsim_defines.hpp"), "w").write(e.hdr)
        for f in ("radsim_config.cpp",):
            shutil.copy(os.path.join(vt.RS, "sim", f), d)
        for f in os.listdir(os.path.join(vt.RS, "sim")):
            if f.endswith(".hpp") and f != "radsim_defines.hpp":
                shutil.copy(os.path.join(vt.RS, "sim", f), d)
        flags = ["-O0", "-I" + d] + ["-I" + os.path.join(vt.RS, "sim", x) for x in vt.INC_NOC[1:]]
        o = vt.compile_objs([os.path.join(d, "radsim_config.cpp"), os.path.join(vt.VERIF, "harness/conf/conf.cpp")], os.path.join(vt.scratch(), "obj_conf"), flags)
        _exe.append(vt.link(o + vt.common_objs("booksim"), os.path.join(vt.scratch(), "confbin"), ["-lsystemc", "-lpthread"]))
    return _exe[0]


NOC_I = ["vcs", "vc_buffer_size", "output_buffer_size", "num_packet_types", "credit_delay", "routing_delay", "vc_alloc_delay", "sw_alloc_delay", "dim_x", "dim_y", "payload_width"]
NOC_S = {"topology": ["mesh", "mesh", "torus"], "type": ["2d"], "routing_func": ["dim_order", "xy_yx", "min_adapt", "valiant"], "router_uarch": ["iq", "event"],
         "vc_allocator": ["islip", "pim", "separable_input_first"], "sw_allocator": ["islip", "wavefront", "loa"]}
AD = {"clk_period": lambda r: r.choice([1.25, 2.0, 0.8]), "fifo_size": lambda r: r.randrange(4, 64), "obuff_size": lambda r: r.randrange(1, 8),
      "in_arbiter": lambda r: r.choice(["fixed_rr", "rr_x"]), "out_arbiter": lambda r: r.choice(["priority_rr", "rr_y"]), "vc_mapping": lambda r: r.choice(["direct", "other"])}
ITF = {"max_axis_tdata_width": [512, 1024, 128], "axis_tkeep_width": [8, 64], "axis_tstrb_width": [8, 16], "axis_tuser_width": [75, 110], "axi_id_width": [8, 12], "axi_user_width": [64, 100],
       "max_axi_data_width": [512, 256]}
BS_S = ["topology", "routing_function", "router", "vc_allocator", "sw_allocator"]
BS_I = ["num_vcs", "vc_buf_size", "output_buffer_size", "credit_delay", "routing_delay", "vc_alloc_delay", "sw_alloc_delay"]
TYPES = ["read_request", "write_request", "write_data", "read_reply", "write_reply"]
DEFINES = ("NOC_LINKS_PAYLOAD_WIDTH NOC_LINKS_VCID_WIDTH NOC_LINKS_PACKETID_WIDTH NOC_LINKS_TYPEID_WIDTH NOC_LINKS_DEST_WIDTH NOC_LINKS_DEST_INTERFACE_WIDTH NOC_LINKS_WIDTH AXIS_MAX_DATAW "
           "AXI4_MAX_DATAW AXIS_USERW AXI4_USERW AXIS_STRBW AXIS_KEEPW AXIS_IDW AXIS_DESTW AXIS_DEST_FIELDW AXI4_IDW AXI4_ADDRW AXI4_LENW AXI4_SIZEW AXI4_BURSTW AXI4_RESPW AXI4_NODE_ADDRW "
           "AXI4_CTRLW AXIS_PAYLOADW AXIS_TRANSACTION_WIDTH AXI4_PAYLOADW").split()


def one_noc(r):
    ty = r.choice([1, 2, 3, 3, 5])
    x = {"vcs": ty * r.choice([1, 1, 2, 3]), "num_packet_types": ty, "vc_buffer_size": r.randrange(2, 40), "output_buffer_size": r.randrange(1, 20), "credit_delay": r.randrange(1, 4), "routing_delay": r.randrange(0, 3),
         "vc_alloc_delay": r.randrange(1, 4), "sw_alloc_delay": r.randrange(1, 4), "dim_x": r.choice([1, 2, 3, 4, 8, 10]), "dim_y": r.choice([1, 2, 3, 4, 5, 12]), "payload_width": r.randrange(60, 400),
         "clk_period": r.choice([1.0, 0.571, 2.5])}
    for k, o in NOC_S.items():
        x[k] = r.choice(o)
    if x["topology"] == "mesh" and r.random() < 0.25:
        x["type"] = "3d"
    return x


def describe(r, idx):
    """a description as an ordered list of (section, {parameter: value} or {sub: {..}}); some with a mistake"""
    names = r.sample(["rad1", "anotherconfig", "big", "c2", "fpga0"], r.choice([1, 1, 2, 3]))
    rads = r.choice([1, 1, 2, 2, 3, 4, 6])
    assign = [r.choice(names) for _ in range(rads)]
    secs = []
    conf = {n: {} for n in names}
    for n in names:
        d = {"name": "vt"}
        if r.random() < 0.8:
            d["clk_periods"] = [r.choice([5.0, 2.0, 3.32, 1.5, 10.0]) for _ in range(r.randrange(1, 4))]
        if r.random() < 0.7:
            d["noc_placement"] = ["p%d.place" % r.randrange(9)]
        conf[n]["design"] = d
        if r.random() < 0.5:
            m = r.randrange(1, 4)
            full = {"num_controllers": m, "clk_periods": [r.choice([3.32, 2.0]) for _ in range(m)], "queue_sizes": [r.choice([32, 64]) for _ in range(m)], "config_files": [r.choice(["HBM2_8Gb_x128", "DDR4_8Gb_x16_2400"]) for _ in range(m)]}
            conf[n]["dram"] = {k: v for k, v in full.items() if r.random() < 0.85}
    shared, ad, itf = {}, {}, {}

    def nocs(count):
        ns = [one_noc(r) for _ in range(count)]
        x = {k: [q[k] for q in ns] for k in ns[0]}
        x["num_nocs"] = count
        if r.random() < 0.3:
            x["num_nodes"] = [0] * count
        if r.random() < 0.2 and count == 1:
            x["topology"] = ["anynet"]
            x["num_nodes"] = [r.choice([5, 9, 33])]
            x["anynet_file"] = ["/some/where/net%d" % r.randrange(9)]
        return x
    where = "same" if len(names) == 1 or r.random() < 0.6 else "own"
    if where == "same":
        c = r.choice([1, 1, 2, 3])
        full = nocs(c)
        if c > 1:
            shared = full
        else:
            keep = [k for k in full if r.random() < 0.75]
            if "vcs" in keep or "num_packet_types" in keep:
                keep = list(set(keep) | {"vcs", "num_packet_types"})
            if full["topology"] != ["mesh"] or full["type"] == ["3d"]:
                keep = list(set(keep) | {"topology", "type", "num_nodes", "anynet_file"})
            shared = {k: full[k] for k in full if k in keep}
        ad = {k: [f(r) for _ in range(c)] for k, f in AD.items() if c > 1 or r.random() < 0.7}
    else:
        for n in names:
            if r.random() < 0.8:
                c = r.choice([1, 1, 2])
                conf[n]["noc"] = nocs(c)
                conf[n]["noc_adapters"] = {k: [f(r) for _ in range(c)] for k, f in AD.items() if c > 1 or r.random() < 0.5}
    for k, o in ITF.items():
        if r.random() < 0.4:
            itf[k] = r.choice(o)
    if r.random() < 0.3:
        shared["packet_id_width"] = r.choice([16, 32, 40])
    if r.random() < 0.3:
        shared["max_num_router_dest_interfaces"] = r.choice([1, 2, 16, 32, 40])
    if where == "own" and r.random() < 0.4:
        k = r.choice(sorted(set(ITF) - set(itf)) or [None])
        if k:
            for n in names:
                if r.random() < 0.6:
                    conf[n]["interfaces"] = {k: r.choice(ITF[k])}
    cl = {"num_rads": rads, "cluster_configs": assign}
    per = r.choice([0.5, 1.0, 2.0, 2.5, 4.0, 5.0, 8.0])
    opt = {"sim_driver_period": per, "telemetry_log_verbosity": r.randrange(0, 3), "telemetry_traces": [r.choice(["Mem0", "Embedding LU", "a b c", "x"]) for _ in range(r.randrange(0, 5))],
           "cluster_topology": "all-to-all", "inter_rad_latency": r.choice([r.randrange(1, 60) / 2.0, float(r.randrange(1, 3000)), per * r.randrange(1, 50)]),
           "inter_rad_bw": r.choice([102.4, 25.6, 12.8, 51.2, 10.0, 76.8, 1.0, 500.0, r.randrange(5, 3000) / 10.0]), "inter_rad_fifo_num_slots": r.randrange(1, 2000)}
    cl.update({k: v for k, v in opt.items() if r.random() < 0.75})
    bw, ww = cl.get("inter_rad_bw", 25.6), itf.get("max_axis_tdata_width", 512)
    if bw * cl.get("sim_driver_period", 5.0) / ww < 0.002:
        cl["inter_rad_bw"] = 25.6
    secs = [["config " + n, conf[n]] for n in names] + [["cluster", cl]]
    for nm, x in (("noc", shared), ("noc_adapters", ad), ("interfaces", itf)):
        if x:
            secs.append([nm, x])
    r.shuffle(secs)
    # the order of named configurations is theirs to choose; parameters inside sections too
    secs = [[n, dict(r.sample(sorted(d.items()), len(d)))] for n, d in secs]
    bad = None
    if idx % 4 == 3:
        bad = MISTAKES[idx // 4 % len(MISTAKES)]
        by = {n: d for n, d in secs}
        c0 = "config " + assign[0]
        if bad == "unknown in section":
            r.choice(secs)[1]["vc_bufer_size"] = {"a": 1} if False else [4]
        elif bad == "unknown in configuration":
            by[r.choice([c0, "config " + names[-1]])].setdefault("design", {})["clk_perids"] = [1.0]
        elif bad == "unknown category":
            by["config " + names[-1]]["drams"] = {"num_controllers": 1}
        elif bad == "unknown section":
            secs.insert(r.randrange(len(secs) + 1), ["noc_adapter", {"fifo_size": [9]}])
        elif bad == "too few":
            by["cluster"]["num_rads"] = rads + 1
        elif bad == "too many":
            by["cluster"]["cluster_configs"] = assign + [r.choice(names)]
        elif bad == "no such configuration":
            by["cluster"]["cluster_configs"] = assign[:-1] + ["nothere"]
        else:
            tgt = by[c0].setdefault("noc", {}) if where == "own" else by.get("noc")
            if tgt is None:
                tgt = {}
                secs.append(["noc", tgt])
            c = tgt.get("num_nocs", 1)
            j = r.randrange(c)
            if bad == "virtual channels left over":
                tgt["num_packet_types"] = [3] * c
                tgt["vcs"] = [3] * c
                tgt["vcs"][j] = r.choice([4, 5, 7])
            elif bad == "too many types":
                tgt["num_packet_types"] = [6] * c
                tgt["vcs"] = [6] * c
            elif bad == "unsupported topology":
                tgt["topology"] = ["mesh"] * c
                tgt["topology"][j] = "fly"
            elif bad == "3d torus":
                tgt["topology"] = ["torus"] * c
                tgt["type"] = ["3d"] * c
            elif bad == "no node count":
                tgt["topology"] = ["anynet"] * c
                tgt["num_nodes"] = [0] * c
    return {"secs": secs, "bad": bad, "rads": rads}


MISTAKES = ("unknown in section", "unknown in configuration", "unknown category", "unknown section", "too few", "too many", "no such configuration", "virtual channels left over", "too many types",
            "unsupported topology", "3d torus", "no node count")
INT = {"noc_num_nocs", "dram_num_controllers", "telemetry_log_verbosity", "num_rads", "inter_rad_fifo_num_slots", "noc_payload_width", "noc_vcs", "noc_num_nodes", "noc_adapters_fifo_size",
       "noc_adapters_obuff_size", "dram_queue_sizes"}
DBL = {"sim_driver_period", "noc_clk_period", "noc_adapters_clk_period", "design_clk_periods", "dram_clk_periods"}


def val(v):
    v = v if isinstance(v, list) else [v]
    return {"v": [repr(x) if isinstance(x, float) else str(x) for x in v], "n": [int(round(x * 10)) if isinstance(x, float) else x if isinstance(x, int) else 0 for x in v]}


def ev(e, **k):
    d = {"e": e, "s": "", "p": "", "v": [], "n": [], "m": [], "r": 0, "k": 0, "w": {"x": 0}}
    d.update(k)
    return d


def intended(c):
    out = []
    for n, d in c["secs"]:
        if n.startswith("config "):
            s = n.split()[1]
            out.append(ev("config", s=s))
            for cat, sub in d.items():
                if not isinstance(sub, dict):
                    out.append(ev("stray"))
                    continue
                for p, v in sub.items():
                    out.append(ev("set", s=s, p=cat + "_" + p, **val(v)))
        elif n == "cluster":
            for p, v in d.items():
                v = val([float(v)] if p in ("inter_rad_latency", "inter_rad_bw", "sim_driver_period") else v)
                out.append(ev("set", s="cluster", p=p, **v))
        elif n in ("noc", "noc_adapters", "interfaces"):
            for p, v in d.items():
                out.append(ev("set", s="all", p=n + "_" + p, **val(v)))
        else:
            out.append(ev("stray"))
    return out


def run(c, tag):
    """events of one description: what was asked for, whether it was accepted, what was written"""
    root = os.path.join(vt.scratch(), "conf_" + tag)
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(os.path.join(root, "example-designs/vt"))
    with open(os.path.join(root, "example-designs/vt/config.yml"), "w") as f:
        f.write(vt.yaml_dump(dict((n, d) for n, d in c["secs"])))
    p = vt.run_config_py(root, ["vt"])
    out = intended(c)
    ok = p.returncode == 0
    out.append(ev("run", n=[int(ok)]))
    if not ok:
        shutil.rmtree(root, ignore_errors=True)
        return {"cfg": {}, "ev": out, "log": (p.stdout + p.stderr)[-600:]}
    rads = c["rads"]
    # read back
    q, mk = [], []

    def ask(line, f):
        q.append(line)
        mk.append(f)

    def tok(l):
        return [x for x in l.split("\t") if x != ""]
    shared = {"sim_driver_period": "d", "telemetry_log_verbosity": "i", "num_rads": "i", "inter_rad_fifo_num_slots": "i", "cluster_topology": "s", "telemetry_traces": "vs"}
    for k, t in shared.items():
        ask("%s %s" % (t, k), lambda l, k=k, t=t: [ev("shared", p=k, **val(float(l) if t == "d" else int(l) if t == "i" else tok(l) if t == "vs" else l))])
    ask("i inter_rad_latency_cycles", lambda l: [ev("shared", p="inter_rad_latency_cycles", n=[int(l)])])
    ask("i telemetry_num_traces", lambda l: [ev("shared", p="telemetry_num_traces", n=[int(l)])])
    share = []
    ask("i inter_rad_bw_accept_cycles", lambda l: share.append(int(l)) or [])
    ask("i inter_rad_bw_total_cycles", lambda l: share.append(int(l)) or [])
    pr = {"noc_num_nocs": "ri", "dram_num_controllers": "ri", "noc_payload_width": "rvi", "noc_vcs": "rvi", "noc_num_nodes": "rvi", "noc_adapters_fifo_size": "rvi", "noc_adapters_obuff_size": "rvi",
          "dram_queue_sizes": "rvi", "noc_clk_period": "rvd", "noc_adapters_clk_period": "rvd", "design_clk_periods": "rvd", "dram_clk_periods": "rvd", "design_noc_placement": "rvs",
          "noc_adapters_in_arbiter": "rvs", "noc_adapters_out_arbiter": "rvs", "noc_adapters_vc_mapping": "rvs", "dram_config_files": "rvs", "design_name": "rs"}
    full = dict(c["secs"])
    for r in range(rads):
        cn = "config " + full["cluster"]["cluster_configs"][r]
        mine = dict(full.get("noc", {}), **full[cn].get("noc", {}))
        for k, t in pr.items():
            if k == "noc_payload_width" and "payload_width" not in mine or k == "noc_vcs" and "vcs" not in mine:
                continue  # the device's own default; the widths below have to hold it
            ask("%s %s %d" % (t, k, r), lambda l, k=k, t=t, r=r: [ev("knob", r=r + 1, p=k, **val([float(x) for x in tok(l)] if t == "rvd" else [int(x) for x in tok(l)] if t == "rvi" else tok(l) if t == "rvs" else int(l) if t == "ri" else l))])
        for k in range(mine.get("num_nocs", 1)):
            topo = mine.get("topology", ["mesh"] * 9)[k]
            for b in BS_S + (["network_file"] if topo == "anynet" else []):
                ask("b %d %d %s s" % (r, k, b), lambda l, b=b, r=r, k=k: [ev("noc", r=r + 1, k=k + 1, p=b, v=[l], n=[0])])
            for b in BS_I + (["k", "n", "c"] if topo in ("mesh", "torus") else []):
                ask("b %d %d %s i" % (r, k, b), lambda l, b=b, r=r, k=k: [ev("noc", r=r + 1, k=k + 1, p=b, v=[l], n=[int(l)])])
            nt = mine.get("num_packet_types", [3] * 9)[k]
            buf = []
            for t in range(nt):
                for e in ("begin", "end"):
                    last = t == nt - 1 and e == "end"
                    ask("b %d %d %s_%s_vc i" % (r, k, TYPES[t] if t < 5 else "x", e),
                        lambda l, last=last, buf=buf, r=r, k=k: buf.append(int(l)) or ([ev("classes", r=r + 1, k=k + 1, n=buf[0::2], m=buf[1::2])] if last else []))
    try:
        p = vt.sprun([exe(), os.path.join(root, "sim/radsim_knobs"), str(rads), os.path.join(root, "sim/noc")], input="\n".join(q) + "\n", capture_output=True, text=True, timeout=60)
        lines, rc = p.stdout.splitlines(), p.returncode
    except subprocess.TimeoutExpired:
        lines, rc = [], "timeout"
    for f, l in zip(mk, lines):
        try:
            out += f(l)
        except ValueError:
            out.append(ev("unreadable", v=[l]))
    if len(lines) != len(q) or rc != 0:
        out.append(ev("unreadable", v=[q[len(lines)] if len(lines) < len(q) else "", str(rc)]))
    src = "#include \"%s/sim/radsim_defines.hpp\"\n" % root + "".join('@"%s" %s\n' % (d, d) for d in DEFINES)
    g = subprocess.run(["g++", "-E", "-P", "-x", "c++", "-"], input=src, capture_output=True, text=True)
    widths = {}
    for m in re.finditer(r'@ ?"(\w+)" ([0-9+*() ]+)$', g.stdout, re.M):
        widths[m.group(1)] = eval(m.group(2))
    out.append(ev("widths", w=widths) if len(widths) == len(DEFINES) else ev("unreadable", v=["radsim_defines.hpp"]))
    if len(share) == 2 and "AXIS_MAX_DATAW" in widths:
        out.append(ev("shared", p="share", n=share + [widths["AXIS_MAX_DATAW"]]))
    if "SINGLE_RAD" in open(os.path.join(root, "sim/radsim_defines.hpp")).read() and rads > 1:
        out.append(ev("unreadable", v=["SINGLE_RAD"]))
    shutil.rmtree(root, ignore_errors=True)
    return {"cfg": {}, "ev": out}
