"""Random Verilog modules, the port maps and wrappers the real scripts make of them (C15)."""
import os, re, shutil, subprocess, sys
import noc, vt

AXIS = {"tvalid": (0, "1"), "tready": (1, "1"), "tdata": (0, "AXIS_MAX_DATAW"), "tstrb": (0, "AXIS_STRBW"), "tkeep": (0, "AXIS_KEEPW"), "tlast": (0, "1"), "tid": (0, "AXIS_IDW"), "tdest": (0, "AXIS_DESTW"),
        "tuser": (0, "AXIS_USERW")}
_D = {"id": "AXI4_IDW", "addr": "AXI4_ADDRW", "len": "AXI4_LENW", "size": "AXI4_SIZEW", "burst": "AXI4_BURSTW", "user": "AXI4_USERW", "data": "AXI4_MAX_DATAW", "resp": "AXI4_RESPW", "valid": "1", "ready": "1", "last": "1"}
AXIMM = {}
for ch, fs, rev in (("aw", "valid ready id addr len size burst user", 0), ("w", "valid ready id data last user", 0), ("b", "valid ready id resp user", 1), ("ar", "valid ready id addr len size burst user", 0),
                    ("r", "valid ready id data resp last user", 1)):
    for f in fs.split():
        # 0: driven by the requester
        AXIMM[ch + f] = (rev ^ (f == "ready"), _D[f])
NAMES = ["clk", "rst", "a", "b0", "data_input", "input_valid", "output_ready", "reg_sel", "wire_en", "logic_in", "signed_mode", "tri_o", "x_output", "inout_pad", "parameter_x", "supply0_ok", "wand_q", "endmodule_f",
         "q", "response", "response_valid", "module_id", "en", "addr", "d_in", "tri1_z", "my_axis_tdata", "axis", "state", "task_id", "integer_v", "function_sel", "reg", "count_reg", "wor_n"]
NAMES.remove("reg")
_env = []


def env():
    if not _env:
        _env.append(noc.Env("rtlcfg", scn=[], interfaces={"max_axis_tdata_width": 128, "axis_tuser_width": 20, "max_axi_data_width": 128}, noc={"payload_width": [200]}).configure())
        src = "".join('@"%s" %s\n' % (d, d) for d in sorted({w for _, w in list(AXIS.values()) + list(AXIMM.values())} - {"1"}))
        p = subprocess.run(["g++", "-E", "-P", "-x", "c++", "-"], input=_env[0].hdr + "\n" + src, capture_output=True, text=True)
        _env.append({m.group(1): eval(m.group(2)) for m in re.finditer(r'@ ?"(\w+)" ([0-9+*() ]+)$', p.stdout, re.M)})
        _env[1]["1"] = 1
    return _env


def module(rng, name, wrap=False):
    """ports: name, mode, width, lit: the width is written as a literal range (or there is none)"""
    ports = []
    pool = list(NAMES)
    rng.shuffle(pool)
    for n in pool[:rng.randrange(1, 9)]:
        w = rng.choice([1, 1, 2, 8, 32, 65, 200])
        ports.append({"name": n, "mode": rng.choice(["input", "input", "output", "inout"]), "w": w, "itf": None})
    if wrap:
        ports = [p for p in ports if p["name"] != "clk"]
        if rng.random() < 0.7:
            ports.insert(0, {"name": "clk", "mode": "input", "w": 1, "itf": None})
        if not ports:
            ports.append({"name": "start", "mode": "input", "w": 1, "itf": None})
    used = set()
    for kind, tab in (("axis", AXIS), ("aximm", AXIMM)):
        for _ in range(rng.choice([0, 1, 1, 2])):
            itf = rng.choice(["rx", "tx", "a_b", "client0", "mem", "x", "input_ch", "reg_t"])
            if (kind, itf) in used:
                continue
            used.add((kind, itf))
            role = rng.choice(["master", "slave"])
            sig = list(tab)
            if rng.random() < 0.4:
                keep = rng.randrange(2, len(sig))
                sig = rng.sample(sig, keep)
                if not any(tab[s][0] == 0 for s in sig):
                    sig.append("tvalid" if kind == "axis" else "awvalid")
                if rng.random() < 0.4:      # one signal alone tells the role
                    sig = [rng.choice([x for x in tab if tab[x][0] == 0])] + [x for x in sig if tab[x][0]]
            if rng.random() < 0.5:
                rng.shuffle(sig)
            for s in sig:
                d, w = tab[s]
                out = (role == "master") == (d == 0)
                ports.append({"name": "%s_%s_%s" % (kind, itf, s), "mode": "output" if out else "input", "w": env()[1][w], "itf": [kind, role, itf, s]})
    if rng.random() < 0.3:
        rng.shuffle(ports)
    return {"name": name, "ports": ports}


def rng_text(r, p, m):
    """range of one declaration; decides whether it is literal"""
    k = r.random()
    w = p["w"]
    p["lit"] = True
    if w == 1 and k < 0.85:
        return ""
    if k < 0.6:
        return "[%d:0]" % (w - 1)
    lo = r.randrange(0, 4)
    if k < 0.75:
        return "[%d:%d]" % (w - 1 + lo, lo)
    if k < 0.87:
        return "[%d:%d]" % (lo, w - 1 + lo)
    if k < 0.91:
        p["lit"] = False
        p["some"] = True
        return r.choice(["[ %d : 0 ]", "[%d: 0]"]) % (w - 1)
    p["lit"] = False
    return r.choice(["[W-1:0]", "[`DATAW-1:0]", "[$clog2(W)-1:0]", "[(W*2)-1:0]"])


def note(r, inline=True):
    k = r.random()
    if k < 0.75:
        return ""
    t = r.choice(["the clock", "input x, output reg y", "not a port: inout z;", "module foo (a, b);", "parameter Q = 3", "a), b"])
    return " // %s\n  " % t if k < 0.88 else " /* %s */ " % t


BODY = ["  assign data_input = 1'b1;\n", "  wire [7:0] my_output ;\n  assign my_output = 8'd3;\n", "  sub u0 (.data_input (foo), .x_output (bar), .clk(clk));\n", "  // input fake_a;\n", "  /* output fake_b; */\n",
        "  task t1;\n    input [3:0] fake_c;\n    output fake_d;\n    begin end\n  endtask\n", "  function [3:0] f1;\n    input [3:0] fake_e;\n    f1 = fake_e;\n  endfunction\n", "  localparam integer N = 4;\n",
        "  parameter DEPTH = 16;\n", "  initial $display(\"input fake_f, output fake_g\");\n", "  always @(posedge clk) begin\n    cnt_input <= cnt_input + 1;\n  end\n", "  reg [3:0] inner;\n",
        "  sub #(.W(8), .input_w (3)) u1 (.a(a));\n", "  assign endmodule_f = 1'b0;\n", "  genvar i;\n  generate for (i = 0; i < 4; i = i + 1) begin : g end endgenerate\n"]


def text(r, m):
    """one of many ways to write the module"""
    out = ["// %s module\n" % m["name"]] if r.random() < 0.5 else []
    hdr = "module %s" % m["name"]
    if r.random() < 0.4:
        hdr += r.choice([" #(parameter W = 8)", " #(\n  parameter W = 8,\n  parameter [3:0] Q = 2, // depth\n  parameter integer Z = 4\n)", " #(parameter W = (8), parameter Y = W/2)"])
    decl = []
    for p in m["ports"]:
        net = r.choice(["", "", "wire", "logic", "reg" if p["mode"] == "output" else "wire"])
        sg = "signed" if r.random() < 0.08 else ""
        rg = rng_text(r, p, m)
        if p["lit"] and not (net in ("", "reg", "logic") and not sg and not rg or rg and not (net and sg)):
            p["lit"], p["some"] = False, True
        decl.append([p["mode"], net, sg, rg, p["name"]])
    if r.random() < 0.65:
        items = []
        prev = None
        for d in decl:
            k = d[:4]
            if prev == k and r.random() < 0.6:
                items.append(d[4])
            else:
                items.append(" ".join(x for x in d if x))
            prev = k
        sep = r.choice(["\n  ", "\n    ", " "])
        s = hdr + " ("
        for i, it in enumerate(items):
            s += sep + it + ("," if i < len(items) - 1 else "") + (note(r) if sep != " " else "")
        out.append(s + r.choice(["\n);\n", ");\n"]))
    else:
        out.append(hdr + r.choice([" (", "("]) + ", ".join(p["name"] for p in m["ports"]) + ");\n")
        prev = None
        i = 0
        while i < len(decl):
            j = i + 1
            names = [decl[i][4]]
            while j < len(decl) and decl[j][:4] == decl[i][:4] and r.random() < 0.5:
                names.append(decl[j][4])
                j += 1
            out.append("  " + " ".join(x for x in decl[i][:4] if x) + " " + ", ".join(names) + ";" + (note(r) if r.random() < 0.3 else "") + "\n")
            i = j
    for _ in range(r.randrange(0, 5)):
        out.append(r.choice(BODY))
    out.append("endmodule\n" + r.choice(["", "\n", "// end of module\n"]))
    return "".join(out)


def script(name):
    return os.path.join(vt.RS, "scripts", name)


def ev(e, **k):
    d = {"e": e, "m": "", "p": "", "mode": "", "w": -1, "kind": "", "role": "", "itf": "", "s": "", "to": ""}
    d.update(k)
    return d


def split_iface(m):
    for p in m["ports"]:
        p.setdefault("some", False)


def map_case(rng, idx):
    files = []
    k = 0
    for f in range(rng.choice([1, 1, 2])):
        ms = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            k += 1
            m = module(rng, rng.choice(["mod", "adder", "my_module", "Top", "client_v"]) + str(k))
            ms.append(m)
        files.append(("f%d.%s" % (f, rng.choice(["v", "sv"])), ms, "`include \"x.vh\"\n" * rng.randrange(2) + "\n".join(text(rng, m) for m in ms)))
    for _, ms, _t in files:
        for m in ms:
            split_iface(m)
    return {"files": files}


def declare(ms):
    out = []
    for m in ms:
        out.append(ev("module", m=m["name"]))
        for p in m["ports"]:
            k = dict(zip(("kind", "role", "itf", "s"), p["itf"])) if p["itf"] else {}
            # how exactly the width must be found: 2 literal, 1 literal or left open, 0 left open
            out.append(ev("port", m=m["name"], p=p["name"], mode=p["mode"], w=p["w"], to="2" if p["lit"] else "1" if p["some"] else "0", **k))
    return out


def run_map(c, tag):
    d = os.path.join(vt.scratch(), "rtl_" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "modules/rtl"))
    for n, ms, t in c["files"]:
        open(os.path.join(d, "modules/rtl", n), "w").write(t)
    p = subprocess.run([sys.executable, "-W", "ignore", script("generate_port_mappings.py"), d] + [n for n, _, _ in c["files"]], capture_output=True, text=True, stdin=subprocess.DEVNULL, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    out = declare([m for _, ms, _t in c["files"] for m in ms])
    f = os.path.join(d, "modules/rtl/port.map")
    if p.returncode != 0 or not os.path.exists(f):
        out.append(ev("crash", to=(p.stderr or "")[-300:]))
    else:
        out += lines(open(f).read())
        out.append(ev("end"))
    shutil.rmtree(d, ignore_errors=True)
    return {"cfg": {}, "ev": out}


def lines(txt):
    """the map as events: one per line"""
    out = []
    for l in txt.splitlines():
        x = l.split()
        if not x:
            continue
        if x[0] == "module" and len(x) == 2:
            out.append(ev("mapmodule", m=x[1]))
        elif x[0] in ("axis", "aximm") and len(x) == 5:
            out.append(ev("mapaxi", kind=x[0], role=x[1], p=x[2], itf=x[3], s=x[4]))
        elif x[0] in ("input", "output", "inout") and len(x) == 4:
            w = int(x[1]) if re.fullmatch(r"-?\d+", x[1]) else -2
            out.append(ev("mapport", mode=x[0], w=-3 if x[1] == "?" else w, p=x[2], to=x[3]))
        else:
            out.append(ev("badline", to=l))
    return out


# ---- maps read and wrappers built ----------------------------------------

MISTAKES = ("missing field", "field too many", "width left open", "no module first", "unknown direction", "role changes", "no such role", "width not a number", "width zero", "port twice", "wrapper port twice",
            "module twice", "two kinds of one interface", "short line")


def entry(rng, p, plain_name=None):
    if p["itf"]:
        kind, role, itf, s = p["itf"]
        return [kind, role, p["name"], "%s_%s" % (kind, itf), s]
    return [p["mode"], str(p["w"]), p["name"], plain_name or p["name"]]


def wrap_case(rng, idx, mistakes=True):
    ms = [module(rng, rng.choice(["mod", "adder", "my_module", "Top"]) + str(k), True) for k in range(rng.choice([1, 1, 2]))]
    rows = []
    for m in ms:
        rows.append(["module", m["name"]])
        ports = list(m["ports"])
        if rng.random() < 0.5:
            rng.shuffle(ports)
        plain = [p for p in ports if not p["itf"]]
        ren = {p["name"]: "renamed_" + p["name"] for p in plain if rng.random() < (0.15 if p["name"] != "clk" else 0.25)}
        if "clk" in ren or not any(p["name"] == "clk" for p in plain):      # the clock may have another name in the design
            one = [p["name"] for p in plain if p["mode"] == "input" and p["w"] == 1 and p["name"] != "clk"]
            if one and rng.random() < 0.7:
                ren[rng.choice(one)] = "clk"
        for p in ports:
            rows.append(entry(rng, p, ren.get(p["name"])))
    bad = MISTAKES[idx // 2 % len(MISTAKES)] if mistakes and idx % 2 else None
    if bad:
        plain = [i for i, r in enumerate(rows) if r[0] in ("input", "output", "inout")]
        axi = [i for i, r in enumerate(rows) if r[0] in ("axis", "aximm")]
        i = rng.choice(plain)
        j = rng.choice(axi or plain)
        k = rng.choice([i, j])
        if bad == "missing field":
            del rows[k][rng.randrange(1, len(rows[k]))]
        elif bad == "field too many":
            rows[k].append("extra")
        elif bad == "width left open":
            rows[i][1] = "?"
        elif bad == "no module first":
            rows.insert(0, ["input", "1", "early", "early"])
        elif bad == "unknown direction":
            rows[i][0] = rng.choice(["in", "Input", "wire", "axi"])
        elif bad == "role changes":
            same = [x for x in axi if [rows[x][0], rows[x][3]] == [rows[j][0], rows[j][3]]] if axi else []
            if len(same) > 1 and "module" not in [r[0] for r in rows[same[0]:same[-1]]]:
                rows[same[-1]][1] = "master" if rows[same[-1]][1] == "slave" else "slave"
            else:
                rows[i][1] = "?"
        elif bad == "no such role":
            rows[j][1] = rng.choice(["Master", "both", "x"]) if axi else "?"
        elif bad == "width not a number":
            rows[i][1] = rng.choice(["W", "-3", "8.0", "[7:0]", "0x8"])
        elif bad == "width zero":
            rows[i][1] = rng.choice(["0", "00"])
        elif bad == "port twice":
            r = list(rows[k])
            r[3] += "_again"
            rows.insert(k + 1, r)
        elif bad == "wrapper port twice":
            rows.insert(i + 1, [rows[i][0], rows[i][1], rows[i][2] + "_other", rows[i][3]])
            if rng.random() < 0.5:      # whatever the other one looks like
                rows[i + 1][:2] = [rng.choice(["input", "output"]), rng.choice(["1", "8"])]
        elif bad == "module twice":
            rows += [["module", ms[0]["name"]], ["input", "1", "late", "late"]]
        elif bad == "two kinds of one interface":
            rows.insert(j + 1, ["aximm" if rows[j][0] == "axis" else "axis", rows[j][1], "stray_port", rows[j][3], "awvalid" if rows[j][0] == "axis" else "tvalid"]) if axi else rows[i].__setitem__(1, "?")
        elif bad == "short line":
            rows.insert(k, [rng.choice(["input", "axis", "output"])])
    sep = rng.choice([" ", " ", "\t", "  "])
    txt = "\n".join(sep.join(r) + rng.choice(["", "", " "]) for r in rows) + rng.choice(["", "\n", "\n\n"])
    return {"ms": ms, "rows": rows, "txt": txt, "bad": bad, "dataw": rng.choice([128, 64, 96]), "ask": rng.random() < 0.8}


def read_events(rows):
    out = []
    for x in rows:
        if x[0] == "module" and len(x) == 2:
            out.append(ev("rmodule", m=x[1]))
        elif x[0] in ("axis", "aximm") and len(x) == 5:
            out.append(ev("raxi", kind=x[0], role=x[1], p=x[2], itf=x[3], s=x[4]))
        elif len(x) == 4:
            out.append(ev("rport", mode=x[0], w=int(x[1]) if re.fullmatch(r"[0-9]+", x[1]) else 0, p=x[2], to=x[3]))
        else:
            out.append(ev("rbad", to=" ".join(x)))
    return out


_objs = []


def objs():
    """the simulator's module class and a stand-in for its design context"""
    if not _objs:
        e = env()[0]
        s = os.path.join(vt.scratch(), "src_rtl/sim")
        shutil.copytree(os.path.join(vt.RS, "sim"), s, ignore=shutil.ignore_patterns("DRAMsim3", "booksim", "*.o"))
        open(os.path.join(s, "radsim_defines.hpp"), "w").write(e.hdr)
        h = os.path.join(vt.VERIF, "harness/rtl")
        flags = ["-O0"] + vt.pch() + ["-I" + s, "-I" + os.path.join(s, "noc"), "-I" + h] + ["-I" + os.path.join(vt.RS, "sim", d) for d in vt.INC_NOC[1:]]
        _objs.append(flags)
        _objs.append(vt.compile_objs([os.path.join(s, "radsim_module.cpp"), os.path.join(h, "stub.cpp")], os.path.join(vt.scratch(), "obj_rtl"), flags))
    return _objs


def ctype(w):
    return "bool" if w == 1 else "sc_bv<%d>" % w


def sources(c, m, d):
    """a stand-in for the module Verilator would make, and a program that looks at the wrapper"""
    n = m["name"]
    io = {"input": "sc_in", "output": "sc_out", "inout": "sc_inout"}
    v = "#pragma once\n#include <systemc.h>\nclass V%s : public sc_module {\npublic:\n" % n
    for p in m["ports"]:
        v += "  %s<%s> %s;\n" % (io[p["mode"]], ctype(p["w"]), p["name"])
    v += "  static V%s *made; static int finals;\n  V%s(sc_module_name nm) : sc_module(nm) { made = this; }\n  void final() { finals++; }\n};\n" % (n, n)
    open(os.path.join(d, "V%s.h" % n), "w").write(v)
    rows, cur = [], None
    for r in c["rows"]:
        if r[0] == "module":
            cur = r[1]
        elif cur == n:
            rows.append(r)
    itfs = {}
    t = '#define private public\n#include <probe.hpp>\n#undef private\n#include <%s.hpp>\nV%s *V%s::made; int V%s::finals;\nint sc_main(int, char **) {\n  static char ctx[8];\n' % (n, n, n, n)
    t += '  auto *w = new %s("a_rather_long_instance_name_of_the_wrapper_0", reinterpret_cast<RADSimDesignContext *>(ctx));\n  auto *v = V%s::made;\n  tie_up(w->clk, "clk");\n' % (n, n)
    for r in rows:
        if r[0] in ("axis", "aximm"):
            itfs[r[3]] = r[0]
        elif r[3] != "clk":
            t += '  tie_up(w->%s, "%s");\n' % (r[3], r[3])
    for i, k in itfs.items():
        for s in (AXIS if k == "axis" else AXIMM):
            t += '  tie_up(w->%s.%s, "%s.%s");\n' % (i, s, i, s)
    t += "  sc_start(SC_ZERO_TIME);\n"
    for r in rows:
        t += '  joined(v->%s, "%s");\n' % (r[2], r[2])
        if r[0] not in ("axis", "aximm") and r[3] != "clk":
            t += '  member(w->%s, "%s");\n' % (r[3], r[2])
    t += '  interfaces(w, %d);\n  std::cout << "@built" << std::endl;\n  return 0;\n}\n' % (c["dataw"] if c["ask"] else 1024)
    f = os.path.join(d, "look_%s.cpp" % n)
    open(f, "w").write(t)
    return f


def run_wrap(c, tag, build):
    d = os.path.join(vt.scratch(), "wrap_" + tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "modules/rtl"))
    open(os.path.join(d, "modules/rtl/port.map"), "w").write(c["txt"])
    names = [m["name"] for m in c["ms"]]
    p = subprocess.run([sys.executable, "-W", "ignore", script("generate_wrapper.py"), d] + names, capture_output=True, text=True, input=("%d\n" % c["dataw"] if c["ask"] else "\n") * len(names),
                       env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    ok = p.returncode == 0 and all(os.path.exists(os.path.join(d, "modules", n + x)) for n in names for x in (".cpp", ".hpp"))
    out = read_events(c["rows"]) + [ev("verdict", w=int(ok))]
    log = p.stderr[-400:]
    if ok and build and not c["bad"]:
        flags, base = objs()
        md = os.path.join(d, "modules")
        for m in c["ms"]:
            try:
                f = sources(c, m, md)
                o = vt.compile_objs([os.path.join(md, m["name"] + ".cpp"), f], os.path.join(d, "obj"), flags + ["-I" + md], jobs=1)
                b = vt.link(o + base, os.path.join(d, "look_" + m["name"]), ["-lsystemc", "-lpthread"])
                q = vt.sprun([b], capture_output=True, text=True, timeout=60, env=dict(os.environ, SC_COPYRIGHT_MESSAGE="DISABLE"), cwd=d)
                for l in q.stdout.splitlines():
                    x = l.split()
                    if l.startswith("@join"):
                        out.append(ev("join", m=m["name"], p=x[1], to=x[2]))
                    elif l.startswith("@member"):
                        out.append(ev("member", m=m["name"], p=x[1], mode=x[2], w=int(x[3])))
                    elif l.startswith("@interface"):
                        out.append(ev("interface", m=m["name"], kind=x[1], role=x[2], itf=x[3]))
                    elif l.startswith("@built"):
                        out.append(ev("built", m=m["name"]))
                if q.returncode != 0:
                    out.append(ev("crash", to=(q.stderr + q.stdout)[-300:]))
            except vt.Broken as e:
                out.append(ev("nocompile", to=str(e)[-300:]))
    shutil.rmtree(d, ignore_errors=True)
    return {"cfg": {}, "ev": out, "log": log}
