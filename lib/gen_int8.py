"""Programs, matrices and inputs for the 8-bit engines that are loaded over the NoC, and
their traces for LoadedTrace."""
import json, os, subprocess
import accel, vt
from vt import RS, Broken

ND = 64
ROUTERS = 16


def cut(v):
    return [(a + 128) % 256 - 128 for a in v]


class Env(accel.Env):
    """the example with its RTL engine left out unless rtl is set"""
    rtl = False

    def sources(self, d):
        accel.design_sources("mlp_int8", d)
        for x in ("hpp", "cpp"):
            os.unlink(os.path.join(d, "mlp_driver." + x))
            t = open(os.path.join(accel.H, "int8_driver." + x)).read()
            open(os.path.join(d, "mlp_driver." + x), "w").write(t)
        m = os.path.join(d, "modules")
        os.unlink(os.path.join(m, "rtl_mvm.cpp"))
        open(os.path.join(m, "rtl_mvm.hpp"), "w").write(NO_RTL)
        return vt.lsrc(d) + vt.lsrc(m)


NO_RTL = """#pragma once
#include <systemc.h>
#include <axis_interface.hpp>
#include <design_context.hpp>
#include <radsim_module.hpp>
class rtl_mvm : public RADSimModule {
 public:
  sc_in<bool> rst;
  rtl_mvm(const sc_module_name& name, RADSimDesignContext* d) : RADSimModule(name, d) {}
  void RegisterModuleInfo() {}
};
"""


def env(rng, tag, nm, rads=1, place=None):
    per = rng.choice([[5.0], [5.0, 2.5], [5.0, 7.5], [5.0, 10.0]])
    names = ["layer%d_mvm%d" % (l, m) for l in range(len(nm)) for m in range(nm[l])] + ["input_dispatcher%d" % m for m in range(nm[0])] + \
            ["output_collector", "weight_loader", "inst_loader"]
    if place is None:
        place = dict(zip(names, rng.sample(range(ROUTERS), len(names))))
    txt = "".join("%s 0 %d axis\n" % (n, place[n]) for n in names)
    clks = "".join("%s 0 %d\n" % (n, rng.randrange(len(per)) if n.startswith("layer") else 0) for n in names)
    nocp = dict(clk_period=[rng.choice([1.0, 1.25, 2.5])], vc_buffer_size=[rng.choice([8, 12])], routing_delay=[rng.randint(0, 2)])
    e = Env(tag, "mlp_int8", nocp, clk_periods=per, rads=rads, place=txt, clks=clks)
    # the file names are the design's, not the configuration's
    for x in ("place", "clks"):
        p = os.path.join(e.dir, "mlp_int8." + x)
        os.rename(p, os.path.join(e.dir, "mlp." + x))
    y = e.yaml
    y["config rad1"]["design"]["noc_placement"] = ["mlp.place"]
    open(os.path.join(e.dir, "config.yml"), "w").write(vt.yaml_dump(y))
    e.place = place
    return e


def write(rng, e, nm, rows, insts, inputs, expect):
    """rows: [(layer, mvm, rf, addr, values)], insts: [(layer, mvm, 8 fields)] in loading order"""
    c = os.path.join(e.dir, "compiler")
    os.makedirs(c, exist_ok=True)
    open(os.path.join(c, "layer_mvm_config"), "w").write("%d " % len(nm) + "".join("%d,0 " % m for m in nm))
    with open(os.path.join(c, "weights.txt"), "w") as f:
        for l, m, k, a, v in rows:
            f.write("%d %d %d %d %s\n" % (l, m, k, a, " ".join(map(str, v))))
    with open(os.path.join(c, "insts.txt"), "w") as f:
        for l, m, i in insts:
            f.write("%d %d %s\n" % (l, m, " ".join(map(str, i))))
    for d, xs in enumerate(inputs):
        open(os.path.join(c, "inputs%d.txt" % d), "w").write("".join(" ".join(map(str, x)) + "\n" for x in xs))
    e.stim = ["%d %d %d %d %d %d %d %d %d\n" % (expect, 400, 6000, rng.choice([100, 100, 70, 30]), rng.choice([100, 100, 50, 10]),
                                              rng.choice([100, 100, 40, 8]), rng.randrange(1 << 31), 3000, nm[0])]
    open(os.path.join(e.root, "accel0.txt"), "w").write(e.stim[0])


def program(rng, idx):
    """a network of engines without a cycle, each queue with one writer"""
    while True:
        nm = [rng.randint(1, 3) for _ in range(rng.choice([1, 2, 2]))]
        if sum(nm) + nm[0] + 3 <= ROUTERS:
            break
    eng = [(l, m) for l in range(len(nm)) for m in range(nm[l])]
    n = rng.randint(1, 10)
    N = len(eng)
    feeds = [[] for _ in range(N)]  # (engine or -1, op)
    hasr = [False] * N
    for b in range(N):
        if b >= nm[0]:
            feeds[rng.randrange(b)].append((b, 1))
        if b > 0 and rng.random() < .6:
            feeds[rng.randrange(b)].append((b, 0))
            hasr[b] = True
    feeds[N - 1 if rng.random() < .6 else rng.randrange(N)].append((-1, 1))
    mag = rng.choice([1, 3, 40, 127])
    rnd = lambda: rng.choice([-128, 127]) if mag == 127 and rng.random() < .1 else rng.randint(-mag, mag)
    addrs = [sorted(rng.sample(range(512), rng.randint(1, 3 if N < 4 else 2))) for _ in range(N)]
    for a in addrs:
        if rng.random() < .3:
            a[-1] = 511
    prog = []
    for b in range(N):
        ps, wrote = [], set()
        size = rng.randint(1, 10) if rng.random() < .8 else rng.randint(25, 40)
        accs = [0, 1, rng.randrange(512), 511]
        for i in range(size):
            acc = rng.choice(accs)
            en = int(acc in wrote and rng.random() < .6)
            wrote.add(acc)
            d, op = rng.choice(feeds[b]) if feeds[b] else (-1, 1)
            rel = int(bool(feeds[b]) and rng.random() < .6)
            ps.append(dict(op=op if d >= 0 else rng.randrange(2), dest=d, raddr=rng.choice(addrs[b]), accum=acc, last=int(rng.random() < .5 or i == size - 1),
                           release=rel, accum_en=en, reduce=int(hasr[b] and rng.random() < .4)))
            if rng.random() < .3 and len(ps) < 54:  # one that differs in one field
                j = dict(ps[-1])
                f = rng.choice(["raddr", "accum", "last", "release", "accum_en", "reduce", "dest"])
                if f == "raddr":
                    j[f] = rng.choice(addrs[b])
                elif f == "accum":
                    j[f] = rng.choice(sorted(wrote))
                elif f == "dest":
                    if len(feeds[b]) > 1:
                        j["dest"], j["op"] = rng.choice(feeds[b])
                elif f == "accum_en":
                    j[f] = 1 - j[f] if j["accum"] in wrote else 0
                elif f == "reduce":
                    j[f] = 1 - j[f] if hasr[b] else 0
                elif f == "release":
                    j[f] = 1 - j[f] if feeds[b] else 0
                else:
                    j[f] = 1 - j[f]
                ps.append(j)
        ps[-1]["last"] = 1
        prog.append(ps)
    dense = rng.choice([1, .5, .1])
    some = rng.choice([64, 10, 10, 10, 10])  # rows that are not all zero
    mem = []
    for b in range(N):
        mem.append({})
        for a in addrs[b]:
            full = rng.sample(range(ND), some)
            mem[b][a] = [[rnd() if k in full and rng.random() < dense else 0 for _ in range(ND)] for k in range(ND)]
    xs = [[[rnd() for _ in range(ND)] for _ in range(n)] for _ in range(nm[0])]
    outs, steps, most = simulate(N, nm[0], prog, mem, xs)
    if outs is None or outs > 300 or steps > 300 or most > 50 or max(len(p) for p in prog) > 56 or (outs == 0 and rng.random() < .8):
        return program(rng, idx)
    e = env(rng, "int8p%d" % idx, nm)
    # loading order: anything that keeps the order of an engine's instructions
    rows = [(eng[b][0], eng[b][1], k, a, mem[b][a][k]) for b in range(N) for a in addrs[b] for k in range(ND)]
    style = rng.randrange(3)
    if style:
        rng.shuffle(rows)
    if style == 2:  # some of them loaded before with something else
        some = rng.sample(rows, min(len(rows), 40))
        rows = [(l, m, k, a, [rnd() for _ in range(ND)]) for l, m, k, a, _ in some] + rows
    node = lambda d: e.place["output_collector"] if d < 0 else e.place["layer%d_mvm%d" % eng[d]]
    left = [list(p) for p in prog]
    order = [b for b in range(N) for _ in prog[b]]
    if rng.random() < .6:
        rng.shuffle(order)
    insts, spec = [], []
    for b in order:
        i = left[b].pop(0)
        insts.append((eng[b][0], eng[b][1], [i["op"], node(i["dest"]), i["raddr"], i["accum"], i["last"], i["release"], i["accum_en"], i["reduce"]]))
        spec.append([b + 1, dict(i, dest=i["dest"] + 1)])
    write(rng, e, nm, rows, insts, xs, outs)
    e.cfg = {"kind": "program", "nd": ND, "bits": 8, "engines": N, "insts": spec,
             "rows": [[eng.index((l, m)) + 1, a, k, v if any(v) else []] for l, m, k, a, v in rows]}
    e.what = "%s engines, programs of %s instructions, %d inputs, %d results" % (nm, [len(p) for p in prog], n, outs)
    return e


def simulate(N, first, prog, mem, xs):
    st = [dict(k=0, acc={}, q=[], r=[]) for _ in range(N)]
    total = [[0, 0] for _ in range(N)]
    for d, v in enumerate(xs):
        st[d]["q"] = list(v)
        total[d][1] = len(v)
    outs = steps = 0
    go = True
    while go:
        go = False
        for b, s in enumerate(st):
            while True:
                i = prog[b][s["k"]]
                if not s["q"] or (i["reduce"] and not s["r"]):
                    break
                go = True
                steps += 1
                if steps > 900:
                    return None, steps, 0
                s["k"] = (s["k"] + 1) % len(prog[b])
                if i["release"]:
                    if i["dest"] < 0:
                        outs += 1
                    else:
                        total[i["dest"]][i["op"]] += 1
                        st[i["dest"]]["q" if i["op"] else "r"].append(0)
                if i["last"]:
                    s["q"].pop(0)
                if i["reduce"]:
                    s["r"].pop(0)
    return outs, steps, max(max(t) for t in total)


SPY = """
import json, os, runpy, sys
import numpy as np
out, seed, script = sys.argv[1], int(sys.argv[2]), sys.argv[3]
sys.argv = [script] + sys.argv[4:]
np.random.seed(seed)
drawn = []
real = np.random.randint
def randint(*a, **k):
    r = real(*a, **k)
    if getattr(r, "ndim", 0) == 2:
        drawn.append(r.tolist())
    return r
np.random.randint = randint
runpy.run_path(script, run_name="__main__")
json.dump(drawn, open(out, "w"))
"""


def compiled(rng, idx):
    """a test case as the example's own compiler makes it"""
    while True:
        L = rng.randint(1, 3)
        nm = [rng.randint(1, 2) for _ in range(L)]
        if sum(nm) + nm[0] + 3 <= ROUTERS:
            break
    dims = [rng.choice([64, 128, rng.randint(20, 190)]) for _ in range(L + 1)]
    tmp = os.path.join(vt.scratch(), "int8c%d" % idx, "compiler")
    os.makedirs(tmp)
    spy = os.path.join(tmp, "spy.py")
    open(spy, "w").write(SPY)
    script = os.path.join(RS, "example-designs/mlp_int8/compiler/gen_testcase.py")
    p = vt.sprun(["python3-vt", spy, "drawn.json", str(rng.randrange(1 << 30)), script, str(L)] + [str(x) for x in dims + nm], cwd=tmp,
                       capture_output=True, text=True, timeout=100, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if p.returncode:
        raise Broken("gen_testcase.py failed: " + p.stderr[-1000:])
    drawn = json.load(open(os.path.join(tmp, "drawn.json")))
    if [(len(d), len(d[0])) for d in drawn[:-1]] != [(dims[l + 1], dims[l]) for l in range(L)] or len(drawn[-1][0]) != dims[0]:
        vt.note("gen_testcase.py draws something else now, case left out")
        return None
    place = {x.split()[0]: int(x.split()[2]) for x in open(os.path.join(tmp, "../mlp.place")) if x.strip()}
    e = env(rng, "int8c%d" % idx, nm, place=place)
    read = lambda f: [[int(x) for x in line.split()] for line in open(os.path.join(tmp, f)) if line.strip()]
    rows = [(l, m, d, a, v) for l in range(L) for m in range(nm[l]) for d in range(ND) for a, v in enumerate(read("weight_mifs/layer%d_mvm%d_dot%d.mif" % (l, m, d)))]
    insts = [(l, m, i) for l in range(L) for m in range(nm[l]) for i in read("inst_mifs/layer%d_mvm%d.mif" % (l, m))]
    inputs = [read("input_mifs/inputs_mvm%d.mif" % d) for d in range(nm[0])]
    xs = drawn[-1]
    nb = -(-dims[0] // (ND * nm[0])) * nm[0]
    pad = lambda w, r, c: [row + [0] * (c - len(row)) for row in w] + [[0] * c for _ in range(r - len(w))]
    ws = []
    for l in range(L):
        k = ND * (nm[l + 1] if l < L - 1 else 1)
        ws.append(pad(drawn[l], -(-dims[l + 1] // k) * k, nb * ND if l == 0 else len(ws[-1])))
    blocks = len(ws[-1]) // ND
    write(rng, e, nm, rows, insts, inputs, blocks * len(xs))
    e.cfg = {"kind": "product", "ws": ws, "first": nm[0], "cols": nb, "nd": ND, "bits": 8, "blocks": blocks, "n": len(xs)}
    e.what = "compiled: engines %s, dimensions %s" % (nm, dims)
    return e


def trace(e, ev):
    return {"cfg": e.cfg, "ev": [{"e": "loaded"}] + ev}
