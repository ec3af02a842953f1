"""Inputs, blockings and programs for the example accelerators, and their traces for
AccelTrace."""
import json, os, subprocess
import accel, vt
from vt import RS, Broken

ND = 16  # width of an engine


# ------------------------------------------------------------ adder, multiplier
def limbs(v):
    out = []
    while v:
        out.append(v % 4096)
        v //= 4096
    return out


def scalar(rng, idx, kind, rads=1):
    """one environment of the adder or multiplier; the same header for all"""
    k = 4
    ports = list(range(k * k))
    rng.shuffle(ports)
    per = rng.choice([[5.0], [5.0, 2.5], [5.0, 7.5], [5.0, 10.0], [5.0, 1.25]])
    unit = "adder_inst" if kind == "add" else "mult_inst"
    place = "%s 0 %d axis\nclient_inst 0 %d axis\n" % (unit, ports[0], ports[1])
    clks = "%s 0 %d\nclient_inst 0 0\n" % (unit, rng.randrange(len(per)))
    if rads > 1:
        place += "portal_inst 0 %d axis\n" % (ports[2])
        clks += "portal_inst 0 0\n"
    seqs, stim = [], []
    for r in range(rads):
        n = rng.choice([1, 2, 3, 5, 16, 17, 18, 33, rng.randint(2, 60), rng.randint(2, 60), rng.choice([60, 330, 600])])
        room, top = 1 << 128, 122 if n < 64 else 118
        vs = []
        style = rng.randrange(5)
        if kind == "add":
            for i in range(n):
                v = [rng.randrange(10), rng.randrange(1 << 32), rng.getrandbits(64), (1 << rng.randrange(top)) - rng.randrange(2), rng.getrandbits(top)][style]
                vs.append(v)
            if style == 4 and n > 1 and rng.random() < .5:
                vs = vs[:8]
                vs[-1] = (1 << 128) - 1 - sum(vs[:-1])  # exactly the largest sum there is
        else:
            p = 1
            for i in range(n):
                b = max(1, 128 - p.bit_length())
                w = [4, 8, 63, 127, 16][style]
                v = rng.getrandbits(min(b, rng.randint(1, w)))
                if p * v >= room:
                    v = 1
                if v == 0 and rng.random() < .95:
                    v = 1
                vs.append(v)
                p = max(1, p * v)
            rng.shuffle(vs)
        gap = rng.choice([0, 0, 2, 30])
        seqs.append(vs)
        stim.append("%d %d %d\n" % (rng.randint(1, 6), 120, 900) + "".join("%d %x\n" % (rng.randint(0, gap), v) for v in vs))
    nocp = dict(dim_x=[k], dim_y=[k], vcs=[5], num_packet_types=[5], topology=["mesh"], payload_width=[166],
                vc_buffer_size=[rng.choice([4, 8])], routing_delay=[rng.randint(0, 2)])
    e = accel.Env("%s%d" % (kind, idx), kind, nocp, clk_periods=per, rads=rads, place=place, clks=clks, stim=stim)
    e.seqs = seqs
    return e


def scalar_traces(e, evs):
    out = []
    for r, ev in enumerate(evs):
        t = [dict(x, v=limbs(int(x["v"], 16))) if "v" in x else x for x in ev]
        out.append({"cfg": {"kind": e.design, "want": [limbs(v) for v in e.seqs[r]]}, "ev": t})
    return out


# ------------------------------------------------------------ engines
def write(e, nm, prog, mem, inputs):
    """instruction, weight and input files; mem[l][m] is a list of ND x ND matrices"""
    c = os.path.join(e.dir, "compiler")
    for x in ("weight_mifs", "inst_mifs", "input_mifs"):
        os.makedirs(os.path.join(c, x), exist_ok=True)
    open(os.path.join(c, "layer_mvm_config"), "w").write(" ".join(map(str, [len(nm)] + nm)) + " ")
    for l in range(len(nm)):
        for m in range(nm[l]):
            b = "layer%d_mvm%d" % (l, m)
            for d in range(ND):
                open(os.path.join(c, "weight_mifs", "%s_dot%d.mif" % (b, d)), "w").write(
                    "".join(" ".join(map(str, w[d])) + " \n" for w in mem[l][m]))
            open(os.path.join(c, "inst_mifs", b + ".mif"), "w").write("".join(" ".join(map(str, i)) + "\n" for i in prog[l][m]))
    for d in range(nm[0]):
        open(os.path.join(c, "input_mifs", "inputs_mvm%d.mif" % d), "w").write("".join(" ".join(map(str, v)) + " \n" for v in inputs[d]))


def layout(rng, nm, per):
    names = ["layer%d_mvm%d" % (l, m) for l in range(len(nm)) for m in range(nm[l])] + ["input_dispatcher%d" % m for m in range(nm[0])] + ["output_collector"]
    k = 4
    nodes = rng.sample(range(k * k), len(names))
    place = "".join("%s 0 %d axis\n" % x for x in zip(names, nodes))
    clks = "".join("%s 0 %d\n" % (n, rng.randrange(len(per)) if n.startswith("layer") else 0) for n in names)
    return k, place, clks


IFC = dict(max_axis_tdata_width=512, axis_tuser_width=75)


def mlp_env(rng, tag, nm, expect, per=None, hold=None):
    per = per or rng.choice([[5.0], [5.0, 2.5], [5.0, 7.5], [5.0, 4.0]])
    k, place, clks = layout(rng, nm, per)
    nocp = dict(dim_x=[k], dim_y=[k], vcs=[1], num_packet_types=[1], payload_width=[145], vc_buffer_size=[rng.choice([8, 12])], routing_delay=[rng.randint(0, 2)])
    stim = "%d %d %d 100 100 1 %d\n" % (expect, 300, 4000, hold) if hold is not None else "%d %d %d %d %d %d\n" % (expect, 300, 4000, rng.choice([100, 100, 60, 15]), rng.choice([100, 100, 50, 10]), rng.randrange(1 << 31))
    return accel.Env(tag, "mlp", nocp, interfaces=IFC, clk_periods=per, place=place, clks=clks, stim=[stim])


def bounded(ws, xs):
    """largest partial sum that can turn up on the way"""
    top = 0
    for x in xs:
        v = [abs(a) for a in x]
        for w in ws:
            v = [sum(abs(a) * b for a, b in zip(r, v)) for r in w]
            top = max([top] + v)
    return top


def engine_programs(rng, nm, nb, own, ws, nd):
    """programs and matrix memories of engines that hold the given blocks"""
    L = len(nm)
    prog, mem = [], []
    for l in range(L):
        prog.append([])
        mem.append([])
        for m in range(nm[l]):
            cols = [i for i in range(nb[l]) if own[l][i] == m]
            ms, ps = [], []
            limy = nb[l + 1]
            perm = list(range(len(cols) * limy))
            if rng.random() < .5:
                rng.shuffle(perm)
            ms = [None] * len(perm)
            red_at = rng.choice(["first", "last"]) if rng.random() < .3 else "last"
            for a, i in enumerate(cols):
                for j in range(limy):
                    ms[perm[a * limy + j]] = [[ws[l][j * nd + d][i * nd + e] for e in range(nd)] for d in range(nd)]
                    if m < nm[l] - 1:
                        dl, dm = l + 1, m + 1
                    elif l == L - 1:
                        dl, dm = 0, 0
                    else:
                        dl, dm = l + 2, own[l + 1][j]
                    red = m > 0 and a == (len(cols) - 1 if red_at == "last" else 0)
                    ps.append([1, 0, int(red), j, int(a > 0), int(a == len(cols) - 1), perm[a * limy + j], int(j == limy - 1), dl, dm])
            ps.append([1, 1, 0, 0, 0, 0, 0, 0, 0, 0])
            prog[l].append(ps)
            mem[l].append(ms)
    return prog, mem


def blocked(rng, idx):
    """a perceptron blocked over engines in any way: which engine holds which columns is
    drawn at random"""
    while True:
        L = rng.choice([1, 1, 2, 2, 3])
        nm = [rng.randint(1, 4) for _ in range(L)]
        if sum(nm) + nm[0] + 1 <= 16:
            break
    nb = [rng.randint(nm[l], nm[l] + 3) for l in range(L)] + [rng.randint(1, 4)]  # blocks of columns per layer; rows of the last
    style = rng.randrange(4)
    mag = [2, 9, 100, 3][style]
    ws = []
    for l in range(L):
        ws.append([[rng.randint(-mag, mag) if rng.random() < [1, 1, .5, .1][style] else 0 for _ in range(nb[l] * ND)] for _ in range(nb[l + 1] * ND)])
    if rng.random() < .5:  # results that are all zero
        z = rng.randrange(nb[L])
        for i in range(z * ND, (z + 1) * ND):
            ws[L - 1][i] = [0] * len(ws[L - 1][i])
    n = rng.randint(1, 4)
    xs = [[rng.randint(-mag, mag) for _ in range(nb[0] * ND)] for _ in range(n)]
    top = bounded(ws, xs)
    if top >= 1 << 30:
        ws = [[[max(-1, min(1, a)) for a in r] for r in w] for w in ws]
        xs = [[max(-2, min(2, a)) for a in x] for x in xs]
    else:  # the largest inputs that fit
        f = rng.choice([1, ((1 << 30) // max(1, top))])
        xs = [[a * f for a in x] for x in xs]
    own = []
    for l in range(L):
        o = list(range(nm[l])) + [rng.randrange(nm[l]) for _ in range(nb[l] - nm[l])]
        rng.shuffle(o)
        if rng.random() < .4:
            o = [i % nm[l] for i in range(nb[l])]
        own.append(o)
    prog, mem = engine_programs(rng, nm, nb, own, ws, ND)
    inputs = [[x[i * ND:(i + 1) * ND] for x in xs for i in range(nb[0]) if own[0][i] == d] for d in range(nm[0])]
    e = mlp_env(rng, "mlpb%d" % idx, nm, n * nb[L])
    write(e, nm, prog, mem, inputs)
    e.cfg = {"kind": "product", "ws": ws, "own": [o + 1 for o in own[0]], "nd": ND, "rows": nb[L], "n": n}
    e.what = "engines %s, blocks %s, %d inputs" % (nm, nb, n)
    return e


def flood(rng, idx, style):
    """one engine and more results (or inputs) than its queues hold"""
    if style == "in":  # a slow engine
        nb, n, per, hold = [8, 8], 200, [5.0, 20.0], 0
    else:
        nb, n, per, hold = [1, 7], 250 if style == "out" else 400, [5.0], 0 if style == "out" else 20000
    mag = 3
    ws = [[[rng.randint(-mag, mag) if rng.random() < .5 else 0 for _ in range(nb[0] * ND)] for _ in range(nb[1] * ND)]]
    xs = [[rng.randint(-mag, mag) for _ in range(nb[0] * ND)] for _ in range(n)]
    own = [[0] * nb[0]]
    prog, mem = engine_programs(rng, [1], nb, own, ws, ND)
    e = mlp_env(rng, "mlpf%d" % idx, [1], n * nb[1], per, hold)
    if style == "in":
        p = os.path.join(e.dir, "mlp.clks")
        t = "".join(l.rsplit(" ", 1)[0] + (" 1\n" if l.startswith("layer") else " 0\n") for l in open(p).read().splitlines())
        open(p, "w").write(t)
    write(e, [1], prog, mem, [[x[i * ND:(i + 1) * ND] for x in xs for i in range(nb[0])]])
    e.cfg = {"kind": "product", "ws": ws, "own": [1] * nb[0], "nd": ND, "rows": nb[1], "n": n}
    e.what = "flood (%s)" % style
    return e


def twin(rng, i, wrote, used, dests):
    """an instruction that differs from i in one field"""
    j = list(i)
    f = rng.choice([2, 3, 4, 5, 6, 7, 9, 9]) if len(dests) > 1 else rng.choice([3, 4, 5, 6, 7])
    if f == 2 and j[2] == 0 and not dests[0][2]:
        f = 5
    if f == 3:
        j[3] = rng.choice(sorted(wrote))
    elif f == 4:
        j[4] = 1 - j[4] if j[3] in wrote else 0
    elif f == 6:
        j[6] = rng.choice(used)
    elif f == 9:
        j[8], j[9] = rng.choice(dests)[:2]
    else:
        j[f] = 1 - j[f]
    return j


def program(rng, idx):
    """engines running programs of any shape"""
    L = rng.choice([1, 1, 2])
    nm = [rng.randint(1, 3) for _ in range(L)]
    n = rng.randint(2, 8)
    prog, mem = [], []
    for l in range(L):
        prog.append([])
        mem.append([])
        for m in range(nm[l]):
            k = rng.choice([rng.randint(1, 6), rng.randint(1, 6), rng.randint(1, 6), 300])
            used = range(k) if k < 300 else [rng.randrange(k) for _ in range(3)] + [rng.randrange(256, k)]
            far = rng.choice([64, 128, 256, 512, 1024])
            mem[l].append([[[rng.randint(-3, 3) if rng.random() < .4 else 0 for _ in range(ND)] if i in used else [0] * ND for _ in range(ND)] for i in range(k)])
            ps, wrote = [], set()
            size = rng.randint(1, 10)
            for i in range(size):
                acc = rng.choice([0, 1, 2, far, far + 1, rng.randrange(2048)])
                en = acc in wrote and rng.random() < .6
                wrote.add(acc)
                if m < nm[l] - 1:
                    d = (l + 1, m + 1)
                elif l == L - 1:
                    d = (0, 0)
                else:
                    d = (l + 2, rng.randrange(nm[l + 1]))
                    dests = [(l + 2, x, m > 0) for x in range(nm[l + 1])]
                red = m > 0 and rng.random() < .5
                ps.append([1, 0, int(red), acc, int(en), int(rng.random() < .6), rng.choice(used), int(rng.random() < .5 or i == size - 1), d[0], d[1]])
                if rng.random() < .35:
                    if l == L - 1 or m < nm[l] - 1:
                        dests = [d + (m > 0,)]
                    ps.append(twin(rng, ps[-1], wrote, used, dests))
                    wrote.add(ps[-1][3])
            ps[-1][7] = 1
            size = len(ps)
            back = rng.randrange(size) if rng.random() < .5 else 0
            # what is accumulated has to have been written, also the second time round
            ps.append([1, 1, 0, 0, 0, 0, back, 0, 0, 0])
            if rng.random() < .3:
                j = rng.randrange(1, size + 1)  # a jump over nothing
                ps.insert(j, [1, 1, 0, 0, 0, 0, j + 1, 0, 0, 0])
                if ps[-1][6] >= j:
                    ps[-1][6] += 1
            prog[l].append(ps)
    inputs = [[[rng.randint(-4, 4) for _ in range(ND)] for _ in range(n)] for _ in range(nm[0])]
    # a program that keeps adding up soon leaves the data type: the expected results are
    # computed here only to keep to programs that do not
    big, outs, steps = simulate(nm, prog, [[[w for w in m] for m in l] for l in mem], inputs)
    if big >= 1 << 30 or steps > 400 or outs > 300:
        return program(rng, idx)
    e = mlp_env(rng, "mlpp%d" % idx, nm, outs)
    write(e, nm, prog, mem, inputs)
    pr = [[[dict(zip(("en", "jump", "reduce", "accum", "accum_en", "release", "raddr", "last", "dl", "dm"), i)) for i in p] for p in l] for l in prog]
    e.cfg = {"kind": "program", "prog": pr, "mem": mem, "n": n}
    e.what = "programs of %s instructions" % [[len(p) for p in l] for l in prog]
    return e


def simulate(nm, prog, mem, inputs):
    st = {(l, m): dict(pc=0, acc={}, q=[], r=[]) for l in range(len(nm)) for m in range(nm[l])}
    for d, v in enumerate(inputs):
        st[0, d]["q"] = [list(x) for x in v]
    big = outs = steps = 0
    go = True
    while go and steps < 2000 and big < 1 << 30:
        go = False
        for (l, m), s in st.items():
            i = prog[l][m][s["pc"]]
            if i[1]:
                s["pc"] = i[6]
                i = prog[l][m][s["pc"]]
                if i[1]:
                    go = True
                    continue
            if not s["q"] or (i[2] and not s["r"]):
                continue
            go = True
            steps += 1
            w = mem[l][m][i[6]]
            v = [sum(a * b for a, b in zip(r, s["q"][0])) for r in w]
            big = max([big] + [sum(abs(a * b) for a, b in zip(r, s["q"][0])) for r in w])
            if i[2]:
                v = [a + b for a, b in zip(v, s["r"].pop(0))]
            if i[4]:
                v = [a + b for a, b in zip(v, s["acc"][i[3]])]
            big = max([big] + [abs(a) for a in v])
            s["acc"][i[3]] = v
            if i[5]:
                if i[8] == 0:
                    outs += 1
                else:
                    st[i[8] - 1, i[9]]["r" if i[8] - 1 == l else "q"].append(v)
            if i[7]:
                s["q"].pop(0)
            s["pc"] += 1
    return big, outs, steps


SPY = """
import json, os, runpy, sys
import numpy as np
out, seed, script = sys.argv[1], int(sys.argv[2]), sys.argv[3]
sys.argv = [script] + sys.argv[4:]
np.random.seed(seed)
drawn = []
real = np.random.randint
def randint(*a, **k):
    r = real(*a, **k)
    if getattr(r, "ndim", 0) == 2:
        drawn.append(r.tolist())
    return r
np.random.randint = randint
runpy.run_path(script, run_name="__main__")
json.dump(drawn, open(out, "w"))
"""


def compiled(rng, idx):
    """a test case as the example's own compiler makes it"""
    while True:
        L = rng.randint(1, 4)
        nm = [rng.randint(1, 3) for _ in range(L)]
        if sum(nm) + nm[0] + 1 <= 16:
            break
    dims = [rng.choice([16, 24, 32, 40, 48, 64, rng.randint(5, 64)]) for _ in range(L + 1)]
    e = mlp_env(rng, "mlpc%d" % idx, nm, 0)
    c = os.path.join(e.dir, "compiler")
    os.makedirs(c)
    script = os.path.join(RS, "example-designs/mlp/compiler/gen_testcase.py")
    spy = os.path.join(c, "spy.py")
    open(spy, "w").write(SPY)
    p = vt.sprun(["python3-vt", spy, "drawn.json", str(rng.randrange(1 << 30)), script, str(L)] + [str(x) for x in dims + nm], cwd=c, capture_output=True,
                       text=True, timeout=100, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if p.returncode:
        raise Broken("gen_testcase.py failed: " + p.stderr[-1000:])
    drawn = json.load(open(os.path.join(c, "drawn.json")))
    if [(len(d), len(d[0])) for d in drawn[:-1]] != [(dims[l + 1], dims[l]) for l in range(L)] or len(drawn[-1][0]) != dims[0]:
        vt.note("gen_testcase.py draws something else now, case left out")
        return None
    xs = drawn[-1]
    clk = "mlp.clks"
    txt = open(os.path.join(e.dir, clk)).read().split("\n")
    rows = -(-dims[-1] // ND)
    rows = -(-rows // nm[0]) * nm[0]
    open(os.path.join(e.root, "accel0.txt"), "w").write("%d %d %d 100 100 1\n" % (rows * len(xs), 300, 4000))
    nb = -(-dims[0] // (ND * nm[0])) * nm[0]
    pad = lambda w, r, c: [row + [0] * (c - len(row)) for row in w] + [[0] * c for _ in range(r - len(w))]
    ws = []
    for l in range(L):
        r = rows * ND if l == L - 1 else -(-dims[l + 1] // (ND * nm[l + 1])) * nm[l + 1] * ND
        cc = nb * ND if l == 0 else len(ws[-1])
        ws.append(pad(drawn[l], r, cc))
    e.cfg = {"kind": "product", "ws": ws, "own": [i % nm[0] + 1 for i in range(nb)], "nd": ND, "rows": rows, "n": len(xs)}
    e.what = "compiled: engines %s, dimensions %s" % (nm, dims)
    # the files the compiler wrote hold the same inputs
    e.files = {"xs": [x + [0] * (nb * ND - len(x)) for x in xs]}
    return e


def mlp_trace(e, ev):
    return {"cfg": e.cfg, "ev": ev}
