"""Tables, gather programs and weights for the recommendation-model example."""
import json, os, re, shutil, subprocess
import accel, vt
from gen_accel import bounded, engine_programs
from vt import RS, Broken

ND = 32
CH = [1, 1, 8, 8]
NCH = sum(CH)
MEM = dict(num_controllers=4, clk_periods=[3.32, 3.32, 2.0, 2.0], queue_sizes=[64] * 4,
           config_files=["DDR4_8Gb_x16_2400"] * 2 + ["HBM2_8Gb_x128"] * 2)
FI = "feature_interaction_inst"


def ports(nm):
    mm = ["ext_mem_%d.mem_channel_%d" % (c, k) for c in range(4) for k in range(CH[c])]
    for p in ("embedding_lookup_inst.aximm_req_interface_", FI + ".aximm_interface_"):
        mm += [p + str(i) for i in range(NCH)]
    mv = ["layer%d_mvm%d" % (l, m) for l in range(len(nm)) for m in range(nm[l])]
    return mm, mv


def env(rng, tag, nm, expect, two=False):
    design = "dlrm_two_rad" if two else "dlrm"
    mm, mv = ports(nm)
    k = rng.choice([8, 9, 10]) if len(mm) + len(mv) + 3 <= 64 else 10
    ns = rng.sample(range(k * k), len(mm) + len(mv) + 3)
    place = "".join("%s 0 %d aximm\n" % x for x in zip(mm, ns))
    ax = mv + ["output_collector"] + (["portal_inst"] if two else [])
    place += "".join("%s.axis_interface_%d 0 %d axis\n" % (FI, i, ns[-1]) for i in range(nm[0]))
    place += "".join("%s 0 %d axis\n" % x for x in zip(ax, ns[len(mm):]))
    # engines of a layer are wired to each other and share a clock
    eng = rng.choice([[0], [3], [0, 1, 2, 3]])
    eng = [rng.choice(eng) for _ in nm]
    clk = {"embedding_lookup_inst": 0, "output_collector": 0, "portal_inst": 0, FI: rng.choice([0, 0, 0, 1, 2, 3])}
    clks = "".join("%s 0 %d\n" % (n, c) for n, c in clk.items() if two or n != "portal_inst")
    clks += "".join("ext_mem_%d 0 %d\n" % (i, [2, 2, 1, 1][i]) for i in range(4)) + "".join("%s 0 %d\n" % (n, eng[int(n[5:n.index("_")])]) for n in mv)
    nocp = dict(dim_x=[k], dim_y=[k], vcs=[5], num_packet_types=[5], payload_width=[82], vc_buffer_size=[16], output_buffer_size=[8], routing_delay=[rng.randint(1, 2)])
    pace = lambda: rng.choice([100, 100, 60, 15])
    l = lambda role: "%d %d %d %d %d %d %d\n" % (role, expect if role & 2 else 0, 400, 6000, pace(), pace(), rng.randrange(1 << 31))
    cl = dict(cluster_topology="all-to-all", inter_rad_latency=rng.choice([100, 500, 2100]), inter_rad_bw=102.4, inter_rad_fifo_num_slots=1000)
    return accel.Env(tag, design, nocp, clk_periods=[5.0, 2.0, 3.32, 1.5], rads=2 if two else 1, place=place, clks=clks,
                     stim=[l(1), l(2)] if two else [l(3)], dram=MEM, cluster=cl, adapters=dict(fifo_size=[16], obuff_size=[2]))


def dirs(e):
    c = os.path.join(e.dir, "compiler")
    for x in ("mvm_weights", "instructions", "embedding_tables"):
        os.makedirs(os.path.join(c, x), exist_ok=True)
    return c


def word(v):
    return "".join(format(x & 0xffff, "016b") for x in reversed(v + [0] * (ND - len(v))))


def write(e, nm, prog, mem, gather, tables, lookups):
    """gather[i] = [[queue, first, last, pop], ...]; tables[c] = {address: vector};
    lookups[i] = [(channel, base, index), ...]"""
    c = dirs(e)
    open(os.path.join(c, "mvms.config"), "w").write(" ".join(map(str, [len(nm)] + nm)) + " ")
    with open(os.path.join(c, "embedding_indecies.in"), "w") as f:
        f.write("%d %d\n" % (len(lookups[0]), len(lookups)))
        for q in lookups:
            for k in (2, 0, 1):
                f.write("".join("%d " % x[k] for x in q) + "\n")
    for ch in range(NCH):
        open(os.path.join(c, "embedding_tables", "channel_%d.dat" % ch), "w").write("".join("%d %s\n" % (a, word(v)) for a, v in tables[ch].items()))
    open(os.path.join(c, "instructions", "feature_interaction.inst"), "w").write("".join(" ".join(str(y) for s in g for y in s) + " \n" for g in gather))
    for l in range(len(nm)):
        for m in range(nm[l]):
            b = "layer%d_mvm%d" % (l, m)
            for d in range(ND):
                open(os.path.join(c, "mvm_weights", "%s_dot%d.dat" % (b, d)), "w").write("".join(" ".join(map(str, w[d])) + " \n" for w in mem[l][m]))
            open(os.path.join(c, "instructions", b + ".inst"), "w").write("".join(" ".join(map(str, i)) + "\n" for i in prog[l][m]))


def packed(lens, chans, nb, pop2):
    """the vectors of an input one after the other in nb words, zeros after the last"""
    gather, cur, room = [], [], ND

    def step(f, a, b, pop):
        nonlocal cur, room
        cur.append([f, a, b, int(pop)])
        room -= b - a + 1
        if room == 0:
            gather.append(cur)
            cur, room = [], ND

    for n, c in zip(lens, chans):
        # a queue is popped once at most by an instruction, unless pop2
        if not pop2 and any(s[0] == c + 1 and s[3] for s in cur):
            step(0, 0, room - 1, 0)
        k = min(n, room)
        step(c + 1, 0, k - 1, k == n)
        if k < n:
            step(c + 1, k, n - 1, True)
    if cur:
        step(0, 0, room - 1, 0)
    while len(gather) < nb:
        gather.append([[0, 0, ND - 1, 0]])
    return gather


def free(rng, chans, nb):
    """any slices of the vectors, in any order that leaves every queue where it was"""
    order = {}
    left = list(chans)
    gather = []
    for w in range(nb):
        cur, room, popped = [], ND, set()
        while room:
            n = min(room, rng.choice([1, 2, 5, 16, 32, rng.randint(1, ND)]))
            av = [c for c in set(left) if c not in popped]
            if not av or rng.random() < .15:
                cur.append([0, 0, n - 1, 0])
            else:
                c = rng.choice(av)
                a = rng.randrange(ND - n + 1)
                pop = rng.random() < max(.3, len(left) / (2. * (nb - w)))
                if pop:
                    popped.add(c)
                    left.remove(c)
                cur.append([c + 1, a, a + n - 1, int(pop)])
            room -= n
        gather.append(cur)
    if left:  # what is left over is dropped with the last words
        for n in range(-(-max(left.count(c) for c in set(left)) // 1)):
            cs = sorted(set(left))
            for c in cs:
                left.remove(c)
            for a in range(0, len(cs), ND):
                cur = [[c + 1, 0, 0, 1] for c in cs[a:a + ND]]
                if len(cur) < ND:
                    cur.append([0, 0, ND - len(cur) - 1, 0])
                gather.append(cur)
    return gather


def case(rng, idx, two=False):
    L = rng.choice([1, 2, 2, 3])
    nm = [rng.randint(1, 3) for _ in range(L)]
    style = rng.randrange(3)
    nt = rng.choice([1, 4, 8, 18, 24, rng.randint(1, 40)])
    pool = rng.choice([list(range(NCH)), rng.sample(range(NCH), rng.randint(1, 6))])
    chans = [i % NCH for i in range(nt)] if rng.random() < .4 else [rng.choice(pool) for _ in range(nt)]
    # not more of a channel than the queues on the way hold
    chans = [c for i, c in enumerate(chans) if chans[:i].count(c) < 8]
    nt = len(chans)
    if style < 2:
        lens = [rng.choice([4, 8, 16, 32, rng.randint(1, 32)]) if style else 4 for _ in range(nt)]
        gather = packed(lens, chans, 1, rng.random() < .5)
    else:
        lens = [ND] * nt
        gather = free(rng, chans, rng.randint(1, 4))
    while len(gather) % nm[0] or len(gather) > 60:
        gather.append([[0, 0, ND - 1, 0]])
    nb = [len(gather)] + [rng.randint(nm[l], nm[l] + 1) for l in range(1, L)] + [rng.randint(1, 3)]
    n = rng.choice([1, 2, 3, 3, 6])
    big = rng.random() < .3
    hi = 0x7fff if big else 9
    tables = [{} for _ in range(NCH)]
    lookups = []
    for i in range(n):
        q = []
        for j, c in enumerate(chans):
            top = (1 << 28 if c >= 2 else 1 << 32) // 64
            if i and rng.random() < .2:
                a = rng.choice(list(tables[c]))
            else:
                a = 64 * rng.choice([rng.randrange(200), rng.randrange(top), top - 1 - rng.randrange(3)])
            if a not in tables[c]:
                tables[c][a] = [rng.randint(-hi - int(big), hi) for _ in range(lens[j])]
            b = 64 * rng.randrange(a // 64 + 1)
            q.append((c, b, a - b))
        lookups.append(q)
    full = [{a: v + [0] * (ND - len(v)) for a, v in t.items()} for t in tables]
    mag = rng.choice([1, 2, 5])
    while True:
        dens = rng.choice([1, .5, .1])
        ws = []
        for l in range(L):
            w = [[0] * (nb[l] * ND) for _ in range(nb[l + 1] * ND)]
            for row in w:
                if big:  # one element passes through
                    row[rng.randrange(len(row))] = rng.choice([1, 1, -1])
                else:
                    for _ in range(rng.randint(0, max(1, int(dens * len(row))))):
                        row[rng.randrange(len(row))] = rng.randint(-mag, mag)
            ws.append(w)
        xs = [gathered(gather, full, q) for q in lookups]
        if big and any(-32768 in x for x in xs):
            for w in ws:
                for row in w:
                    row[:] = [abs(a) for a in row]
        if big or bounded(ws, xs) < 1 << 15:
            break
        mag = max(1, mag - 1)
        hi = max(1, hi // 2)
        for t in list(tables):
            for v in t.values():
                v[:] = [max(-hi, min(hi, a)) for a in v]
        full = [{a: v + [0] * (ND - len(v)) for a, v in t.items()} for t in tables]
    own = [[i % nm[0] for i in range(nb[0])]]
    for l in range(1, L):
        o = list(range(nm[l])) + [rng.randrange(nm[l]) for _ in range(nb[l] - nm[l])]
        rng.shuffle(o)
        own.append(o)
    prog, mem = engine_programs(rng, nm, nb, own, ws, ND)
    if max(len(p) for l in prog for p in l) > 512 or max(nb[1:]) > 64:
        return case(rng, idx, two)
    e = env(rng, "dlrm%s%d" % ("t" if two else "", idx), nm, n * nb[L], two)
    write(e, nm, prog, mem, gather, tables, lookups)
    e.cfg = config(gather, full, ws, nb[L], n)
    e.what = "%d tables on %d channels, %d words, engines %s, %d inputs%s" % (nt, len(set(chans)), len(gather), nm, n, ", two devices" if two else "")
    return e


def config(gather, full, ws, rows, n):
    return {"gather": [[dict(zip(("f", "lo", "hi", "pop"), s)) for s in g] for g in gather], "ws": ws, "nd": ND, "rows": rows, "n": n,
            "mem": [{str(a): v for a, v in t.items()} for t in full], "nch": NCH}


def gathered(gather, full, q):
    fs = [[] for _ in range(NCH)]
    for c, b, i in q:
        fs[c].append(full[c][b + i])
    x = []
    for g in gather:
        for f, a, b, pop in g:
            x += [0] * (b - a + 1) if f == 0 else fs[f - 1][0][a:b + 1]
            if pop:
                fs[f - 1].pop(0)
    return x


SPY = """
import json, random, runpy, sys
import numpy as np
out, seed, script = sys.argv[1], int(sys.argv[2]), sys.argv[3]
sys.argv = [script] + sys.argv[4:]
np.random.seed(seed)
random.seed(seed)
g = runpy.run_path(script, run_name="__main__")
j = lambda a: [[int(x) for x in r] for r in a]
json.dump({"ws": [j(w) for w in g["padded_weights"]], "ch": j(g["test_input_target_ch"]), "base": j(g["test_input_base_addr"]), "idx": j(g["test_input_data"]),
           "mem": [{str(int(a)): [int(x) for x in v] for a, v in c.items()} for c in g["mem_contents_per_channel"]],
           "nm": g["num_mvms"], "dims": g["hidden_dims"], "in": int(g["input_dim"])}, open(out, "w"))
"""


def compiled(rng, idx, two=False):
    """a model as the example's own compiler lays it out"""
    d = os.path.join(vt.scratch(), "dlrmc%d" % idx)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "modules"))
    c = os.path.join(d, "compiler")
    src = os.path.join(RS, "example-designs/dlrm/compiler")
    os.makedirs(c)
    t = open(os.path.join(src, "dlrm.py")).read()
    nm = [rng.randint(1, 4), rng.randint(1, 2), rng.randint(1, 2)]
    hd = [rng.choice([64, 128, 100, 192]), rng.choice([32, 64, 90]), rng.choice([32, 64, 20])]
    t = re.sub(r"(?m)^hidden_dims = .*$", "hidden_dims = %s" % hd, t)
    t = re.sub(r"(?m)^num_mvms = .*$", "num_mvms = %s" % nm, t)
    open(os.path.join(c, "dlrm.py"), "w").write(t)
    open(os.path.join(c, "spy.py"), "w").write(SPY)
    ln = rng.choice([4, 4, 8, 16, 32])
    nt = ND // ln * rng.randint(1, 5)
    with open(os.path.join(c, "model.csv"), "w") as f:
        f.write("# Vector Elements, Table Entries\n" + "".join("%d,%d\n" % (ln, rng.choice([100, 1000, rng.randint(10, 100000)])) for _ in range(nt)))
    n = rng.randint(1, 4)
    p = vt.sprun(["python3-vt", "spy.py", "drawn.json", str(rng.randrange(1 << 30)), "dlrm.py", "-n", str(n), "-m", "model.csv"], cwd=c, capture_output=True,
                       text=True, timeout=200, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
    if p.returncode:
        raise Broken("dlrm.py failed: " + p.stderr[-1000:])
    g = json.load(open(os.path.join(c, "drawn.json")))
    nm = g["nm"]
    rows = len(g["ws"][-1]) // ND
    e = env(rng, "dlrmc%d" % idx, nm, rows * n, two)
    k = dirs(e)
    for x in ("mvm_weights", "instructions", "embedding_tables", "mvms.config", "embedding_indecies.in"):
        s = os.path.join(c, x)
        (shutil.copytree(s, os.path.join(k, x), dirs_exist_ok=True) if os.path.isdir(s) else shutil.copy(s, k))
    nb = len(g["ws"][0][0]) // ND
    gather = packed([ln] * nt, g["ch"][0], nb, True)
    full = [{a: v + [0] * (ND - len(v)) for a, v in m.items()} for m in g["mem"]]
    # what is looked up has to be what the script says
    e.cfg = config(gather, full, g["ws"], rows, n)
    e.cfg["want"] = [[[ch + 1, str(b + i)] for ch, b, i in zip(*q)] for q in zip(g["ch"], g["base"], g["idx"])]
    e.what = "compiled: %d tables of %d elements, engines %s, dimensions %s, %d inputs" % (nt, ln, nm, g["dims"], n)
    shutil.rmtree(d)
    return e


def trace(e, evs):
    """the records of all devices in the order of time, inputs first"""
    ev = [x for v in evs for x in v]
    ends = [x for x in ev if x["e"] not in ("in", "out")]
    ev = sorted([x for x in ev if x["e"] in ("in", "out")], key=lambda x: (x["t"], x["e"] != "in"))
    bad = [x for x in ends if x["e"] != "end"]
    return {"cfg": e.cfg, "ev": ev + (bad or ends)[-1:]}
