"""Inputs and expected results for the examples' test benches, and answers that are
right, or wrong in one place."""
import os
import bench

ND = {"mlp": 16, "mlp_int8": 64, "dlrm": 32, "dlrm_two_rad": 32}
COUNT = {"add": 3, "mult": 5}


def pace(rng):
    r = rng.choice(["1", "1", "10", "110", "0001", "".join(rng.choice("01") for _ in range(rng.randint(3, 17))) + "1"])
    g = rng.choice(["0", "0", "3", " ".join(str(rng.choice([0, 0, 1, 2, 9])) for _ in range(rng.randint(2, 7)))])
    return r, g


def scalar(rng, idx, d, how):
    r, g = pace(rng)
    return finish(bench.Env("b_%s%d" % (d, idx), d, dict(dim_x=[2], dim_y=[2]), stim=["%s %d\n%s\n%s\n" % (r, COUNT[d], g, how)]),
                  [{"kind": d, "n": COUNT[d], "in": {}, "gold": []}], "%s, %s" % (d, how))


def finish(e, devs, what):
    for d, s in zip(devs, e.stim):
        d["need"] = int(s.split()[1])
    e.cfg, e.what = {"devs": devs}, "%s (ready %s)" % (what, e.stim[0].split()[0])
    return e


# how a set of answers can differ from what is expected
WAYS = ["right", "right", "first element", "last element", "one element", "one bit", "sign", "first vector", "last vector", "swapped", "all", "shifted", "middle vector",
        "two cancel"]


def wrong(rng, gold, way, lo, hi):
    """answers that go wrong in the given way; None where that cannot be"""
    a = [list(v) for v in gold]
    n, w = len(a), len(a[0])

    def other(x):
        return rng.choice([y for y in (x + 1, x - 1, -x, x ^ 1, x ^ 64, lo, hi, 0) if y != x and lo <= y <= hi])
    j = rng.randrange(n)
    if way == "right":
        return a
    if way in ("first element", "last element", "one element", "one bit", "sign"):
        k = {"first element": 0, "last element": w - 1}.get(way, rng.randrange(w))
        x = a[j][k]
        a[j][k] = x ^ (1 << rng.randrange(hi.bit_length())) if way == "one bit" else -x if way == "sign" and x not in (0, lo) else other(x)
    elif way.endswith("vector"):
        j = {"f": 0, "l": n - 1, "m": n // 2}[way[0]]
        a[j] = [other(x) for x in a[j]]
    elif way == "swapped":
        if n < 2:
            return None
        i = rng.randrange(n - 1)
        a[i], a[i + 1] = a[i + 1], a[i]
    elif way == "all":
        a = [[other(x) for x in v] for v in a]
    elif way == "shifted":
        a[j] = a[j][1:] + a[j][:1]
    elif way == "two cancel":
        i, k = rng.sample(range(w), 2)
        if not (a[j][i] < hi and a[j][k] > lo):
            return None
        a[j][i] += 1
        a[j][k] -= 1
    return a if a != gold else None


def text(vs, tail=" "):
    return "".join(" ".join(map(str, v)) + tail + "\n" for v in vs)


def stims(rng, d, golds, ways, disp, lo, hi, total):
    """what the stand-ins answer; total: inputs a device takes before it may answer"""
    out, used = [], []
    for gold, way in zip(golds, ways):
        a = wrong(rng, gold, way, lo, hi)
        used.append(way if a is not None else "right")
        r, g = pace(rng)
        need = rng.choice([0, 1, total]) if d != "mlp_int8" else total
        out.append("%s %d %d\n%s\n%s" % (r, min(need, total), disp, g, text(a if a is not None else gold)))
    return out, used


def vec(rng, w, lo, hi):
    s = rng.randrange(4)
    return [rng.randint(lo, hi) if s < 2 else rng.choice([0, 0, 1, -1, lo, hi]) if s == 2 else 0 for _ in range(w)]


def mlp(rng, idx, d, way):
    w = ND[d]
    lo, hi = (-(1 << 31), (1 << 31) - 1) if d == "mlp" else (-128, 127)
    L = rng.randint(1, 3)
    nm = [rng.randint(1, 4) for _ in range(L)]
    n = rng.choice([1, 2, 3, 8, rng.randint(1, 40)])
    gold = [vec(rng, w, lo, hi) for _ in range(n)]
    ins = {"d%d" % k: [vec(rng, w, lo, hi) for _ in range(rng.choice([n, 2 * n, 1]))] for k in range(nm[0])}
    files = {"golden_outputs.mif": text(gold)}
    for k in range(nm[0]):
        files["input_mifs/inputs_mvm%d.mif" % k] = text(ins["d%d" % k])
    if d == "mlp":
        files["layer_mvm_config"] = " ".join(map(str, [L] + nm)) + " "
    else:
        sy = [rng.randint(0, m) for m in nm]
        files["layer_mvm_config"] = " ".join([str(L)] + ["%d,%d" % (s, m - s) for s, m in zip(sy, nm)]) + " "
        deep = rng.choice([1, 2, 3])
        for l in range(L):
            for m in range(nm[l]):
                for k in range(w):
                    ws = [vec(rng, w, lo, hi) for _ in range(rng.randint(1, deep))]
                    files["weight_mifs/layer%d_mvm%d_dot%d.mif" % (l, m, k)] = text(ws)
                    ins["w%d.%d.%d" % (l, m, k)] = [[i] + v for i, v in enumerate(ws)]
                p = [[rng.randrange(2), rng.randrange(512), rng.randrange(512), rng.randrange(512)] + [rng.randrange(2) for _ in range(4)] for _ in range(rng.randint(1, 20))]
                files["inst_mifs/layer%d_mvm%d.mif" % (l, m)] = text(p, "")
                ins["i%d.%d" % (l, m)] = p
    st, used = stims(rng, d, [gold], [way], nm[0], lo, hi, sum(map(len, ins.values())))
    e = bench.Env("b_%s%d" % (d, idx), d, dict(dim_x=[2], dim_y=[2]), interfaces=dict(max_axis_tdata_width=512, axis_tuser_width=75), stim=st)
    put(e, files)
    return finish(e, [dev("lists", ins, gold)], "%s, %d results of engines %s, %s" % (d, n, nm, used[0]))


def dev(kind, ins, gold):
    return {"kind": kind, "n": sum(map(len, ins.values())), "in": {k: [[str(x) for x in v] for v in vs] for k, vs in ins.items()}, "gold": [[str(x) for x in v] for v in gold]}


def put(e, files):
    for k, t in files.items():
        p = os.path.join(e.dir, "compiler", k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(t)


def dlrm(rng, idx, d, ways):
    w, rads = ND[d], len(ways)
    lo, hi = -32768, 32767
    k = rng.choice([1, 3, 26, 47])
    n = rng.choice([1, 2, 3, 8, rng.randint(1, 40)])
    gold = [vec(rng, w, lo, hi) for _ in range(n)]
    big = rng.choice([1 << 8, 1 << 31, 1 << 40, 1 << 63])
    ins = [([rng.randrange(big) for _ in range(k)], [rng.randrange(1, 35) for _ in range(k)], [rng.randrange(big) for _ in range(k)]) for _ in range(rng.choice([n, 1, n + 2]))]
    files = {"embedding_indecies.in": "%d %d\n" % (k, len(ins)) + "".join(text(q) for q in ins),
             "mlp.out": "%d\n" % n + text(gold), "feature_interaction.out": "1\n0 \n"}
    st, used = stims(rng, d, [gold] * rads, ways, 0, lo, hi, len(ins))
    two = dict(cluster=dict(cluster_topology="all-to-all", inter_rad_latency=100, inter_rad_bw=102.4, inter_rad_fifo_num_slots=1000),
               place="portal_inst 0 3 axis\n", clks="portal_inst 0 0\n") if rads > 1 else {}
    e = bench.Env("b_%s%d" % (d, idx), d, dict(dim_x=[2], dim_y=[2]), rads=rads, stim=st, **two)
    put(e, files)
    i = {"in": [list(c) + list(b) + list(x) for x, c, b in ins]}
    return finish(e, [dev("lists", i, gold) for _ in range(rads)], "%s, %d results, %d lookups of %d, %s" % (d, n, len(ins), k, "/".join(used)))


def npu(rng, idx, way):
    """4 threads of 2 cores; 40 lanes"""
    w, TH, CO = 40, 4, 2
    lo, hi = -(1 << 31), (1 << 31) - 1
    n = rng.choice([1, 2, 5, rng.randint(1, 12)])
    gold = [vec(rng, w, lo, hi) for _ in range(n)]
    xs = [vec(rng, w, -128, 127) for _ in range(rng.choice([n, 1, 2 * n]))]
    prog, lines = [], []
    for a in range(rng.choice([1, 2, 5, 20])):
        b = lambda k: [rng.randrange(1 << k) for _ in range(3)]
        mvu = [rng.randrange(2)] + b(9) + [rng.randrange(1 << 11), rng.randrange(1 << 10), rng.randrange(1 << 11), rng.randrange(1 << 11), rng.randrange(1 << 10)]
        ev = [rng.randrange(2), rng.randrange(2)] + b(9) + [rng.randrange(1 << 11), rng.randrange(4), rng.randrange(1 << 10)]
        mfu, got = [], []
        for _ in range(2):
            o, act, ad, mu = rng.randrange(2), rng.randrange(4), rng.randrange(8), rng.randrange(2)
            sz, ba, bm, bt, tag = rng.randrange(1 << 11), b(9), b(9), rng.randrange(4), rng.randrange(1 << 10)
            mfu.append([o, sz, act, ad] + ba + [mu] + bm + [bt, tag])
            got += [(o << 6) + (act << 4) + (ad << 1) + mu, sz] + ba + bm + [bt, tag]
        ld = [rng.randrange(2), rng.randrange(3), rng.randrange(1 << 11)]
        bt, res = rng.randrange(4), rng.randrange(2)
        lines += [mvu, ev] + mfu + [ld + [1, rng.randrange(7)] + b(9) + [1, 8 + rng.randrange(4)] + b(9) + [bt, res]]
        prog.append([a] + mvu + ev + got + ld + [bt, res])
    ins = {"program": prog, "start": [[0, len(prog)]]}
    for t in range(TH):
        for c in range(CO):
            ins["t%dc%d" % (t, c)] = xs
    bad = rng.randrange(TH)
    used, st = way, []
    for t in range(TH):
        a = [g * CO for g in gold]
        if t == bad:
            a = wrong(rng, a, way, lo, hi)
            if a is None:
                a, used = [g * CO for g in gold], "right"
        st.append([[t] + v for v in a])
    r, g = pace(rng)
    total = sum(map(len, ins.values()))
    s = "%s %d 0\n%s\n%s" % (r, rng.choice([len(prog) + 1, total]), g, text([x for q in st for x in q]))
    e = bench.Env("b_npu%d" % idx, "npu", dict(dim_x=[2], dim_y=[2]), interfaces=dict(max_axis_tdata_width=1024, axis_tuser_width=75), clk_periods=[5.0, 2.5], stim=[s])
    for k, v in (("instructions", lines), ("inputs", xs), ("outputs", gold)):
        os.makedirs(os.path.join(e.dir, "register_files"), exist_ok=True)
        open(os.path.join(e.dir, "register_files", k + ".txt"), "w").write(text(v, ""))
    return finish(e, [dev("npu", ins, [g * CO for g in gold])], "npu, %d instructions, %d inputs, %d results, %s in thread %d" % (len(prog), len(xs), n, used, bad))


def trace(e, evs):
    ev = []
    for r, v in enumerate(evs):
        for x in v:
            if x["e"] in ("in", "out"):
                y = dict(x, d=r + 1)
                if e.design in COUNT:
                    y["v"] = [int(z) if z.isdigit() else -1 for z in x["v"]]
                ev.append(y)
    good = sum(e.all.count(x) for x in ("SUCCESS", "Simulation PASSED", "Simulation succeeded"))
    bad = sum(e.all.count(x) for x in ("FAILURE", "Simulation FAILED", "Simulation failed"))
    ev.append({"e": "end", "rc": e.rc if isinstance(e.rc, int) else -999, "good": good, "bad": bad})
    return {"cfg": e.cfg, "ev": ev}
