"""Networks whose routes are followed (harness fabric.cpp, `walk`), for RoutesTrace.tla and DepsTrace.tla."""
import json
import fabric, gen_fabric as g

SINGLE = {"dim_order", "dor", "dor_no_express", "min"}
KIND = {("mesh", "dim_order"): "dor", ("mesh", "dor"): "dor", ("torus", "dim_order"): "dor", ("torus", "dim_order_bal"): "dor",
        ("cmesh", "dor_no_express"): "dor", ("mesh", "valiant"): "any", ("torus", "valiant"): "any", ("cmesh", "dor"): "any"}


def base(t, rf, k, types, vpt):
    return dict(topology=t, rf=rf, k=k, types=types, vpt=vpt, buf=4, obuf=8, va="islip", sa="islip", delays=[1, 1, 1, 1])


def graph(rng, nr, acyclic=False):
    """a connected network file with one-way latencies; returns text, node->router, directed links with latency"""
    w, lines, nodes = {}, [], []
    und = {(i, rng.randrange(i)) for i in range(1, nr)}
    if not acyclic:
        for _ in range(rng.randrange(0, 2 * nr)):
            a, b = rng.randrange(nr), rng.randrange(nr)
            if a != b and (b, a) not in und:
                und.add((a, b))
    lat = rng.choice([[1], [1, 1, 2], [1, 2, 3, 7]])
    for a, b in und:
        w[a, b], w[b, a] = rng.choice(lat), rng.choice(lat)
    order = list(range(nr))
    rng.shuffle(order)
    ids = list(range(rng.randint(nr, 2 * nr)))
    rng.shuffle(ids)
    at = {i: j if j < nr else rng.randrange(nr) for j, i in enumerate(ids)}
    byrouter = {r: [i for i in at if at[i] == r] for r in range(nr)}
    for r in order:
        s = "router %d" % r
        items = [("node %d" % i) for i in byrouter[r]] + [("router %d" % b + (" %d" % w[a, b] if w[a, b] != 1 or rng.random() < .3 else ""))
                                                          for a, b in w if a == r]
        rng.shuffle(items)
        lines.append(" ".join([s] + items))
    return "\n".join(lines) + "\n", at, [[a, b, x] for (a, b), x in w.items()]


def network(rng, i, t, rf, k, types=1, vpt=1):
    c = base(t, rf, k, types, vpt)
    n = dict(name="rt%s_%s_%s_%d" % (i, t, rf, k), c=c, kind=KIND.get((t, rf), "minimal"))
    if t == "anynet":
        c["net"], at, e = graph(rng, k)
        c["nodes"], c["k"] = len(at), 1
        n.update(topo="graph", where=[at[x] for x in range(len(at))], edges=e, n=k, k=1)
    else:
        nodes = g.nodes(c)
        n.update(topo="torus" if t == "torus" else "grid", edges=[], n=k * k, k=k,
                 where=[g.cm_router(c, x) if t == "cmesh" else x for x in range(nodes)])
    n["single"] = rf in SINGLE and not (t == "torus" and k % 2 == 0)
    n["repeat"] = 1 if n["single"] else 4
    return n


def walk(n, rnd=False):
    """routes by pair, and the walks themselves"""
    script = "walk %d %d\ntypes %d\nseed 7\n" % (n["repeat"], 1 if rnd else 0, n["c"]["types"])
    rc, ev, err = fabric.run(n["name"], n["c"], script, timeout=120)
    W = [e for e in ev if e["e"] == "W"]
    return rc, ev, err, W


def loaded(rng, n, big=False):
    """routes of flits under load"""
    c = dict(n["c"], buf=rng.choice([1, 2, 4]), obuf=rng.choice([1, 8]))
    N = len(n["where"])
    hot = rng.randrange(N)
    pk = [(rng.randrange(N), hot if rng.random() < .3 else rng.randrange(N), rng.randrange(c["types"]), rng.choice([1, 2, 4]), rng.randrange(60))
          for _ in range(150 if not big else 600)]
    pk.sort(key=lambda x: x[4])
    s = ["types %d" % c["types"], "seed %d" % rng.randrange(1 << 30), "max 60000"] + ["pk %d %d %d %d %d %d" % ((i + 1,) + x) for i, x in enumerate(pk)]
    rc, ev, err = fabric.run(n["name"] + "_load", c, "\n".join(s) + "\n", timeout=120)
    out = {}
    if not ev:
        return rc, err, out, {}
    L = ev[0]["links"]
    path, pkt, got = {}, {}, {}
    for e in ev[1:]:
        if e["e"] == "S":
            pkt[e["f"]] = e["p"]
        elif e["e"] == "L":
            l = L[e["l"] - 1]
            if l[3] != 1:
                path.setdefault(e["f"], []).append(l[1])
        elif e["e"] == "R":
            p = pk[pkt[e["f"]] - 1]
            out.setdefault((p[0], p[1]), []).append(path.get(e["f"], []))
            got[e["f"]] = e["hops"]
    end = [e for e in ev if e["e"] == "end"]
    if not end:
        return rc or -1, err, out, {}
    return rc, err, out, {"hops": [(got[f], len(path.get(f, []))) for f in got]}


def trace(n, rng=None, load=False):
    rc, ev, err, W = walk(n)
    by = {}
    for e in W:
        r = [x[0] for x in e["path"]]
        if not e["ok"] or not e["path"] or e["path"][-1][5] != -1 or e["path"][-1][6] != e["d"]:
            r = r + [-1]
        by.setdefault((e["s"], e["d"]), []).append(r)
    hops = []
    crash = rc != 0 or not any(e["e"] == "done" for e in ev)
    if load and not crash:
        rc, err, more, h = loaded(rng, n)
        crash = rc != 0 or not h
        hops = h.get("hops", [])
        for p, rs in more.items():
            by.setdefault(p, []).extend(rs)
    out = []
    for (s, d), rs in sorted(by.items()):
        u = []
        for r in rs:
            if r not in u:
                u.append(r)
        out.append({"e": "R", "s": s, "d": d, "r": u})
    out.append({"e": "crash", "rc": rc, "err": err[-300:]} if crash else {"e": "end", "pairs": len(by)} if all(a == b for a, b in hops) else
               {"e": "hops", "first": next((a, b) for a, b in hops if a != b)})
    cfg = {x: n[x] for x in ("topo", "kind", "k", "n", "where", "edges", "single")}
    return {"cfg": cfg, "ev": out}


def deps(n):
    """who waits for whom, for DepsTrace.tla"""
    n = dict(n, name=n["name"] + "_deps", repeat=n.get("drep", 6))
    rc, ev, err, W = walk(n, True)
    vpt = n["c"]["vpt"]
    ids, waits, inclass = {}, {}, True
    for e in W:
        lo, hi = e["ty"] * vpt, e["ty"] * vpt + vpt - 1
        prev = None
        for x in e["path"]:
            inclass = inclass and lo <= x[3] <= x[4] <= hi
            if x[5] < 0:
                break
            now = [(x[5], v) for v in range(x[3], x[4] + 1)]
            for c in now:
                waits.setdefault(ids.setdefault(c, len(ids) + 1), set())
            for p in prev or []:
                waits[ids[p]] |= {ids[c] for c in now}
            prev = now
    ok = rc == 0 and any(e["e"] == "done" for e in ev) and all(e["ok"] for e in W)
    return {"cfg": {"waits": [sorted(waits[i + 1]) for i in range(len(ids))]},
            "ev": [{"e": "end", "inclass": inclass} if ok else {"e": "crash", "rc": rc, "err": err[-300:]}]}
