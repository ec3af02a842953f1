"""Scenarios for the fabric harness and their traces for FabricTrace.tla."""
import vt, fabric

ALLOCS = ["islip", "pim", "loa", "wavefront", "rr_wavefront", "select", "max_size", "separable_input_first", "separable_output_first",
          "separable_input_first(matrix)", "separable_output_first(round_robin)"]
# topology, routing function, virtual channels per class it needs, hops are those of the minimal route, one route per pair
ROUTES = [("mesh", "dim_order", 1, True, True), ("mesh", "dor", 1, True, True), ("mesh", "xy_yx", 2, True, False),
          ("mesh", "adaptive_xy_yx", 2, True, False), ("mesh", "romm", 2, True, False), ("mesh", "min_adapt", 2, True, False),
          ("mesh", "planar_adapt", 3, True, False), ("mesh", "valiant", 2, False, False),
          ("torus", "dim_order", 2, True, False), ("torus", "dim_order_bal", 2, True, False), ("torus", "min_adapt", 4, True, False),
          ("torus", "valiant", 4, False, False),
          ("cmesh", "dor_no_express", 1, True, True), ("cmesh", "dor", 1, False, True),
          ("cmesh", "xy_yx_no_express", 2, True, False), ("anynet", "min", 1, True, True)]


def tree(rng, nr):
    """a random tree of routers with 1-2 nodes each, as a network file; returns text, node->router, links with latency"""
    par = [None] + [rng.randrange(i) for i in range(1, nr)]
    where, n = {}, 0
    lines = []
    adj = {i: {} for i in range(nr)}
    for i in range(1, nr):
        w = rng.choice([1, 1, 1, 2, 3])
        adj[i][par[i]] = adj[par[i]][i] = w
    for r in range(nr):
        s = "router %d" % r
        for _ in range(rng.choice([1, 1, 2])):
            s += " node %d" % n
            where[n] = r
            n += 1
        for q, w in adj[r].items():
            s += " router %d" % q + (" %d" % w if w != 1 else "")
        lines.append(s)
    return "\n".join(lines) + "\n", where, adj


def any_hops(where, adj):
    """routers on a route of least latency (trees: the only route)"""
    import heapq
    out = {}
    for s in adj:
        dist, hops, q = {s: 0}, {s: 1}, [(0, s)]
        while q:
            d, u = heapq.heappop(q)
            if d > dist[u]:
                continue
            for v, w in adj[u].items():
                if d + w < dist.get(v, 1 << 30):
                    dist[v], hops[v] = d + w, hops[u] + 1
                    heapq.heappush(q, (d + w, v))
        out[s] = hops
    return {(a, b): out[where[a]][where[b]] for a in where for b in where}


def min_hops(c, s, d):
    k = c["k"]
    if c["topology"] == "anynet":
        return c["hops"][(s, d)]
    if c["topology"] == "cmesh":
        s, d = cm_router(c, s), cm_router(c, d)
    dx, dy = abs(s % k - d % k), abs(s // k - d // k)
    if c["topology"] == "torus":
        dx, dy = min(dx, k - dx), min(dy, k - dy)
    return dx + dy + 1


def cm_router(c, n):
    """2x2 nodes share a router: node = x + y * 2k"""
    k = c["k"]
    return (n % (2 * k)) // 2 + (n // (2 * k)) // 2 * k


def nodes(c):
    return {"mesh": c["k"] ** 2, "torus": c["k"] ** 2, "cmesh": 4 * c["k"] ** 2, "anynet": c.get("nodes")}[c["topology"]]


def scenario(rng, i, route=None, big=False):
    t, rf, need, minimal, single = route or rng.choice(ROUTES)
    c = dict(topology=t, rf=rf, k=2 if t == "cmesh" else rng.choice([3, 4, 5] if t == "torus" else [2, 3, 4]), types=rng.choice([1, 2, 3, 5]),
             vpt=need * (2 if rng.random() < .25 else 1), buf=rng.choice([1, 2, 3, 4, 8]), obuf=rng.choice([1, 2, 8, -1]),
             va=rng.choice(ALLOCS), sa=rng.choice(ALLOCS),
             delays=[rng.choice([1, 1, 2, 3]), rng.choice([0, 1, 1, 2]), rng.choice([1, 1, 2]), rng.choice([1, 1, 2])], minimal=minimal)
    if c["types"] * c["vpt"] > 10:
        c["types"] = 1
    if t == "anynet":
        c["net"], where, adj = tree(rng, rng.randint(2, 7))
        c["hops"], c["nodes"], c["k"] = any_hops(where, adj), len(where), 1
    n = nodes(c)
    npk = rng.randint(25, 60) if not big else rng.randint(80, 160)
    mode = rng.choice(["uniform", "hotspot", "pair", "permute", "burst", "turn"])
    hot, src = rng.randrange(n), rng.randrange(n)
    perm = list(range(n))
    rng.shuffle(perm)
    span = rng.choice([1, 60, 300])
    maxlen = rng.choice([1, 3, 6])
    pk = []
    for p in range(1, npk + 1):
        s, d = rng.randrange(n), rng.randrange(n)
        if mode == "hotspot" and rng.random() < .7:
            d = hot
        elif mode == "pair":
            s, d = (src, hot) if rng.random() < .6 else (s, d)
        elif mode == "permute":
            d = perm[s]
        elif mode == "burst":
            s = src
        elif mode == "turn":
            d = (s + n // 2) % n
        pk.append((s, d, rng.randrange(c["types"]), rng.randint(1, maxlen), rng.randrange(span) if mode != "burst" else 0))
    pk.sort(key=lambda x: x[4])
    s = ["types %d" % c["types"], "seed %d" % rng.randrange(1 << 30), "max 60000"]
    s += ["pk %d %d %d %d %d %d" % ((i + 1,) + x) for i, x in enumerate(pk)]
    if rng.random() < .6:
        for x in range(n):
            if rng.random() < .5:
                per = rng.choice([2, 3, 7, 20])
                s.append("drain %d %d %d %d %d" % (x, rng.choice([0, 1, 1, 2]), per, rng.randrange(per), rng.choice([50, 200, 600])))
    c["single"] = single and c["vpt"] == 1
    return dict(name="fab%s_%s_%s" % (i, t, rf), c=c, pk=pk, script="\n".join(s) + "\n")


def hog(rng, i):
    """a few packets among others that keep a destination busy without a pause: nobody is starved"""
    k = rng.choice([2, 3, 4])
    n = k * k
    types, vpt = rng.choice([1, 2, 3]), rng.choice([1, 1, 2])
    c = dict(topology="mesh", rf="dim_order", k=k, types=types, vpt=vpt, buf=rng.choice([1, 2, 4]), obuf=rng.choice([1, 8]), va="islip", sa="islip",
             delays=[1, rng.choice([0, 1]), 1, 1], minimal=True, single=vpt == 1)
    dst, vic = rng.randrange(n), rng.randrange(n)
    others = [x for x in range(n) if x != vic]
    rng.shuffle(others)
    ty, ln = rng.randrange(types), rng.choice([1, 2])
    hogs = others[:rng.choice([1, 2, 3, 6])]
    same = rng.random() < .6
    pk = [(h, dst, ty if same else rng.randrange(types), ln, 0) for h in hogs for _ in range(420 // len(hogs))]
    pk += [(vic, dst, ty, rng.choice([1, 3]), 60 + 100 * j) for j in range(3)]
    pk.sort(key=lambda x: x[4])
    s = ["types %d" % types, "max 60000"] + ["pk %d %d %d %d %d %d" % ((j + 1,) + x) for j, x in enumerate(pk)]
    return dict(name="hog%s" % i, c=c, pk=pk, script="\n".join(s) + "\n", bound=300, hog=vic)


def trace(sc, rc, ev, err):
    """trace for FabricTrace.tla, None if the run produced none"""
    c, pk = sc["c"], sc["pk"]
    if not ev:
        e = dict(src=[], dst=[], node=[], vcs=1, buf=1, lo=[], hi=[], ps=[], pd=[], pc=[], pn=[], hops=[], single=False, bound=[], pk=[], ix=[])
        return {"cfg": e, "ev": [{"e": "crash", "rc": rc, "err": err[-300:]}]}
    net = ev[0]
    L = net["links"]
    first, pks, ixs = {}, [], []
    cfg = dict(src=[x[0] for x in L], dst=[x[1] for x in L], node=[x[2] for x in L], vcs=net["vcs"], buf=net["buf"],
               lo=[x[0] for x in net["types"]], hi=[x[1] for x in net["types"]],
               ps=[p[0] for p in pk], pd=[p[1] for p in pk], pc=[p[2] + 1 for p in pk], pn=[p[3] for p in pk],
               hops=[min_hops(c, p[0], p[1]) if c["minimal"] else 0 for p in pk], single=c["single"])
    inj = {x[2]: i + 1 for i, x in enumerate(L) if x[3] == 0}
    ej = {x[2]: i + 1 for i, x in enumerate(L) if x[3] == 1}
    out, flit = [], {}
    for e in ev[1:]:
        k = e["e"]
        if k == "S":
            flit[e["f"]] = len(pks) + 1
            assert e["f"] == len(pks) + 1
            pks.append(e["p"])
            ixs.append(e["i"] + 1)
            out.append({"e": "S", "f": e["f"], "l": inj[e["n"]], "v": e["v"]})
        elif k == "L":
            if L[e["l"] - 1][3] != 0:      # what a node sends is in S already
                out.append({"e": "L", "f": e["f"], "l": e["l"], "v": e["v"]})
        elif k == "K":
            out.append({"e": "K", "l": e["l"], "v": e["v"]})
        elif k == "D":
            out.append({"e": "K", "l": ej[e["n"]], "v": e["v"]})
        elif k == "R":
            f = e["f"]
            p = pks[f - 1] if 0 < f <= len(pks) else 0
            i = ixs[f - 1] - 1 if p else 0
            q = pk[p - 1] if p else (0, 0, 0, 0)
            same = (p > 0 and e["p"] == p and e["d"] == p * 1000 + i and e["h"] == (i == 0) and e["z"] == (i == q[3] - 1) and e["dst"] == q[1]
                    and e["ty"] == q[2] and e["src"] == q[0] and e["itf"] == p * 7 % 31 and e["rad"] == p % 3 and e["rem"] == p % 5)
            out.append({"e": "R", "f": f, "n": e["n"], "v": e["v"], "h": e["hops"], "same": bool(same)})
        elif k == "end":
            out.append({x: e[x] for x in ("e", "fin", "used", "occ", "una")})
    if not out or out[-1]["e"] != "end":
        out.append({"e": "crash", "rc": rc, "err": err[-300:]})
    if "hog" in sc:      # the others may wait behind each other for long
        cfg["bound"] = [sc["bound"] if p[0] == sc["hog"] else 0 for p in pk]
    else:
        cfg["bound"] = [0] * len(pk)
    # a packet may not have been injected completely
    cfg["pk"], cfg["ix"] = pks, ixs
    return {"cfg": cfg, "ev": out}
