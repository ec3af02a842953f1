#!/usr/bin/env python3
"""C06: arbiters and allocators grant legally and starve nobody."""
import itertools, json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "../lib"))
import vt, conform

ARBS = ["round_robin", "matrix", "prio", "tree(2,round_robin)", "tree(2,matrix)", "tree(3,round_robin)", "tree(2,tree(2,round_robin))"]
ALLOCS = ["islip(1)", "islip(2)", "islip(3)", "pim(1)", "pim(3)", "loa", "wavefront", "rr_wavefront", "select(1)", "select(2)", "select(3)", "max_size",
          "separable_input_first(round_robin)", "separable_input_first(matrix)", "separable_input_first(tree(2,round_robin))",
          "separable_output_first(round_robin)", "separable_output_first(matrix)", "separable_output_first(tree(2,matrix))"]
PATIENT = ("islip", "wavefront", "rr_wavefront", "select", "separable")
_exe = None


def exe():
    global _exe
    o = vt.common_objs("booksim")
    h = vt.compile_objs([os.path.join(vt.VERIF, "harness/alloc/alloc.cpp")], os.path.join(vt.scratch(), "obj_alloc"), ["-O1", "-D_GLIBCXX_ASSERTIONS"] + vt.incs())
    _exe = vt.link(h + o, os.path.join(vt.scratch(), "alloc"), ["-lsystemc", "-lpthread"])


def run(u):
    d = os.path.join(vt.scratch(), "al")
    os.makedirs(d, exist_ok=True)
    b = os.path.join(d, u["name"])
    open(b + ".s", "w").write("\n".join(u["script"]) + "\n")
    try:
        p = vt.sprun([_exe, b + ".s", b + ".out"], capture_output=True, text=True, timeout=60)
        rc, err = p.returncode, p.stderr[-300:]
    except subprocess.TimeoutExpired:
        rc, err = -99, "timeout"
    ev = []
    if os.path.exists(b + ".out"):
        for l in open(b + ".out"):
            try:
                ev.append(json.loads(l))
            except ValueError:
                pass
    ev = [e for e in ev if e["e"] != "new"]
    if rc != 0 or not ev or ev[-1]["e"] != "end":
        ev = [e for e in ev if e["e"] != "end"] + [{"e": "crash", "rc": rc, "err": err}]
    for e in ev:      # the priority arbiter gives no label back
        if e["e"] == "G" and u["kind"] == "prio" and e["win"] != -1:
            e["id"], e["pri"] = next(((r[1], r[2]) for r in e["req"] if r[0] == e["win"]), (-1, -1))
    return {"cfg": u["cfg"], "ev": ev}


def arbiter(rng, k, kind, n, rounds):
    s = ["arb %s %d" % (kind, n)]
    mode = rng.choice(["all", "random", "sticky", "prio", "one"])
    keep = {}
    for _ in range(rounds):
        if mode == "all":
            rq = {i: 3 for i in range(n)}
        elif mode == "sticky":      # inputs keep requesting for a while
            for i in range(n):
                if i in keep and rng.random() < .2:
                    del keep[i]
                elif i not in keep and rng.random() < .4:
                    keep[i] = 0
            rq = dict(keep)
        elif mode == "one":      # one patient input among others that come and go
            rq = {i: 1 for i in range(n) if i == n // 2 or rng.random() < .7}
        else:
            rq = {i: rng.choice([-2, 0, 0, 5] if mode == "prio" else [1]) for i in range(n) if rng.random() < rng.choice([.1, .5, .9])}
        o = list(rq)
        rng.shuffle(o)
        upd = 1 if kind == "prio" or rng.random() < .9 else 0
        s.append("g %d %d " % (upd, len(o)) + " ".join("%d %d %d" % (i, rng.randrange(100), rq[i]) for i in o))
    # round robin and matrix pass the favoured once round; a tree pass may be as long as its leaves
    return dict(name="arb%d" % k, kind=kind, script=s, cfg=dict(n=n, bound=n - 1, ins=0, outs=0, kind="any", patience=0))


def allocator(rng, k, kind, a, b, rounds, exhaustive=False):
    s = ["all %s %d %d" % (kind, a, b)]
    prio = rng.random() < .35 and not exhaustive
    cells = [(i, o) for i in range(a) for o in range(b)]
    mats = []
    if exhaustive:
        mats = [[c for j, c in enumerate(cells) if x >> j & 1] for x in range(1 << len(cells))]
        rng.shuffle(mats)
        mats = mats[:rounds]
    else:
        while len(mats) < rounds:
            d = rng.choice([.05, .2, .5, .9, 1])
            m = [c for c in cells if rng.random() < d]
            if rng.random() < .2:
                p = list(range(b))
                rng.shuffle(p)
                m = [(i, p[i]) for i in range(min(a, b))]
            mats += [m] * (a * b + 3 if rng.random() < .3 else 1)
    for m in mats:
        m = list(m)
        rng.shuffle(m)
        op = [(c, 1 if rng.random() < .05 else 0) for c in m]
        if rng.random() < .1:      # one that is withdrawn
            x = [c for c in cells if c not in m]
            if x:
                op.insert(rng.randint(0, len(op)), (rng.choice(x), 2))
        if rng.random() < .05:
            s.append("clear 1 %d %d" % rng.choice(cells))
        pr = lambda: rng.choice([0, 0, 1, 4, -1]) if prio else 0
        s.append("m %d " % len(op) + " ".join("%d %d %d %d %d %d" % (c[0], c[1], rng.randrange(9), pr(), pr(), w) for c, w in op))
    cls = "maximum" if kind == "max_size" else "maximal" if "wavefront" in kind else "any"
    pat = a * b if not prio and kind.startswith(PATIENT) else 0
    return dict(name="all%d" % k, kind=kind, script=s, cfg=dict(n=1, bound=0, ins=a, outs=b, kind=cls, patience=pat))


def units(rng, T):
    us = []
    for kind in ARBS:
        for n in ([2, 3, 4, 6, 9] if not T else [2, 3, 4, 5, 6, 8, 9, 12, 16]) * (2 if not T else 8):
            if "tree(2,tree" in kind and n % 4 or "tree(3" in kind and n % 3 or "tree(2" in kind and n % 2:
                n = {"tree(3": 6}.get(kind[:6], 8)
            us.append(arbiter(rng, len(us), kind, n, 120))
    for kind in ALLOCS:
        dims = [(2, 2), (2, 3), (3, 2), (3, 3), (4, 4), (5, 5), (4, 2), (2, 5), (5, 3)]
        for a, b in dims * (1 if not T else 6):
            if "tree(2" in kind:
                a, b = a + a % 2, b + b % 2
            us.append(allocator(rng, len(us), kind, a, b, 130))
            if a * b <= 9:
                us.append(allocator(rng, len(us), kind, a, b, 600, True))
    return us


CFG = "SPECIFICATION Spec\nCONSTANTS\n Kind = \"%s\"\n N = %d\n M = %d\n Pris = {%s}\n Bound = %d\nINVARIANTS GrantsLegal NoStarvation\n"


def models(chk):
    runs = [("rr", 4, 1, "0, 1", 3), ("matrix", 4, 1, "0, 1", 3), ("fixed", 3, 1, "0", 6), ("islip", 2, 3, "0", 6), ("islip", 3, 2, "0", 6), ("wave", 2, 3, "0", 2)]
    if vt.THOROUGH:
        runs += [("rr", 6, 1, "0, 1", 5), ("matrix", 5, 1, "0, 1", 4), ("wave", 3, 3, "0", 2), ("islip", 3, 3, "0", 9)]
    for r, x in zip(runs, vt.pmap(lambda r: vt.tlc("AllocMC.tla", CFG % r, workers=4, timeout=800), runs, 3)):
        chk.model("%s_%dx%d" % r[:3], x, need=r[0] != "fixed")
        if r[0] == "fixed" and not x.violated:
            raise vt.Broken("fixed priority does not starve?\n" + x.out[-1500:])


def ev(pred):
    def f(mut):
        def g(t):
            for e in t["ev"]:
                if pred(e):
                    return mut(e, t)
            return False
        return g
    return f


conflict = ev(lambda e: e["e"] == "M" and any(a[0] == b[0] and a[1] != b[1] and e["in"][a[0]] == a[1] and e["out"][b[1]] == -1 for a in e["req"] for b in e["req"]))
granted = ev(lambda e: e["e"] == "M" and any(x != -1 for x in e["in"]) and len(e["req"]) < len(e["in"]) * len(e["out"]))
lone = ev(lambda e: e["e"] == "M" and len(e["req"]) == 1)
arb = ev(lambda e: e["e"] == "G" and len({r[2] for r in e["req"]}) > 1)
arb1 = ev(lambda e: e["e"] == "G" and e["win"] != -1)


def two(e, t):
    for a in e["req"]:
        for b in e["req"]:
            if a[0] == b[0] and a[1] != b[1] and e["in"][a[0]] == a[1] and e["out"][b[1]] == -1:
                e["out"][b[1]] = a[0]
                return


def swap(e, t):
    i = next(i for i, x in enumerate(e["in"]) if x != -1)
    o = next((o for o in range(len(e["out"])) if [i, o] not in e["req"] and e["out"][o] == -1), None)
    if o is None:
        return False
    e["out"][e["in"][i]] = -1
    e["in"][i], e["out"][o] = o, i


def none(e, t):
    e["in"] = [-1] * len(e["in"])
    e["out"] = [-1] * len(e["out"])


def main():
    chk = vt.Check("C06")
    rng = chk.rng
    us = units(rng, vt.THOROUGH)
    exe()
    vt.note("built")
    traces = vt.pmap(run, us)
    vt.note("ran %d" % len(us))
    bad = conform.judge(chk, traces, "AllocTrace.tla", label=lambda i: "%s %s" % (us[i]["name"], us[i]["script"][0]),
                        replay=lambda i: {"script": us[i]["script"]})
    vt.note("validated")
    badset = {b[0] for b in bad}
    chk.extra.update(units=len(us), kinds=ARBS + ALLOCS, grants=sum(len(t["ev"]) - 1 for t in traces))
    for k in (0, 40, len(us) - 1):
        chk.samples.append({"unit": us[k]["script"][0], "rounds": len(us[k]["script"]) - 1, "promise": us[k]["cfg"]})

    def pick(f):
        return next((traces[i] for i in range(len(us)) if i not in badset and f(us[i])), None)
    t = pick(lambda u: u["kind"] == "islip(1)" and u["cfg"]["ins"] == 3 and u["cfg"]["patience"] and "clear" not in " ".join(u["script"]))
    if t:
        def starve(t):
            t["cfg"]["patience"] = 1
        conform.must_reject_all(chk, "AllocTrace.tla", t, [("two outputs for an input", conflict(two)), ("pair not requested", granted(swap)),
                                ("lone request refused", lone(none)), ("starved", starve), ("crash", lambda t: t["ev"][-1].update(e="crash"))])
    t = pick(lambda u: u["kind"] == "max_size" and u["cfg"]["ins"] > 2)
    if t:
        conform.must_reject_all(chk, "AllocTrace.tla", t, [("grants missing", granted(none))])
    t = pick(lambda u: u["kind"] == "round_robin" and any(len(x.split()) > 6 for x in u["script"]) and any(" 5" in x and " -2" in x for x in u["script"]))
    if t:
        def lower(e, t):
            r = min(e["req"], key=lambda r: r[2])
            e["win"], e["id"], e["pri"] = r

        def silent(e, t):
            e["win"] = -1

        def wrongid(e, t):
            e["id"] += 1

        def tight(t):
            t["cfg"]["bound"] = 0
        conform.must_reject_all(chk, "AllocTrace.tla", t, [("lower priority", arb(lower)), ("no grant", arb1(silent)), ("wrong label", arb1(wrongid)), ("passed over", tight)])
    models(chk)
    chk.assumptions = ["requests are made through the public interface: at most one per pair at a time", "bounded waiting of allocators: requests of equal priority that stay the same"]
    return chk.finish()


vt.main(main)
