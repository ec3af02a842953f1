"""Shared machinery of the checks: scratch builds of /repo's current tree,
running harnesses, running TLC, reporting."""
import atexit, concurrent.futures as cf, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
RS = os.path.join(REPO, "rad-sim")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
JOBS = int(os.environ.get("VT_JOBS", "8"))
T0 = time.time()

_scratch = None
_lock = threading.RLock()


def scratch():
    global _scratch
    with _lock:
      if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vt_")
        if not os.environ.get("VT_KEEP"):
            atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
        else:
            print("scratch:", _scratch, file=sys.stderr)
    return _scratch


class Broken(Exception):
    """The check itself could not do its work (exit status 2)."""


def note(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, flush=True)


def pmap(f, xs, jobs=None):
    xs = list(xs)
    with cf.ThreadPoolExecutor(jobs or JOBS) as ex:
        return list(ex.map(f, xs))


# ---------------------------------------------------------------- building
INC_NOC = ["noc", "noc/booksim", "noc/booksim/routers", "noc/booksim/allocators", "noc/booksim/arbiters",
           "noc/booksim/networks", "noc/booksim/power"]
INC_DRAM = ["dram", "dram/DRAMsim3", "dram/DRAMsim3/src", "dram/DRAMsim3/ext/headers", "dram/DRAMsim3/ext/fmt/include"]


def incs(root=None):
    sim = os.path.join(root or RS, "sim")
    return ["-I" + sim] + ["-I" + os.path.join(sim, d) for d in INC_NOC + INC_DRAM]


def lsrc(d, exts=(".cpp", ".cc", ".c")):
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith(exts))


def booksim_srcs():
    b = os.path.join(RS, "sim/noc/booksim")
    out = [f for f in lsrc(b, (".cpp", ".c")) if os.path.basename(f) not in ("rng.c", "rng-double.c")]
    for d in ("routers", "allocators", "arbiters", "networks", "power"):
        out += lsrc(os.path.join(b, d))
    return out


def dramsim_srcs():
    s = os.path.join(RS, "sim/dram/DRAMsim3/src")
    keep = "bankstate channel_state command_queue common configuration controller dram_system hmc refresh simple_stats timing memory_system".split()
    have = [f for f in lsrc(s, (".cc",))]
    names = {os.path.splitext(os.path.basename(f))[0]: f for f in have}
    skip = {"main", "cpu", "thermal", "thermal_replay"}
    return [names[n] for n in sorted(names) if n in keep or n not in skip]


def compile_objs(srcs, outdir, flags, jobs=None):
    os.makedirs(outdir, exist_ok=True)

    def one(s):
        o = os.path.join(outdir, hashlib.md5(s.encode()).hexdigest()[:8] + "_" + os.path.basename(s) + ".o")
        if os.path.exists(o):
            return o, None
        cc = ["gcc", "-w"] if s.endswith(".c") else ["g++", "-std=c++17", "-w"]
        p = subprocess.run(cc + flags + ["-c", s, "-o", o], capture_output=True, text=True)
        return o, (p.stderr if p.returncode else None)

    res = pmap(one, srcs, jobs)
    for o, e in res:
        if e:
            raise Broken("compilation failed: " + o + "\n" + e[:3000])
    return [o for o, _ in res]


_pch = None


def pch():
    """flags using a precompiled header of the standard library and SystemC"""
    global _pch
    with _lock:
        if _pch is None:
            d = os.path.join(scratch(), "pch")
            os.makedirs(d)
            with open(os.path.join(d, "vtpch.h"), "w") as f:
                f.write("#include <systemc.h>\n" + "".join("#include <%s>\n" % x for x in (
                    "algorithm map unordered_map unordered_set queue set string vector fstream iostream sstream tuple cmath".split())))
            subprocess.run(["g++", "-std=c++17", "-w", "-O0", "-x", "c++-header", "vtpch.h", "-o", "vtpch.h.gch"], cwd=d)
            _pch = ["-I" + d, "-include", "vtpch.h"]
    return _pch


def link(objs, out, libs=()):
    p = subprocess.run(["g++", "-o", out] + list(objs) + list(libs), capture_output=True, text=True)
    if p.returncode:
        raise Broken("link failed\n" + p.stderr[:3000])
    return out


_common = {}


def common_objs(which):
    """objects that do not depend on the generated header"""
    if which not in _common:
        d = os.path.join(scratch(), "obj_" + which)
        if which == "booksim":
            _common[which] = compile_objs(booksim_srcs(), d, ["-O1"] + incs())
        elif which == "dramsim":
            _common[which] = compile_objs(dramsim_srcs(), d, ["-O1", "-DFMT_HEADER_ONLY=1"] + incs())
        elif which == "dramsim_trace":
            _common[which] = compile_objs(dramsim_srcs(), d, ["-O1", "-DFMT_HEADER_ONLY=1", "-DCMD_TRACE"] + incs())
    return _common[which]


# ---------------------------------------------------------------- configuration
def shim_path():
    d = os.path.join(scratch(), "shim")
    with _lock:
        if not os.path.isdir(d):
            os.makedirs(d)
            with open(os.path.join(d, "cmake"), "w") as f:
                f.write("#!/bin/sh\nexit 0\n")
            os.chmod(os.path.join(d, "cmake"), 0o755)
    return d + ":" + os.environ["PATH"]


def run_config_py(root, designs):
    """Run the real config.py in `root` (which holds example-designs/<d>/config.yml)."""
    os.makedirs(os.path.join(root, "sim/noc"), exist_ok=True)
    shutil.copy(os.path.join(RS, "config.py"), os.path.join(root, "config.py"))
    p = subprocess.run([sys.executable, "config.py"] + list(designs), cwd=root, capture_output=True, text=True,
                       env=dict(os.environ, PATH=shim_path(), PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0"), timeout=60)
    return p


def yaml_dump(x):
    import yaml
    return yaml.safe_dump(x, sort_keys=False)


# ---------------------------------------------------------------- TLC
TLA_CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcResult:
    pass


def tlc(spec, cfg, extra=(), workers=1, env=None, timeout=600, heap="3g", deadlock=True, name=None, spec_dirs=()):
    """Run TLC on spec (path) with cfg (path or text). Returns TlcResult."""
    wd = tempfile.mkdtemp(prefix="tlc_", dir=scratch())
    sd = os.path.join(VERIF, "spec")
    for d in (sd,) + tuple(spec_dirs):
        for f in os.listdir(d):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(d, f), wd)
    sp = os.path.join(wd, os.path.basename(spec))
    if not os.path.exists(sp):
        shutil.copy(spec, sp)
    cfgp = os.path.join(wd, "model.cfg")
    if os.path.exists(cfg):
        shutil.copy(cfg, cfgp)
    else:
        open(cfgp, "w").write(cfg)
    cmd = ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss16m", "-Djava.io.tmpdir=" + wd, "-cp", TLA_CP, "tlc2.TLC",
           "-workers", str(workers), "-metadir", os.path.join(wd, "meta"), "-noGenerateSpecTE", "-config", cfgp]
    if not deadlock:
        cmd.append("-deadlock")
    cmd += list(extra) + [sp]
    t = time.time()
    try:
        p = subprocess.run(cmd, cwd=wd, capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **(env or {})))
        out, rc = p.stdout + p.stderr, p.returncode
    except subprocess.TimeoutExpired as e:
        out, rc = ((e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")) + "\nTIMEOUT", -1
    r = TlcResult()
    r.out, r.rc, r.wall, r.dir = out, rc, time.time() - t, wd
    m = re.findall(r"([\d,]+) states generated(?: \(.*?\))?, ([\d,]+) distinct states found", out)
    r.generated, r.distinct = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
    r.ok = rc == 0 and "Model checking completed. No error has been found" in out
    r.deadlock = "Deadlock reached" in out
    r.violated = bool(re.search(r"Invariant \S+ is violated|is violated by the initial state|Action property .* is violated|Temporal properties were violated|Postcondition .* is false|POSTCONDITION", out)) and not r.ok
    shutil.rmtree(os.path.join(wd, "meta"), ignore_errors=True)
    return r


def last_state(out):
    """variables of the last state TLC printed"""
    blocks = re.split(r"\nState \d+: .*\n", "\n" + out)
    if len(blocks) < 2:
        blocks = re.split(r"initial state.*\n", out)
    b = blocks[-1]
    b = b.split("\n\n")[0]
    vals = {}
    cur = None
    for line in b.split("\n"):
        m = re.match(r"/\\ (\w+) = (.*)", line) or re.match(r"^(\w+) = (.*)", line)
        if m:
            cur = m.group(1)
            vals[cur] = m.group(2)
        elif cur:
            vals[cur] += " " + line.strip()
    return vals


# ---------------------------------------------------------------- trace batches
def validate(spec, traces, extra_cfg="", workers=None, timeout=600, chunk=None, heap="3g", limit=3):
    """Validate recorded traces against trace specification `spec`.

    A trace is {"cfg": {...}, "ev": [...]}.  The specification reads the JSON
    array named by the environment variable TRACES, keeps `tid` (which trace)
    and `l` (next event) and offers, for each event, only the action of the
    system specification that explains it.  A trace that cannot be consumed
    deadlocks.  Returns (list of (trace index, event index, state), states, transitions).
    """
    n = len(traces)
    if n == 0:
        return [], 0, 0
    nchunk = max(1, min(JOBS, chunk or JOBS, n))
    order = sorted(range(n), key=lambda i: -len(traces[i]["ev"]))
    groups = [[] for _ in range(nchunk)]
    load = [0] * nchunk
    for i in order:
        g = load.index(min(load))
        groups[g].append(i)
        load[g] += len(traces[i]["ev"]) + 20
    bad, states, trans = [], 0, 0

    def run(idx):
        idx = list(idx)
        found, st, tr = [], 0, 0
        while idx:
            f = tempfile.NamedTemporaryFile("w", suffix=".json", dir=scratch(), delete=False)
            json.dump([traces[i] for i in idx], f)
            f.close()
            cfg = "SPECIFICATION TraceSpec\nCHECK_DEADLOCK TRUE\n" + extra_cfg
            r = tlc(spec, cfg, workers=1, env={"TRACES": f.name}, timeout=timeout, heap=heap)
            os.unlink(f.name)
            st += r.distinct
            tr += r.generated
            if r.ok:
                break
            if r.deadlock or r.violated:
                s = last_state(r.out)
                if "tid" not in s or "l" not in s:
                    raise Broken("cannot read TLC's counterexample\n" + r.out[-3000:])
                k, l = int(s["tid"]), int(s["l"])
                what = "not a behaviour of the specification" if r.deadlock else "invariant: " + (re.findall(r"(?:Invariant|property) (\S+) (?:is|of)", r.out) or ["?"])[0]
                found.append((idx[k - 1], l - 1, s, what))
                if len(found) >= limit:
                    break
                idx = idx[:k - 1] + idx[k:]
                continue
            raise Broken("TLC failed on " + spec + "\n" + r.out[-4000:])
        shutil.rmtree(r.dir, ignore_errors=True)
        return found, st, tr

    for found, st, tr in pmap(run, [g for g in groups if g]):
        bad += found
        states += st
        trans += tr
    return bad, states, trans


# ---------------------------------------------------------------- reporting
HANGS = [0]


def sprun(*a, timeout=120, **k):
    """subprocess.run that loses patience: when many runs hung, the rest need
    not wait as long to tell"""
    t = timeout if HANGS[0] < 8 else max(10, timeout / 4) if HANGS[0] < 24 else 1
    try:
        return subprocess.run(*a, timeout=t, **k)
    except subprocess.TimeoutExpired:
        HANGS[0] += 1
        raise


CHECKS = []


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid, self.level = pid, level
        self.states = self.trans = self.traces = 0
        self.samples, self.extra, self.assumptions = [], {}, []
        self.viol = []
        self.known = load_known(pid)
        self.known_hit = []
        self.rng = random.Random("%s-%d" % (pid, SEED))
        CHECKS.append(self)

    def violation(self, what, replay_data, key=None):
        """key identifies the failing input/call site for the known-findings list"""
        for k in self.known:
            if key is not None and k["key"] == key:
                if key not in self.known_hit:
                    self.known_hit.append(key)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        d = os.path.join(VERIF, "replays", self.pid)
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%03d.json" % len(self.viol))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "what": what, "seed": SEED, "tier": TIER, "data": replay_data}, f, indent=1, default=str)
        self.viol.append((what, p))
        if len(self.viol) <= 10:
            print("VIOLATION property=%s replay=%s" % (self.pid, p), flush=True)
            print("   ", what[:600], flush=True)

    def model(self, name, r, need=True):
        self.states += r.distinct
        self.trans += r.generated
        self.extra.setdefault("models", {})[name] = {"states": r.distinct, "transitions": r.generated, "wall_s": round(r.wall, 1)}
        if need and not r.ok:
            raise Broken("model %s: TLC does not accept the specification\n%s" % (name, r.out[-4000:]))

    def refute(self, name, r):
        """the model of something that goes wrong: TLC has to find that out"""
        if r.ok:
            raise Broken("the model of a fault (%s) is accepted" % name)
        if not re.search(r"is violated|was violated|were violated|Deadlock reached", r.out):
            raise Broken("the model of a fault (%s) does not run\n%s" % (name, r.out[-3000:]))
        self.extra["faults_refuted"] = self.extra.get("faults_refuted", 0) + 1

    def finish(self):
        cov = {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
               "samples": self.samples[:5]}
        cov.update(self.extra)
        if self.level != "model_checking":
            cov.setdefault("evaluations", self.traces)
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - T0, 1), "violations": len(self.viol)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        note("%s: %d violations, %d traces, %d states" % (self.pid, len(self.viol), self.traces, self.states))
        if HANGS[0]:
            note("%d runs hung" % HANGS[0])
        return 1 if self.viol else 0


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append({"key": m.group(2), "what": m.group(3)})
    return out


def main(f):
    try:
        rc = f()
    except Exception as e:
        if not isinstance(e, (Broken, subprocess.TimeoutExpired)):
            traceback.print_exc()
        print("CHECK-ERROR:", e, flush=True)
        rc = 2
        # what was found before stays found (a wrong implementation may well
        # leave nothing the self-tests could start from)
        for c in CHECKS:
            if c.viol:
                rc = c.finish()
    sys.exit(rc)
