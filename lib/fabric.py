"""Runs the BookSim network under the harness fabric.cpp."""
import json, os, subprocess, threading
import vt

_exe = None
_lock = threading.RLock()
TYPES = ["read_request", "write_request", "write_data", "read_reply", "write_reply"]


def exe():
    global _exe
    with _lock:
        if _exe is None:
            o = vt.common_objs("booksim")
            h = vt.compile_objs([os.path.join(vt.VERIF, "harness/fabric/fabric.cpp")], os.path.join(vt.scratch(), "obj_fabric"), ["-O1"] + vt.incs())
            _exe = vt.link(h + o, os.path.join(vt.scratch(), "fabric"), ["-lsystemc", "-lpthread"])
    return _exe


def config(c):
    """the file config.py writes for these parameters"""
    s = []
    t = c["topology"]
    if t == "anynet":
        s.append("topology = anynet;\nnetwork_file = %s;" % c["file"])
    else:
        s.append("topology = %s;\nk = %d;\nn = 2;" % (t, c["k"]))
        if t == "cmesh":
            s.append("c = 4;\nxr = 2;\nyr = 2;")
    s.append("routing_function = %s;" % c["rf"])
    s.append("num_vcs = %d;\nvc_buf_size = %d;\noutput_buffer_size = %d;" % (c["types"] * c["vpt"], c["buf"], c["obuf"]))
    for i in range(c["types"]):
        s.append("%s_begin_vc = %d;\n%s_end_vc = %d;" % (TYPES[i], i * c["vpt"], TYPES[i], (i + 1) * c["vpt"] - 1))
    s.append("router = iq;\nvc_allocator = %s;\nsw_allocator = %s;\nalloc_iters = 1;\nwait_for_tail_credit = 0;" % (c["va"], c["sa"]))
    s.append("credit_delay = %d;\nrouting_delay = %d;\nvc_alloc_delay = %d;\nsw_alloc_delay = %d;" % tuple(c["delays"]))
    return "\n".join(s) + "\n"


def run(name, c, script, timeout=60):
    """returns (return code, events)"""
    d = os.path.join(vt.scratch(), "fab")
    os.makedirs(d, exist_ok=True)
    b = os.path.join(d, name)
    if c["topology"] == "anynet":
        open(b + ".net", "w").write(c["net"])
        c = dict(c, file=b + ".net")
    open(b + ".cfg", "w").write(config(c))
    open(b + ".s", "w").write(script)
    try:
        p = vt.sprun([exe(), b + ".cfg", b + ".s", b + ".out"], capture_output=True, text=True, timeout=timeout)
        rc, err = p.returncode, p.stderr + p.stdout[-300:]
    except subprocess.TimeoutExpired:
        rc, err = -99, "timeout"
    ev = []
    if os.path.exists(b + ".out"):
        for l in open(b + ".out"):
            try:
                ev.append(json.loads(l))
            except ValueError:
                pass
        os.unlink(b + ".out")
    return rc, ev, err
