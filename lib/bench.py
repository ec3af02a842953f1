"""The examples' own test benches over a design that answers as it is told."""
import hashlib, os, shutil
import accel, vt
from vt import RS

H = os.path.join(vt.VERIF, "harness/bench")
KIND = {"dlrm_two_rad": "dlrm"}
CLS = {"mlp_int8": "mlp", "dlrm_two_rad": "dlrm"}
# what a test bench and the stand-in need of the design's own modules
NEEDS = {"add": (), "mult": (), "mlp": ("sim_utils", "instructions"), "mlp_int8": ("sim_utils", "instructions"), "dlrm": ("sim_utils",), "dlrm_two_rad": ("sim_utils",), "npu": ("sim_utils", "instructions")}
HEADER = {"add": "client.hpp", "mult": "client.hpp", "mlp": "sim_utils.hpp", "mlp_int8": "instructions.hpp", "dlrm": "sim_utils.hpp", "dlrm_two_rad": "sim_utils.hpp", "npu": "sim_utils.hpp"}


class Env(accel.Env):
    log = "bench"

    def configure(self):
        accel.Env.configure(self)
        self.key = "b" + self.key
        return self

    def sources(self, d):
        src = os.path.join(RS, "example-designs", self.design)
        cls = CLS.get(self.design, self.design)
        shutil.copytree(src, d, ignore=lambda x, fs: [f for f in fs if f.startswith(cls + "_top.") or f in ("compiler", "test", "scripts", "rtl")])
        t = open(os.path.join(H, "stub_top.hpp.in")).read()
        for k, v in (("CLS", cls), ("KIND", KIND.get(self.design, self.design)), ("HEADER", HEADER[self.design]), ("PLACE", self.design)):
            t = t.replace("@%s@" % k, v)
        open(os.path.join(d, cls + "_top.hpp"), "w").write(t)
        return vt.lsrc(d) + [os.path.join(d, "modules", x + ".cpp") for x in NEEDS[self.design]]
