"""Runs under the repository's own PyPy + nMigen:  elab.py REPO DESIGN CFGJSON OUT.il

Imports the module under test from REPO/migen_src, wraps it in a top level whose
ports are i_<port> / o_<port> (only the module's public port attributes are used) and
writes RTLIL.  Any exception means: this configuration does not elaborate."""
import sys, json, os, inspect
sys.dont_write_bytecode = True
repo, design, cfgj, out = sys.argv[1:5]
sys.path.insert(0, os.path.join(repo, "migen_src"))
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import importlib
from nmigen import *
from nmigen.back import rtlil
import designs

cfg = json.loads(cfgj) or {}
spec = designs.DESIGNS[design]
m = Module()
ports = []
names = {}


def flat(lst):
    """["a", "b*"] -> (name, attribute, index); `b*` is an Array port."""
    for n in lst:
        yield n


stub = None
if cfg.get("_stub_regs"):
    import register_file

    class Stub(Elaboratable):
        """Stand-in for the constant register file: the geometry comes from harness ports."""
        instances = []

        def __init__(self, *a, **k):
            self.height = Signal(16)
            self.width = Signal(16)
            self.allowed_cycles = Signal(24)
            Stub.instances.append(self)
            self.ios = [self.height, self.width, self.allowed_cycles]

        def elaborate(self, platform):
            mm = Module()
            import clk_domains
            clk_domains.load_clk(mm)
            return mm
    register_file.RegisterFile = Stub
    stub = Stub

if cfg.get("_config"):
    # another configuration of a complete design: the entries of its dictionary a user would edit
    import integration_3
    orig = integration_3.Integration3.__init__

    def init(self, config, *a, **k):
        config.update(cfg["_config"])
        orig(self, config, *a, **k)
    integration_3.Integration3.__init__ = init

dut = spec["make"](cfg)
m.submodules.dut = dut


def resolve(path):
    o = dut
    for p in path.split("."):
        o = getattr(o, p)
    return o


def expand(lst):
    for n in lst:
        alias = None
        if "=" in n:
            alias, n = n.split("=")
        if n.endswith("*"):
            arr = resolve(n[:-1])
            for i, s in enumerate(arr):
                yield "%s%d" % (alias or n[:-1].split(".")[-1], i), s
        else:
            yield alias or n.split(".")[-1], resolve(n)


ins = spec["ins"](cfg) if callable(spec["ins"]) else spec["ins"]
outs = spec["outs"](cfg) if callable(spec["outs"]) else spec["outs"]
for n, s in expand(ins):
    t = Signal(len(s), name="i_" + n)
    m.d.comb += s.eq(t)
    ports.append(t)
for n, s in expand(outs):
    t = Signal(len(s), name="o_" + n)
    m.d.comb += t.eq(s)
    ports.append(t)
if stub is not None:
    for n, w in (("height", 16), ("width", 16), ("allowed_cycles", 24)):
        t = Signal(w, name="i_g_" + n)
        for x in stub.instances:
            m.d.comb += getattr(x, n).eq(t)
        ports.append(t)
import clk_domains
ports.append(clk_domains.FULL.rst)
if not spec.get("own_reset"):       # designs without automatic reset: the harness resets both domains
    m.d.comb += clk_domains.CORE.rst.eq(clk_domains.FULL.rst)
text = rtlil.convert(m, ports=ports)
with open(out, "w") as f:
    f.write(text)
info = spec["info"](dut, cfg) if "info" in spec else {}
print(json.dumps(info))
