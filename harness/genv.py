"""Runs under the repository's own PyPy + nMigen:  genv.py REPO FILE DESIGN OUT.v OVERRIDES

Does what `python migen_src/FILE generate` does (which is what generate_verilog.py runs for every source file) and writes
the Verilog to OUT.v.  On the side it notes which Verilog name each public port attribute of the design got; that goes
to standard output as JSON, with the configuration the file ships."""
import sys, os, json, io, runpy
sys.dont_write_bytecode = True
repo, fn, design, out, over = sys.argv[1:6]
src = os.path.join(repo, "migen_src")
sys.path.insert(0, src)
sys.path.insert(1, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import nmigen.cli
from nmigen.back import rtlil
import designs

seen = {}
orig_run, orig_conv = nmigen.cli.main_runner, rtlil.convert_fragment


def runner(parser, args, d, *a, **k):
    seen["design"] = d
    seen["config"] = next((x for x in d._vp_args if isinstance(x, dict)), None)
    return orig_run(parser, args, d, *a, **k)


def new(cls, *a, **k):      # what each module was constructed with
    o = orig_new(cls, *a, **k)
    o._vp_args = a + tuple(k.values())
    return o


def conv(*a, **k):
    r = orig_conv(*a, **k)
    seen["names"] = r[1]
    return r


over = json.loads(over)
if over:        # another configuration of a complete design: the entries of its dictionary a user would edit
    import integration_1
    orig_init = integration_1.Integration1.__init__

    def init(self, config, *a, **k):
        config.update(over)
        orig_init(self, config, *a, **k)
    integration_1.Integration1.__init__ = init
nmigen.cli.main_runner, rtlil.convert_fragment = runner, conv
orig_new = nmigen.Elaboratable.__new__
nmigen.Elaboratable.__new__ = staticmethod(new)
buf, std = io.StringIO(), sys.stdout
sys.argv = [os.path.join(src, fn), "generate"]
sys.stdout = buf
try:
    runpy.run_path(sys.argv[0], run_name="__main__")
finally:
    sys.stdout = std
with open(out, "w") as f:
    f.write(buf.getvalue())
d = seen["design"]
cfg = seen.get("config") or {}
spec = designs.DESIGNS[design]


def resolve(path):
    o = d
    for p in path.split("."):
        o = getattr(o, p)
    return o


def expand(lst):
    for n in lst:
        alias = None
        if "=" in n:
            alias, n = n.split("=")
        if n.endswith("*"):
            for i, s in enumerate(resolve(n[:-1])):
                yield "%s%d" % (alias or n[:-1].split(".")[-1], i), s
        else:
            yield alias or n.split(".")[-1], resolve(n)


def name(s):
    h = seen["names"].get(s) if s in seen["names"] else None
    return h[1].lstrip("\\") if h and len(h) == 2 else None


if over and spec["kind"] == "none":
    cfg = {"_config": over}
ins, outs = ([(n, name(s)) for n, s in expand(spec[k](cfg) if callable(spec[k]) else spec[k])] for k in ("ins", "outs"))
print(json.dumps(dict(ins=ins, outs=outs, config=cfg)))
