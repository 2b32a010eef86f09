"""C30: the pre-generated Verilog in verilog_src, against the specification of every module."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "harness"))
import vlib, netsim, vset

META = dict(
    technique="TLC: recorded runs and state graphs of every committed Verilog file checked against the module's specification",
    note="Every file of verilog_src is read, compiled and driven through its ports alone, in the configuration it was generated "
         "for (data/ports.json lists the ports a user connects).  Bounds as for C29.")
PORTS = json.load(open(os.path.join(HERE, "..", "data", "ports.json")))


def source(d):
    p = PORTS[d]
    v = os.path.join(netsim.repo(), "verilog_src", p["file"] + ".v")
    if not os.path.exists(v):
        raise netsim.ElabError("the file is not there")
    return v, dict(ins=p["ins"], outs=p["outs"]), p["config"]


vlib.run("C30", lambda c: vset.main(c, source))
