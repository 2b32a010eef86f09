"""C29: the Verilog that generate_verilog.py writes, against the specification of every module."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, netsim, vset

META = dict(
    technique="TLC: recorded runs and state graphs of every generated Verilog top level checked against the module's specification",
    note="Every source file's generated Verilog, in the configuration the file ships, is read back, compiled and driven through its "
         "ports alone: clock and reset only as far as they are ports.  Complete designs with the built-in geometry run the first "
         "rows of a frame (a whole frame and a cut one on beta, whole frames on the AXI-lite designs).")


def source(d):
    fn = vset.FILES[d] + ".py"
    v, i, cfg = netsim.generate_verilog(fn, d, vlib.SCRATCH)
    return v, dict(ins=i["ins"], outs=i["outs"]), cfg


vlib.run("C29", lambda c: vset.main(c, source))
