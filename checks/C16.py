"""C16: one answer per request, in order, no hang, against AxiLite.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, axil, pipe

META = dict(
    technique="TLC: product of both AXI-lite slaves' reachable state graphs under every timing of a legal master with AxiLite.tla; "
              "recorded random transactions checked against AxiLite.tla",
    note="Graphs: all timings of valid and ready signals over one or two addresses and data values per channel, reads and writes at "
         "the same time, data before and after its address.  Traces: wide addresses and data, back-to-back requests.  The master "
         "keeps its ready once it has shown it for an accepted request (documented limit of the slaves).")
CORE = dict(kind="core", bd=12, debug=False)
COREDBG = dict(kind="core", bd=12, debug=True)
DMA = dict(kind="dma", bd=0, debug=False)
BASE = 0x43C00000


def gjob(j):
    which, P, ra, wa, wd, maxn = j
    if which == "core":
        s = vlib.sim("core_axi_lite", dict(bit_depth=12, axi_lite_debug=P["debug"]))
        return axil.graph(s, P, ra, wa, wd, ["o_height", "o_width", "o_allowed_cycles"], [0] * 8, maxn)
    s = vlib.sim("dma_axi_lite", None)
    return axil.graph(s, P, ra, wa, wd, ["o_read_addr", "o_write_addr", "o_start"], [[0, 0, 0, 0]] * 9, maxn)


def tjob(j):
    which, n, seed = j
    r = vlib.rng("C16", which, seed)
    out = []
    if which == "core":
        s = vlib.sim("core_axi_lite", dict(bit_depth=12, axi_lite_debug=True))
        P, outf = COREDBG, axil.core_out
    else:
        s = vlib.sim("dma_axi_lite", None)
        P, outf = DMA, axil.dma_out
    for k in range(n):
        ops = []
        for _ in range(r.randint(1, 40)):
            if which == "core":
                a = BASE | r.choice([0x800, 0x801, 0x1000 + r.randrange(8), 0, 0x400 + r.randint(26, 63)]) << 2
            else:
                a = BASE | r.choice([0x400 + r.randrange(12), 0x400 + r.randrange(3), 0]) << 2
            ops.append(("r", a) if r.random() < .5 else ("w", a, r.getrandbits(32), r.choice([15, 15, r.getrandbits(4)])))
        out.append(axil.trace(s, P, ops, r, outf, r.choice(["serial", "overlap", "stream"]), resets=int(k % 5 == 0)))
    return out


def call(j):
    return j[0](j[1])


def main(c):
    vlib.build_all([("core_axi_lite", dict(bit_depth=12, axi_lite_debug=d)) for d in (False, True)] + [("dma_axi_lite", None)])
    hw, lim, bad, dbg = BASE | 0x800 << 2, BASE | 0x801 << 2, BASE | 0x20 << 2, BASE | 0x1003 << 2
    ra, wa, st, rd = (BASE | (0x400 + k) << 2 for k in (0, 1, 2, 5))
    big = 40000
    graphs = [("core", CORE, [hw], [hw], [(0xffffffff, 5)], big), ("core", CORE, [bad], [bad], [(0xa5, 15)], big),
              ("core", CORE, [lim], [hw], [(0xffffffff, 15)], big), ("core", COREDBG, [dbg], [dbg], [(1, 15)], big),
              ("dma", DMA, [ra], [ra], [(0xffffffff, 10)], big), ("dma", DMA, [st], [wa], [(0x01020304, 15)], big),
              ("dma", DMA, [rd], [rd], [(0xff, 15)], big), ("dma", DMA, [bad], [bad], [(0xff, 15)], big)]
    graphs += [("core", CORE, [hw, bad], [hw, lim], [(0xffffffff, 15), (0, 15)], 60000),
               ("dma", DMA, [ra, bad], [ra, rd], [(0xffffffff, 15), (0, 15)], 60000)]
    if not vlib.quick():
        graphs += [("core", COREDBG, [hw, bad, dbg], [hw, lim, dbg, bad], [(0xffffffff, 15), (0, 9)], 2000000),
                   ("dma", DMA, [ra, bad, rd], [ra, wa, rd, bad], [(0xffffffff, 15), (0, 9)], 2000000)]
    n = vlib.pick(60, 800)
    jobs = [(gjob, x) for x in graphs] + [(tjob, (w, n, q)) for w in ("core", "dma") for q in range(2)]
    res = vlib.pmap(call, jobs)
    vlib.tick("explored and recorded")
    for (w, P, *rest), (g, d) in zip(graphs, res):
        s = vlib.sim("core_axi_lite", dict(bit_depth=12, axi_lite_debug=P["debug"])) if w == "core" else vlib.sim("dma_axi_lite", None)
        axil.conform_graph(c, "timing-%s" % w, s, g, d)
    for w, tr in (("core", res[len(graphs)] + res[len(graphs) + 1]), ("dma", res[len(graphs) + 2] + res[len(graphs) + 3])):
        axil.conform(c, "transactions-%s" % w, tr)
    c.sample(dict(graph_states=[x[0].n for x in res[:len(graphs)]]))


vlib.run("C16", main)
