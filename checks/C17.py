"""C17: the DMA control registers, against AxiLite.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, axil

META = dict(
    technique="TLC: recorded accesses to the real DMA register block checked against the register file of AxiLite.tla; product of "
              "its state graph with AxiLite.tla",
    note="Every register and every byte strobe written and read back, all status words live and changing during the accesses, "
         "unmapped addresses, random histories with resets; the driven outputs are compared in every cycle.")
DMA = dict(kind="dma", bd=0, debug=False)
BASE = 0x43C10000


def job(j):
    what, n, seed = j
    s = vlib.sim("dma_axi_lite", None)
    r = vlib.rng("C17", what, seed)
    out = []
    if what == "all":
        # all strobes of all registers, each followed by reads of every register
        ops = []
        for k in range(16):
            for st in range(16):
                ops.append(("w", BASE | (0x400 + k) << 2, r.getrandbits(32), st))
                ops.append(("r", BASE | (0x400 + r.choice([k, k, r.randrange(12)])) << 2))
            ops += [("r", BASE | (0x400 + q) << 2) for q in range(12)]
        out.append(axil.trace(s, DMA, ops, r, axil.dma_out, "serial"))
        ops = []
        for b in list(range(10)) + list(range(11, 30)):       # every address bit but the block select
            ops.append(("r", (1 << b) << 2))
            ops.append(("w", (1 << b) << 2, r.getrandbits(32), 15))
            ops.append(("w", ((1 << b) | 0x400 if b > 3 else 0x401) << 2, r.getrandbits(32), 15))
            ops += [("r", (0x400 + q) << 2) for q in range(3)]
        out.append(axil.trace(s, DMA, ops, r, axil.dma_out, "serial"))
        return out
    for k in range(n):
        ops = []
        for _ in range(r.randint(4, 60)):
            a = r.choice([BASE, 0, 0xffff0000 & ~0x1000]) | r.choice([0x400 + r.randrange(3), 0x400 + r.randrange(12),
                                                                   0x400 + r.randrange(16), r.randrange(0x400), 0x800 + r.randrange(3)]) << 2
            ops.append(("r", a) if r.random() < .5 else ("w", a, r.choice([r.getrandbits(32), 0, 0xffffffff]),
                                                         r.choice([15, 15, r.getrandbits(4)])))
        out.append(axil.trace(s, DMA, ops, r, axil.dma_out, r.choice(["serial", "overlap", "stream"]), resets=int(k % 4 == 0)))
    return out


def main(c):
    vlib.build_all([("dma_axi_lite", None)])
    jobs = [("all", 0, q) for q in range(vlib.pick(2, 6))] + [("rand", vlib.pick(60, 900), q) for q in range(6)]
    res = vlib.pmap(job, jobs)
    tr = [x for l in res for x in l]
    vlib.tick("recorded")
    axil.conform(c, "registers", tr)
    s = vlib.sim("dma_axi_lite", None)
    at = [BASE | (0x400 + k) << 2 for k in range(16)]
    for ra, wa in vlib.pick([([at[0]], [at[0], at[2]])], [(at[0:3], at[0:3]), ([at[3], BASE], [at[3], at[0], BASE])]):
        g, d = axil.graph(s, DMA, ra, wa, [(0xffffffff, 5), (0, 15)], ["o_read_addr", "o_write_addr", "o_start"],
                          [[0, 0, 0, 0]] * 9, 2000000)
        axil.conform_graph(c, "register-graph", s, g, d)
    c.extra["accesses"] = sum(1 for t in tr for x in t["rows"] if len(x) > 1 and (x[0] & 12 == 12 or x[0] & 768 == 768))
    c.sample(tr[0]["rows"][:12])


vlib.run("C17", main)
