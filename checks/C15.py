"""C15: the core's AXI-lite register file, against AxiLite.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, axil
from pipe import mkcfg

META = dict(
    technique="TLC: recorded accesses to the real slave, alone and inside the core, checked against the register file of "
              "AxiLite.tla; product of its state graph with AxiLite.tla",
    note="Register outputs compared in every cycle; all strobes; every address bit; debug counters driven at random; the code "
         "table inside complete cores of several bit depths; random histories with resets.")
BASE = 0x43C00000


def addr(r, bd, debug):
    x = r.random()
    if x < .45:
        a = r.choice([0x800, 0x801])
    elif x < .6:
        a = 0x400 + r.randrange(2 * (bd + 1))
    elif x < .7:
        a = 0x400 + r.randrange(64)
    elif x < .85:
        a = 0x1000 + r.randrange(8)
    else:
        a = r.randrange(0x400)
    return r.choice([BASE, 0, 0xffff8000]) | a << 2


def rops(r, n, bd, debug, table):
    ops = []
    while len(ops) < n:
        a = addr(r, bd, debug)
        if not table and a >> 12 & 1:
            continue
        ops.append(("r", a) if r.random() < .5 else ("w", a, r.choice([r.getrandbits(32), 0, 0xffffffff]),
                                                     r.choice([15, 15, r.getrandbits(4)])))
    return ops


def job(j):
    what, cfg, n, seed = j
    r = vlib.rng("C15", what, cfg.get("bit_depth"), seed)
    bd, debug = cfg["bit_depth"], cfg["axi_lite_debug"]
    P = dict(kind="core", bd=bd, debug=debug)
    out = []
    if what == "alone":
        s = vlib.sim("core_axi_lite", cfg)
        ops = []
        for a in (0x800, 0x801):
            for st in range(16):
                ops.append(("w", BASE | a << 2, r.getrandbits(32), st))
                ops += [("r", BASE | 0x800 << 2), ("r", BASE | 0x801 << 2)]
        out.append(axil.trace(s, P, ops, r, axil.core_out, "serial"))
        ops = []
        for b in list(range(10)) + list(range(13, 30)):
            ops += [("r", 1 << (b + 2)), ("w", 1 << (b + 2), r.getrandbits(32), 15), ("r", (1 << b | 0x800) << 2),
                    ("w", (1 << b | 0x800) << 2, r.getrandbits(32), 15), ("r", 0x800 << 2), ("r", 0x801 << 2)]
            if debug:
                ops += [("w", (1 << b | 0x1000) << 2, r.getrandbits(32), 15), ("r", (1 << b | 0x1000) << 2)]
        out.append(axil.trace(s, P, ops, r, axil.core_out, "serial"))
        for k in range(n):
            out.append(axil.trace(s, P, rops(r, r.randint(4, 60), bd, debug, False), r, axil.core_out,
                                  r.choice(["serial", "overlap", "stream"]), resets=int(k % 4 == 0)))
    else:
        s = vlib.sim("integration_3", cfg)
        pre = lambda z: z.sets(i_valid_in=0, i_busy_in=0)
        tab = list(range(2 * (bd + 1)))
        out.append(axil.trace(s, P, [("r", BASE | (0x400 + q) << 2) for q in range(64)], r, lambda q: [], "serial", pre=pre))
        for k in range(n):
            out.append(axil.trace(s, P, rops(r, r.randint(20, 80), bd, debug, True) +
                                  [("r", BASE | (0x400 + q) << 2) for q in r.sample(tab, min(len(tab), 8))], r, lambda q: [],
                                  r.choice(["serial", "overlap", "stream"]), resets=int(k % 3 == 0), pre=pre, table=True))
    return out


def main(c):
    alone = [dict(bit_depth=12, axi_lite_debug=d) for d in (False, True)] + [dict(bit_depth=16, axi_lite_debug=True)]
    inside = [mkcfg(ps, bd, axi=True, debug=d) for ps, bd, d in [(1, 12, True), (2, 16, False), (4, 2, True), (1, 8, False), (2, 11, True)]]
    if not vlib.quick():
        inside += [mkcfg(1, bd, axi=True, debug=bool(bd & 1)) for bd in (3, 4, 5, 6, 7, 9, 10, 13, 14, 15)]
    vlib.build_all([("core_axi_lite", x) for x in alone] + [("integration_3", x) for x in inside])
    jobs = [("inside", x, vlib.pick(25, 200), q) for q in range(vlib.pick(1, 2)) for x in inside]
    jobs += [("alone", x, vlib.pick(60, 700), q) for q in range(2) for x in alone]
    res = vlib.pmap(job, jobs)
    vlib.tick("recorded")
    tr = [x for l in res for x in l]
    axil.conform(c, "registers", tr, [dict(job=j[0], cfg=j[1]) for j, l in zip(jobs, res) for _ in l])
    s = vlib.sim("core_axi_lite", alone[0])
    hw, lim, bad = BASE | 0x800 << 2, BASE | 0x801 << 2, BASE
    g, d = axil.graph(s, dict(kind="core", bd=12, debug=False), vlib.pick([hw, lim], [hw, lim, bad]), vlib.pick([hw, lim], [hw, lim, bad]),
                      [(0xffffffff, 6), (0, 15)], ["o_height", "o_width", "o_allowed_cycles"], [0] * 8, 2000000)
    axil.conform_graph(c, "register-graph", s, g, d)
    c.extra["accesses"] = sum(1 for t in tr for x in t["rows"] if len(x) > 1 and (x[0] & 12 == 12 or x[0] & 768 == 768))
    c.sample(tr[0]["rows"][:12])


vlib.run("C15", main)
