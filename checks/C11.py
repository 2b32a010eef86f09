"""C11: programming the code table over AXI-lite, against AxiLite.tla and Pipeline.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, axil, huff
from pipe import mkcfg

META = dict(
    technique="TLC: recorded programming sequences of the real core checked against the register file of AxiLite.tla, and the "
              "frame coded afterwards against Pipeline.tla with the written table",
    note="Random prefix-free tables with code lengths up to 16, written whole, in halves, in bytes, in any order, over garbage "
         "and over the default table with entries left alone; every entry read back; several bit depths and lane counts; "
         "random (sampled) tables and orders.")
BASE = 0x43C00000
CFGS = [mkcfg(1, 12, axi=True), mkcfg(2, 12, axi=True), mkcfg(4, 8, axi=True, ob=32), mkcfg(1, 16, axi=True), mkcfg(2, 16, axi=True, ob=40),
        mkcfg(4, 2, axi=True), mkcfg(2, 10, axi=True, ob=24), mkcfg(4, 15, axi=True), mkcfg(1, 5, axi=True, ob=8), mkcfg(2, 11, axi=True)]


def job(j):
    cfg, n, seed = j
    ps, bd = cfg["pixels_per_cycle"], cfg["bit_depth"]
    s = vlib.sim("integration_3", cfg)
    r = vlib.rng("C11", ps, bd, seed)
    P = dict(kind="core", bd=bd, debug=False)
    none = lambda q: []
    out = []
    for k in range(n):
        ncat = bd + 1
        dflt = [list(x) for x in pipe.DEFAULT_CODES]
        style = r.choice(["all", "all", "swap", "rotate", "none"])
        if style == "all":
            tab = huff.rand_table(r, ncat)
            cats = list(range(ncat))
        elif style == "none":
            tab, cats = dflt, []
        else:
            tab = [list(x) for x in dflt]
            cats = r.sample(range(ncat), 2 if style == "swap" else min(ncat, 3))
            for a, b in zip(cats, cats[1:] + cats[:1]):
                tab[b] = dflt[a]
        last, ops = [], []
        for cat in cats:
            e, old = huff.entry(bd, cat, tab), huff.entry(bd, cat, dflt)
            for half in (0, 1):
                v = e >> (32 * half) & 0xffffffff
                ad = BASE | (0x400 + 2 * cat + half) << 2
                g = r.choice(["word", "word", "bytes", "pairs", "changed"])
                groups = {"word": [15], "bytes": [1, 2, 4, 8], "pairs": r.choice([[3, 12], [5, 10], [9, 6]])}.get(g)
                if groups is None:      # only the bytes which differ
                    m = sum(1 << b for b in range(4) if (e >> 32 * half ^ old >> 32 * half) >> 8 * b & 255)
                    groups = [m] if m else []
                else:
                    for _ in range(r.choice([0, 0, 1])):
                        ops.append(("w", ad, r.getrandbits(32), r.getrandbits(4)))
                for st in groups:
                    x = r.getrandbits(32)
                    m = sum(255 << 8 * b for b in range(4) if st >> b & 1)
                    last.append(("w", ad, v & m | x & ~m & 0xffffffff, st))
                if r.random() < .2:
                    last.append(("w", ad, r.getrandbits(32), 0))
        r.shuffle(ops)
        r.shuffle(last)
        ops += last
        w, h = max(4, 3 * ps) + ps * r.choice([0, 1, 3]), r.choice([2, 3, 4])
        reads = [("r", BASE | (0x400 + q) << 2) for q in range(2 * ncat)]
        r.shuffle(reads)
        regs = [("w", BASE | 0x800 << 2, h | w << 16, 15), ("w", BASE | 0x801 << 2, 0xffffff, 15)]
        if r.random() < .5:
            ops = regs + ops + reads
        else:
            ops = ops + reads + regs
        bad = [("w", BASE | (0x400 + q) << 2, r.getrandbits(32), 15) for q in range(2 * ncat, 64)]      # beyond the table
        ops += r.sample(bad, min(len(bad), 2)) + reads[:3]
        s.set("i_valid_in", 0)
        T = axil.trace(s, P, ops, r, none, r.choice(["serial", "overlap", "stream"]),
                       pre=lambda z: z.sets(i_valid_in=0, i_busy_in=0))
        # then frames, without touching the configuration again
        f = [pipe.image(r.choice(pipe.KINDS), w * h, bd, w, r) for _ in range(1)]
        pipe.axil_idle(s)
        F = pipe.run_frames(s, cfg, w, h, f, r.choice(pipe.VPOL), r.choice(pipe.BPOL), r, setup=False, tab=tab)
        out.append((T, F, dict(cfg=cfg, style=style, tab=tab)))
    return out


def main(c):
    vlib.build_all([("integration_3", x) for x in CFGS])
    res = vlib.pmap(job, [(x, vlib.pick(12, 150), q) for q in range(vlib.pick(1, 3)) for x in CFGS])
    flat = [x for l in res for x in l]
    vlib.tick("recorded")
    axil.conform(c, "table-access", [x[0] for x in flat], [x[2] for x in flat])
    pipe.conform(c, "frames", [x[1] for x in flat], [x[2] for x in flat])
    c.extra["tables"] = len(flat)
    c.extra["table_accesses"] = sum(1 for T, _, _ in flat for x in T["rows"] if len(x) > 1 and (x[0] & 12 == 12 or x[0] & 768 == 768))
    c.sample(flat[0][2])


vlib.run("C11", main)
