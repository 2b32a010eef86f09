"""C22: the bus wrappers, against Wrappers.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, wraps

META = dict(
    technique="recorded runs of every wrapper checked against Wrappers.tla (TLC)",
    note="All five stream wrappers and the memory-to-memory design; frames of every stimulus kind with random bits in the unused lanes and a random input last flag, "
         "several frames back to back (also with words that straddle frames), sampled gap and stall schedules; frames cut by the cycle limit "
         "(constant pixels; thorough: also the unmodified designs with their built-in size and limit).")


def job(j):
    name, n, q = j
    x = wraps.W[name]
    s = vlib.sim(name, x.cfg)
    r = vlib.rng("C22", name, q)
    out = []
    for k in range(n):
        w = max(4, 3 * x.ps) + x.ps * r.choice([0, 0, 1, 2, 5, 9])
        h = r.choice([2, 3, 3, 4, 6])
        nf = 1 if name == "i3_axis" else r.randint(1, 4)
        if name == "i3_axis":
            h += h * w % 4 and 4 - h % 4
        while x.per > x.ps and nf * w * h % x.per:
            nf += 1
        kinds = [r.choice(pipe.KINDS) for _ in range(nf)]
        px = [p for kd in kinds for p in pipe.image(kd, w * h, 12, w, r)]
        v, b = r.choice(pipe.VPOL), r.choice(pipe.BPOL)
        out.append((wraps.run(s, x, w, h, px, nf, v, b, r), dict(design=name, w=w, h=h, kinds=kinds, v=v, b=b)))
    return out


def mem(j):
    n, q = j
    x = wraps.W["beta_fullaxi"]
    s = vlib.sim(x.name, x.cfg)
    r = vlib.rng("C22", x.name, q)
    out = []
    for k in range(n):
        w, h, nf = r.choice([(16, 4, 1), (16, 8, 1), (32, 4, 1), (16, 4, 3), (8, 8, 2), (8, 8, 3), (8, 8, 5), (8, 16, 2), (64, 2, 1), (16, 16, 1), (12, 16, 1)])
        kinds = [r.choice(pipe.KINDS) for _ in range(nf)]
        px = [p for kd in kinds for p in pipe.image(kd, w * h, 12, w, r)]
        out.append((wraps.memory(s, x, w, h, px, nf, r), dict(design=x.name, w=w, h=h, kinds=kinds)))
    return out


def big(j):
    """constant pixels: a frame cut by the cycle limit, a whole one, the beginning of the next"""
    name, n, q = j
    x = wraps.W[name]
    if not n:
        return [wraps.big(vlib.sim(name, None), x)]      # the built-in size and limit
    s, r, out = vlib.sim(name, x.cfg), vlib.rng("C22", "big", name, q), []
    for k in range(n):
        w = max(4, 3 * x.ps) + x.ps * r.choice([0, 1, 2, 3, 8, 20])
        w, h = w + -w % 4, 4 * r.randint(1, 12)
        m = w * h // x.per
        cut = r.choice([1, 2, 3, m - 1, r.randint(1, m - 1), r.randint(1, m - 1)])
        out.append(wraps.big(s, x, w, h, max(2 * cut + 300, w * h // x.ps + 900) + r.randint(0, 900), cut, r.randint(1, m - 1)))
    return out


def call(j):
    return j[0](j[1])


def main(c):
    full = ["beta_axis", "beta_fifo_axis", "beta_fifo_lvds", "i3_axis"]
    vlib.build_all([(x.name, x.cfg) for x in wraps.W.values()] + vlib.pick([], [(x, None) for x in full]))
    n = vlib.pick(60, 600)
    bigs = [(big, (d, vlib.pick(25, 300), q)) for d in wraps.W if d != "beta_fullaxi" for q in range(1)]
    bigs += vlib.pick([], [(big, (x, 0, 0)) for x in full])
    res = vlib.pmap(call, [(job, (d, n, q)) for d in wraps.W if d != "beta_fullaxi" for q in range(2)] +
                    [(mem, (n // 6, q)) for q in range(2)] + bigs)
    bres, res = [y for x in res[len(res) - len(bigs):] for y in x], res[:len(res) - len(bigs)]
    res, mems = res[:-2], [y for x in res[-2:] for y in x]
    vlib.tick("recorded")
    flat = [x for l in res for x in l]
    wraps.conform(c, "wrapper", [x[0] for x in flat], [x[1] for x in flat])
    wraps.conform_memory(c, "memory", [x[0] for x in mems], [x[1] for x in mems])
    wraps.conform_big(c, "cut-frames", bres)
    for l in res[::2]:
        c.sample(l[0][1])
    c.assumptions.append("the source of the 64-bit wrappers holds a word until it is taken (documented: must be a FIFO)")


vlib.run("C22", main)
