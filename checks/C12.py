"""C12: the splitter (converter), against Chunks.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, chunks

META = dict(
    technique="TLC: product of the splitter's complete reachable state graph with Chunks.tla; recorded runs at full sizes",
    note="Small configurations exhaustively over all schedules of offered chunks, gaps and downstream-full for a small chunk "
         "alphabet; full-size configurations with sampled chunks of every length and random schedules.")

GRAPH = [(2, 1, 7, (1, 7, 8, 14, 15, 18)), (2, 1, 9, (3, 9, 10, 18)), (2, 1, 18, (1, 18)), (3, 1, 5, (5, 6, 11, 19))]


def graphjob(j):
    bd, ps, conv, lens = j
    cfg = dict(bit_depth=bd, pixels_per_cycle=ps, converter=conv)
    s = vlib.sim("converter", cfg)
    r = vlib.rng("C12g", *j[:3])
    vals = [(n, r.getrandbits(n) | 1 << (n - 1) | 1) for n in lens] + [(lens[-1], 1 << (lens[-1] - 1))]
    g, data = chunks.src_graph(s, "split", vals, conv, dict(conv=conv, slack=chunks.slack_of(cfg), cap=0), 400000)
    return g, data


def tracejob(j):
    bd, ps, conv, n = j
    cfg = dict(bit_depth=bd, pixels_per_cycle=ps, converter=conv)
    s = vlib.sim("converter", cfg)
    r = vlib.rng("C12t", *j[:3])
    tot = pipe.total_ctr(ps, bd)
    out = []
    for k in range(n):
        ch = []
        for _ in range(60):
            ln = r.choice([r.randint(1, tot), r.randint(1, min(conv, tot)), tot, conv, min(tot, conv + 1),
                           min(tot, conv * r.randint(1, 5))])
            ch.append((r.choice([r.getrandbits(ln), (1 << ln) - 1, 1 << (ln - 1), 1]), ln))
        par = dict(conv=conv, slack=chunks.slack_of(cfg), cap=0)
        gap, pol = r.choice([0, 0, .3, .8]), r.choice(["0", "rand", "burst", "few", "most", "alt", "long"])
        out.append((chunks.src_trace(s, "split", ch, conv, par, r, gap, pol), dict(cfg=cfg, gap=gap, pol=pol)))
    return out


def main(c):
    gs = vlib.pmap(graphjob, GRAPH[:vlib.pick(3, 4)])
    js = [(12, 1, 15), (12, 2, 30), (12, 4, 48), (16, 4, 124), (16, 4, 31), (16, 1, 16), (14, 2, 7), (2, 4, 10), (8, 4, 25),
          (10, 2, 26), (15, 1, 31), (12, 1, 28), (16, 2, 62), (12, 4, 1 + 55), (5, 2, 3), (3, 1, 1), (12, 2, 32), (8, 4, 64), (12, 1, 8)]
    if not vlib.quick():
        js += [(bd, ps, cv) for bd in range(2, 17, 2) for ps in (1, 2, 4) for cv in (5, 11, 17, 18)]
    flat = [x for l in vlib.pmap(tracejob, [j + (vlib.pick(7, 60),) for j in js]) for x in l]
    for (g, data), j in zip(gs, GRAPH):
        s = vlib.sim("converter", dict(bit_depth=j[0], pixels_per_cycle=j[1], converter=j[2]))
        chunks.conform_graph(c, "graph", s, g, data, j)
    chunks.conform(c, "trace", [x[0] for x in flat], [x[1] for x in flat])
    c.extra["configurations"] = len(js) + len(gs)
    c.sample(flat[0][1])


vlib.run("C12", main)
