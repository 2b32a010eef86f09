"""C13: the bit packer (vbits_to_cbits), against Chunks.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, chunks

META = dict(
    technique="TLC: product of the packer's complete reachable state graph with Chunks.tla; recorded runs at full sizes",
    note="A minimal configuration exhaustively (all schedules of chunks, gaps and stalls over a small chunk alphabet); other "
         "word, chunk and buffer sizes down to the minimum with sampled chunks of every length and random schedules.")

GRAPH = [(8, 3, 11, ((1, 1), (3, 5))), (8, 8, 16, ((8, 0xA5), (5, 0x13))), (8, 1, 9, ((1, 1),)),
         (8, 3, 11, ((1, 1), (2, 1), (3, 6))), (8, 3, 13, ((2, 2), (3, 5)))]


def graphjob(j):
    ob, conv, buf, vals = j
    cfg = dict(out_bits=ob, converter=conv, vbits_to_cbits_buffer_size=buf)
    s = vlib.sim("vbits", cfg)
    g, data = chunks.src_graph(s, "pack", list(vals), ob, dict(conv=ob, slack=0, cap=buf), vlib.pick(300000, 3000000))
    return g, data


def tracejob(j):
    ob, conv, buf, n = j
    cfg = dict(out_bits=ob, converter=conv, vbits_to_cbits_buffer_size=buf)
    s = vlib.sim("vbits", cfg)
    r = vlib.rng("C13t", *j[:3])
    out = []
    for k in range(n):
        ch = []
        top = r.choice([conv, conv, max(1, conv // 2), min(3, conv)])
        for _ in range(r.choice([60, 60, r.randint(1, 6)])):
            ln = r.choice([r.randint(1, top), r.randint(1, top), conv, 1])
            ch.append((r.choice([r.getrandbits(ln), (1 << ln) - 1, 0, 1]), ln))
        if k % 3 == 0:       # a total that is an exact number of words
            tot = sum(x[1] for x in ch)
            miss = -tot % ob
            while miss:
                ln = min(miss, conv)
                ch.append((r.getrandbits(ln), ln))
                miss -= ln
        gap, pol = r.choice([0, 0, .3, .8]), r.choice(["0", "0", "rand", "burst", "few", "most", "alt", "long", "react"])
        out.append((chunks.src_trace(s, "pack", ch, ob, dict(conv=ob, slack=0, cap=buf), r, gap, pol),
                    dict(cfg=cfg, gap=gap, pol=pol)))
    return out


def main(c):
    gs = vlib.pmap(graphjob, GRAPH[:vlib.pick(3, 5)])
    js = [(16, 30, 77), (16, 15, 41), (32, 48, 144), (16, 15, 31), (8, 15, 23), (24, 31, 55), (32, 31, 63), (64, 48, 112),
          (8, 62, 70), (16, 16, 32), (16, 1, 17), (40, 33, 73), (8, 31, 128), (16, 30, 46), (64, 124, 188), (32, 7, 39), (32, 64, 96), (16, 32, 64), (8, 8, 16)]
    if not vlib.quick():
        r = vlib.rng("C13")
        for _ in range(60):
            ob, cv = 8 * r.randint(1, 8), r.randint(1, 124)
            js.append((ob, cv, ob + cv + r.choice([0, 0, 1, 2, 7, 40])))
    flat = [x for l in vlib.pmap(tracejob, [j + (vlib.pick(12, 60),) for j in js]) for x in l]
    for (g, data), j in zip(gs, GRAPH):
        s = vlib.sim("vbits", dict(out_bits=j[0], converter=j[1], vbits_to_cbits_buffer_size=j[2]))
        chunks.conform_graph(c, "graph", s, g, data, j)
    chunks.conform(c, "trace", [x[0] for x in flat], [x[1] for x in flat])
    c.extra["configurations"] = len(js) + len(gs)
    c.sample(flat[0][1])


vlib.run("C13", main)
