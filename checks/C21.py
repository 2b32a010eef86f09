"""C21: the width converters, against Stream.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, streams
from streams import B16B64, B16B40, B64B32, B64B32_2

META = dict(
    technique="TLC: product of each converter's complete reachable state graph with Stream.tla; recorded runs",
    note="Every schedule of gaps and stalls exhaustively for word alphabets whose bytes are all different, for all four "
         "converters; long random and walking-one streams under sampled schedules for the full data range.")

ELS = {e.design: e for e in (B16B64, B16B40, B64B32, B64B32_2)}


def seqw(n, k, base):
    return [[(base + 17 * i + j * 83) & 255 for j in range(n)] for i in range(k)]


#           element     words
GRAPHS = [("b64_b32", seqw(8, 3, 1)), ("b64_b32_2", seqw(8, 5, 1)), ("b16_b40", seqw(2, 3, 0xa5)), ("b16_b64", seqw(2, 1, 0xa5))]
DEEP = [("b64_b32", seqw(8, 4, 1)), ("b16_b40", seqw(2, 4, 0x35)), ("b64_b32_2", seqw(8, 9, 7)), ("b16_b64", seqw(2, 2, 0x35))]


def gjob(j):
    d, words = j
    el = ELS[d]
    return streams.graph(vlib.sim(d), el, words, maxn=vlib.pick(300000, 1500000), ends=(0, 1) if el.end else (0,))


def tjob(j):
    d, n = j
    el = ELS[d]
    r = vlib.rng("C21", d, n)
    out = []
    for k in range(n):
        ln = r.choice([1, 2, 3, 4, 5, 9, 17, 40, 41, 160])
        kind = r.choice(("rand", "walk", "count", "few"))
        words = []
        for i in range(ln):
            if kind == "walk":
                v = 1 << (i * 7 % (8 * el.nin))
                words.append(streams.by(v, el.nin))
            elif kind == "count":
                words.append([(i * el.nin + b) & 255 for b in range(el.nin)])
            elif kind == "few":
                words.append([r.choice((0, 255)) for _ in range(el.nin)])
            else:
                words.append([r.getrandbits(8) for _ in range(el.nin)])
        v, b = r.choice(pipe.VPOL), r.choice(pipe.BPOL)
        ends = {i for i in range(ln) if r.random() < .1} if el.end and r.random() < .5 else set()
        out.append((streams.trace(vlib.sim(d), el, words, r, v, b, ends=ends), dict(design=d, kind=kind, len=ln, v=v, b=b, ends=sorted(ends))))
    return out


def call(j):
    return gjob(j[1]) if j[0] == "g" else tjob(j[1])


def main(c):
    graphs = GRAPHS + ([] if vlib.quick() else DEEP)
    vlib.build_all([(d, None) for d in ELS])
    n = vlib.pick(80, 800)
    jobs = [("g", x) for x in graphs] + [("t", (d, n + k)) for d in ELS for k in (0, 1)]
    res = vlib.pmap(call, jobs)
    for (d, words), (g, data) in zip(graphs, res):
        streams.conform_graph(c, "graph", vlib.sim(d), g, data, dict(design=d, words=words))
    flat = [x for l in res[len(graphs):] for x in l]
    streams.conform(c, "trace", [x[0] for x in flat], [x[1] for x in flat])
    c.assumptions.append("the source keeps an offered word until it is taken; b16_b64, b16_b40 and b64_b32 show not busy in the "
                         "first cycle after reset and no word is offered in it; the source of b64_b32_2 is a FIFO that holds the word")
    c.sample([dict(design=d, states=g.n) for (d, w), (g, _) in zip(graphs, res)])


vlib.run("C21", main)
