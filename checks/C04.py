"""C04: the stuffing stages, against Stream.tla."""
import itertools, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, streams
from streams import FIX1, FIX2, CHAIN

META = dict(
    technique="TLC: product of the stuffing stages' complete reachable state graphs with Stream.tla; recorded runs; stuffing laws",
    note="Both stages and their chain exhaustively over every schedule of gaps and stalls for byte alphabets that contain "
         "0xFF, 0x00 and ordinary bytes, ended after any word; all 65536 words and long random, 0xFF-heavy streams of every "
         "length parity through the chain under sampled schedules.  Unstuff(Stuff(b)) = b for all b up to the bound.")

A3 = (0, 255, 0x5a)


def pairs(a):
    return [list(x) for x in itertools.product(a, repeat=2)]


def groups(vals):
    """what the first stage can hand to the second: 2..4 bytes"""
    return [list(x) for n in (2, 3, 4) for x in itertools.product(vals, repeat=n)]


GRAPHS = [(FIX1, pairs(A3)), (FIX1, pairs((254, 255, 127, 1))), (FIX2, groups((0xa5, 0x5a))), (CHAIN, pairs((255, 0x5a))),
          (CHAIN, pairs((255, 0)))]
DEEP = [(CHAIN, pairs(A3)), (FIX2, groups((0xff, 0)))]


def gjob(j):
    el, words = j
    s = vlib.sim(el.design)
    g, data = streams.graph(s, el, words, maxn=vlib.pick(150000, 900000))
    return g, data


def tjob(j):
    what, n = j
    r = vlib.rng("C04", what, n)
    out = []
    s = vlib.sim("fixchain")
    if what == "all":       # every 16-bit word, in an order that mixes the neighbourhoods
        lo = n * 8192
        words = [[(x * 40503 + 1 & 65535) >> 8, (x * 40503 + 1) & 255] for x in range(lo, lo + 8192)]
        return [(streams.trace(s, CHAIN, words, r, "1", "0"), dict(what=what, part=n))]
    for k in range(n):
        p = r.choice([0, .02, .3, .7, .95, 1])
        ln = r.choice([1, 2, 3, 4, 5, 9, 40, 41, 150])
        if what == "fix2":
            words = [[255 if r.random() < p else r.getrandbits(8) for _ in range(r.choice((2, 2, 3, 4)))] for _ in range(ln)]
        else:
            words = [[255 if r.random() < p else r.choice((0, 254, r.getrandbits(8))) for _ in range(2)] for _ in range(ln)]
        v = r.choice(("1", "1", "rand", "burst", "alt", "few", "react"))
        b = r.choice(("0", "rand", "burst", "alt", "most", "few", "react", "long"))
        el = {"fix1": FIX1, "fix2": FIX2, "chain": CHAIN}[what]
        out.append((streams.trace(vlib.sim(el.design), el, words, r, v, b), dict(what=what, p=p, len=ln, v=v, b=b)))
    return out


def call(j):
    return gjob(j[1]) if j[0] == "g" else tjob(j[1])


def main(c):
    graphs = GRAPHS + ([] if vlib.quick() else DEEP)
    vlib.build_all([(d, None) for d in ("fix_0xff", "fix_0xff2", "fixchain")])
    n = vlib.pick(60, 500)
    jobs = [("g", x) for x in graphs] + [("t", ("all", k)) for k in range(8)] + \
        [("t", (w, n)) for w in ("chain", "chain", "fix1", "fix2")]
    res = vlib.pmap(call, jobs)
    for (el, words), (g, data) in zip(graphs, res):
        streams.conform_graph(c, "graph", vlib.sim(el.design), g, data, dict(design=el.design, words=words))
    flat = [x for l in res[len(graphs):] for x in l]
    streams.conform(c, "trace", [x[0] for x in flat], [x[1] for x in flat])
    c.closed("MCStuff", constants=dict(Alphabet="{0, 1, 254, 255}", N=vlib.pick(6, 8)),
             invariants=("Undone", "OnlyZeros", "NoMarker", "Padded"))
    c.assumptions.append("the source keeps an offered word until it is taken (integration_3 does: C02)")
    c.sample([dict(design=el.design, states=g.n) for (el, w), (g, d) in zip(graphs, res)])


vlib.run("C04", main)
