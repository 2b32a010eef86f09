"""C18: the AXI read engine, against Burst.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, burst

META = dict(
    technique="TLC: product of the reader engine's complete reachable state graph, under every legal slave, buffer and address "
              "source, with Burst.tla; recorded random runs checked against Burst.tla; closed model MCBurst",
    note="Engine built with 16-beat bursts (thorough: also 2, 4, 8): every reachable state under every timing of enable, address, slave and buffer; data values in recorded runs.")
GR = [((16, 1, (1,)), True), ((4, 2, (0, 1)), True), ((16, 2, (0, 1)), True), ((8, 1, (0, 1)), False)]


def call(j):
    if j[0] == "g":
        B, na, ens = j[1]
        s = vlib.sim("axihp_reader", dict(data_c=B))
        return burst.reader_graph(s, B, na, ens, vlib.pick(40000, 1000000))
    s = vlib.sim("axihp_reader", None)
    r = vlib.rng("C18", j[2])
    return [burst.reader_trace(s, 16, r.choice([1, 2, 5, 12, 20]), r) for q in range(j[1])]


def main(c):
    gr = [g for g, q in GR if q or not vlib.quick()]
    vlib.build_all([("axihp_reader", None)] + [("axihp_reader", dict(data_c=g[0])) for g in gr])
    n = vlib.pick(12, 200)
    jobs = [("g", g) for g in gr] + [("t", n, q) for q in range(8)]
    res = vlib.pmap(call, jobs)
    vlib.tick("explored and recorded")
    for g, (gg, d) in zip(gr, res):
        s = vlib.sim("axihp_reader", dict(data_c=g[0]))
        burst.conform_graph(c, "engine-%d-beats" % g[0], s, gg, d)
    tr = [x for l in res[len(gr):] for x in l]
    burst.conform(c, "runs", tr)
    c.closed("MCBurst", constants=dict(Side='"reader"', B=vlib.pick(4, 8), Depth=vlib.pick(8, 16), MaxOut=vlib.pick(2, 3)),
             invariants=("Safe",), properties=("Drains",), spec="Fair")
    c.extra["beats"] = sum(1 for t in tr for x in t["rows"] if x.get("put") or x.get("get"))
    c.sample(dict(graphs=[(g, x[0].n) for g, x in zip(gr, res)]))
    c.sample(tr[0]["rows"][:5])


vlib.run("C18", main)
