"""C19: the AXI write engine, against Burst.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, burst

META = dict(
    technique="TLC: product of the writer engine's complete reachable state graph, under every legal slave, buffer and address "
              "source, with Burst.tla; recorded random runs checked against Burst.tla; closed model MCBurst",
    note="Engine graph with 2-, 4- and 16-beat bursts, every timing of enable, address, buffer and slave, confirmations delayed arbitrarily; 16-beat bursts with data values in recorded runs, also with a slave that confirms nothing for a long time.")
GR = [((2, 1, (0, 1)), True), ((4, 1, (1,)), True), ((4, 2, (0, 1)), False), ((16, 1, (0, 1)), True)]


def call(j):
    if j[0] == "g":
        B, na, ens = j[1]
        s = vlib.sim("axihp_writer", dict(data_c=B))
        return burst.writer_graph(s, B, na, ens, vlib.pick(60000, 1000000))
    s = vlib.sim("axihp_writer", None)
    r = vlib.rng("C19", j[2])
    return [burst.writer_trace(s, 16, r.choice([1, 2, 5, 12, 20]), r, lazy=q % 8 == 7) for q in range(j[1])]


def main(c):
    gr = [g for g, q in GR if q or not vlib.quick()]
    vlib.build_all([("axihp_writer", None)] + [("axihp_writer", dict(data_c=g[0])) for g in gr])
    n = vlib.pick(8, 200)
    jobs = [("g", g) for g in gr] + [("t", n, q) for q in range(8)]
    res = vlib.pmap(call, jobs)
    vlib.tick("explored and recorded")
    for g, (gg, d) in zip(gr, res):
        s = vlib.sim("axihp_writer", dict(data_c=g[0]))
        burst.conform_graph(c, "engine-%d-beats" % g[0], s, gg, d)
    tr = [x for l in res[len(gr):] for x in l]
    burst.conform(c, "runs", tr)
    c.closed("MCBurst", constants=dict(Side='"writer"', B=vlib.pick(4, 8), Depth=vlib.pick(8, 16), MaxOut=vlib.pick(2, 3)),
             invariants=("Safe",), properties=("Drains",), spec="Fair")
    c.extra["beats"] = sum(1 for t in tr for x in t["rows"] if x.get("put") or x.get("get"))
    c.sample(dict(graphs=[(g, x[0].n) for g, x in zip(gr, res)]))
    c.sample(tr[0]["rows"][:5])


vlib.run("C19", main)
