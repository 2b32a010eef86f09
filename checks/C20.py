"""C20: the burst address generator, against Burst.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, burst

META = dict(
    technique="TLC: recorded runs of the real address generator checked against Burst.tla",
    note="Several steps, start addresses changing before the first take and after it, wrap-around at 2^32, random take timing, "
         "resets; sampled.")
STEPS = [1, 16, 128, 4096, 65535]


def call(j):
    step, n, q = j
    s = vlib.sim("address_generator", dict(address_shift=step))
    r = vlib.rng("C20", step, q)
    return [burst.address_trace(s, step, r.choice([10, 60, 300]), r) for _ in range(n)]


def main(c):
    vlib.build_all([("address_generator", dict(address_shift=x)) for x in STEPS])
    res = vlib.pmap(call, [(x, vlib.pick(30, 500), q) for x in STEPS for q in range(2)])
    tr = [x for l in res for x in l]
    burst.conform(c, "addresses", tr)
    c.extra["addresses_taken"] = sum(1 for t in tr for x in t["rows"] if x.get("take"))
    c.sample(tr[0]["rows"][:8])


vlib.run("C20", main)
