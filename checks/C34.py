"""C34: the memory-to-memory design as a bus master, against Transfer.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, wraps

META = dict(
    technique="TLC checks Transfer.tla (windows, bounds, rest); recorded runs of the design and runs over millions of cycles are checked against it",
    note="The unmodified full-AXI design: random memories (sampled pauses on all five channels, random or constant words), start registers other than all "
         "ones, stops in the middle, status registers read at any time; runs of 8.6 million cycles to the limits with an always ready memory.")


def small(j):
    n, q = j
    x = wraps.W["beta_fullaxi"]
    s = vlib.sim(x.name, x.cfg)
    r = vlib.rng("C34", q)
    out = []
    for k in range(n):
        nb = r.choice([1, 2, 8, 9, 15, 16, 20, 40])
        kind = r.choice(["run", "run", "run", "stop", "off"])
        start = r.choice([0, 1, 0xfffffffe, 0x7fffffff, 0xffff, 0xffff0000]) if kind == "off" else 0xffffffff
        stop = r.randint(61, 700) if kind == "stop" else None
        top = r.random() < .2
        out.append((wraps.transfer(s, x, r, nb, start, stop, src=(1 << 32) - 128 * r.randint(1, 12) if top else None,
                                   dst=(1 << 32) - 128 * r.randint(1, 12) if top else None), dict(bursts=nb, kind=kind, start=start, stop=stop)))
    return out


def long(j):
    seed, n = j
    return wraps.longrun(vlib.sim("beta_fullaxi", None), seed, n, vlib.rng("C34l", seed))


def call(j):
    return j[0](j[1])


CONST = dict(ReadLimit=196608, WriteLimit=131072, Burst=16, MaxActive=8, MaxUnconf=15)


def main(c):
    vlib.build_all([("beta_fullaxi", wraps.W["beta_fullaxi"].cfg), ("beta_fullaxi", None)])
    jobs = [(long, (12345, 8600000)), (long, (0, 6700000))] + vlib.pick([], [(long, (777, 30000000)), (long, (0, 30000000))])
    nl = len(jobs)
    res = vlib.pmap(call, jobs + [(small, (vlib.pick(25, 250), q)) for q in range(6)])
    vlib.tick("recorded")
    runs, flat = res[:nl], [y for l in res[nl:] for y in l]
    traces = [x[0] for x in flat]

    def replay(r):
        t, i = (int(vlib.statevar(r.trace[-1], q)) for q in "ti")
        return dict(info=flat[t - 1][1], event=i, src=traces[t - 1]["src"], dst=traces[t - 1]["dst"], rows=traces[t - 1]["rows"][:i][-300:])
    for l in (dict(Burst=2, ReadLimit=4, WriteLimit=3, MaxActive=2, MaxUnconf=3), dict(Burst=2, ReadLimit=3, WriteLimit=2, MaxActive=1, MaxUnconf=2)):
        c.closed("MCTransfer", constants=l, invariants=("Window", "Bounded", "Quiet", "Never", "Offered"), spec="Spec", properties=("Rest",))
    c.conform("TransferTrace", "transfer", dict(traces=traces, long=[]), ntraces=len(traces), replayer=replay, view="View", constants=CONST)
    lr = lambda r: dict(runs=runs)
    c.conform("TransferTrace", "window", dict(traces=[], long=runs), ntraces=nl, replayer=lr, invariants=("LongOK",), constants=CONST, init="LInit")
    c.conform("TransferTrace", "read-limit", dict(traces=[], long=runs), ntraces=nl, replayer=lr, invariants=("ReadsOK",), constants=CONST, init="LInit")
    c.count("bursts_in_long_runs", sum(x["ar"] + x["aw"] for x in runs))
    c.count("cycles_in_long_runs", sum(x["cycles"] for x in runs))
    c.count("register_reads", sum(1 for t in traces for x in t["rows"] if x[0] == 8))
    c.sample(flat[0][1])


vlib.run("C34", main)
