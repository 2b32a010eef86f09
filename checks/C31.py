"""C31: the debug counters of the complete designs, against DebugTrace.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, frames, watch

META = dict(
    technique="TLC: recorded runs of the complete designs, with reads of the counters at random times, checked against DebugTrace.tla",
    note="Both complete designs with AXI-lite and the debug counters switched on; several frames per run, complete and cut ones, all gap "
         "and stall schedules, reads before, during and after frames; every value read must be exact up to one constant lag.")
CFG = {"_config": dict(support_axi_lite=True, axi_lite_debug=True)}

LONG = {d: {"_config": dict(CFG["_config"], LJ92_fifo_depth=32, converter_fifo_depth=12, vbits_to_cbits_buffer_size=pipe.mkcfg(p, 12)["converter"] + 16,
                            converter=pipe.mkcfg(p, 12)["converter"])} for d, p in (("beta", 2), ("micro", 1))}


def job(j):
    D, n, seed = j
    s = vlib.sim(D["name"], CFG)
    r = vlib.rng("C31", D["name"], seed)
    out = []
    for k in range(n):
        lim = r.choice([None, None, 150, 400])
        fr = frames.rnd_frames(D, r, r.randint(1, 3), limit=lim or frames.FULLC, small=k % 3 > 0)
        z = watch.Watch(s, r, r.choice([.02, .1, .4, 1]))
        v, b = r.choice(pipe.VPOL), r.choice(pipe.BPOL)
        frames.run(z, D, fr, v, b, r, host=frames.axi_host(fr))
        z.set("i_valid_in", 0)
        z.rate = 1
        for _ in range(60):
            z.cycle()
        out.append((dict(per=int(D["name"] == "beta"), rows=z.rows), dict(design=D["name"], v=v, b=b, frames=len(fr), limit=lim)))
    return out


def long(j):
    """more than 2^16 cycles with the sink stalled, and more than 2^16 (thorough: 2^24) between two frames"""
    D, seed = j
    s, r = vlib.sim(D["name"], LONG[D["name"]]), vlib.rng("C31", "long", D["name"], seed)
    fr = [frames.frame(D, 40, 20, frames.FULLC, pipe.image("noise", 800, 12, 40, r)) for _ in range(2)]
    z = watch.Watch(s, r, .05, hold=(120, 1500, 65500 + r.randint(0, 100)))
    frames.run(z, D, fr[:1], "1", "0", r, host=frames.axi_host(fr))
    z.sets(i_valid_in=0, i_busy_in=seed % 2)
    for k in range(3):
        z.rate = 0
        for _ in range(80):
            z.cycle()
        if z.still(40):
            z.skip(r.randint(1, 99) + (65450 if k else vlib.pick(131000, 1 << 24)))
        z.rate = 1
        for _ in range(100):
            z.cycle()
    return [(dict(per=int(D["name"] == "beta"), rows=z.rows), dict(design=D["name"], skipped=[x[2] for x in z.rows if len(x) == 3]))]


def call(j):
    return j[0](j[1])


def main(c):
    vlib.build_all([(d, CFG) for d in ("beta", "micro")] + list(LONG.items()))
    n = vlib.pick(40, 400)
    flat = [x for l in vlib.pmap(call, [(long, (D, q)) for D in (frames.BETA, frames.MICRO) for q in range(2)] +
                                      [(job, (D, n, q)) for D in (frames.BETA, frames.MICRO) for q in range(4)]) for x in l]
    vlib.tick("recorded")

    def replay(q):
        t, i = (int(vlib.statevar(q.trace[-1], x)) for x in "ti")
        return dict(info=flat[t - 1][1], cycle=i, rows=flat[t - 1][0]["rows"][max(0, i - 300):i])
    c.conform("DebugTrace", "counters", dict(traces=[x[0] for x in flat]), ntraces=len(flat), replayer=replay, view="View")
    c.extra["reads"] = sum(len(y) > 3 for x, _ in flat for y in x["rows"])
    c.count("cycles_recorded", sum(len(x["rows"]) for x, _ in flat))
    c.sample([flat[0][1], flat[-1][1]] + [i for _, i in flat if i.get("skipped")])


vlib.run("C31", main)
