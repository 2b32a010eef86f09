"""C07: automatic restart and independence of frames, against Framing.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, frames, huff
from frames import BETA, MICRO

META = dict(
    technique="TLC: recorded histories of several frames through the complete designs (forced and regular ends, changed geometry "
              "and code table, host resets at random times) checked against Framing.tla; framing protocol model MCFraming",
    note="Histories of up to 12 frames without any reset by the harness; every frame may follow a regular end, a forced end or a "
         "host reset at a random cycle; the registers are written once and must survive the restarts; a forced frame followed by a "
         "complete frame of the built-in size on the unmodified beta design.")


def job(j):
    D, cfgd, n, seed = j
    name = D["name"]
    s = vlib.sim(name, cfgd)
    r = vlib.rng("C07", name, seed)
    out = []
    for k in range(n):
        nf = r.choice([2, 3, 4, 5, 6, 12])
        lim = lambda q: r.choice([frames.FULLC] * 4 + [r.randint(0, 60), r.randint(0, 300)])
        same = r.random() < .4
        tab = huff.rand_table(r, 13) if name == "micro" and r.random() < .5 else None
        fr = []
        while len(fr) < nf:
            fr += frames.rnd_frames(D, r, 1, limit=lim, small=True, tab=tab)
            if same and len(fr) > 1:
                c0 = fr[0]["cfg"]
                w, h = c0["w"], c0["h"]
                # limits differ: keep them too, so that the registers are written once only
                fr[-1] = frames.frame(D, w, h, c0["limit"], pipe.image(r.choice(pipe.KINDS), w * h, 12, w, r), tab)
        if r.random() < .3:         # the same frame again: nothing may change
            fr.append(dict(fr[0]))
        keep = r.random() < .6
        resets = set() if keep and name == "micro" else {q for q in range(nf) if r.random() < .25}
        offer = {q: r.randint(1, 12) for q, f in enumerate(fr) if f["cfg"]["limit"] < 2000 and r.random() < .3}
        host = frames.axi_host(fr, keep=keep) if name == "micro" else None
        v, b = r.choice(pipe.VPOL + ["1"]), r.choice(pipe.BPOL + ["0"])
        out.append((frames.run(s, D, fr, v, b, r, host=host, resets=resets, offer=offer),
                    dict(design=name, v=v, b=b, keep=keep, resets=sorted(resets))))
    return out


def collect(s, groups, stopv, maxc):
    """feed `groups` groups, then wait for the end-marked word: (accepted, runs)"""
    acc, runs = 0, []

    def add(x):
        for q in x:
            if runs and runs[-1][1:] == q[1:]:
                runs[-1][0] += q[0]
            else:
                runs.append(list(q))
    s.set("i_valid_in", 1)
    while acc < groups and not (runs and runs[-1][3]):
        a, x = s.words(groups - acc, "o_valid_out", "o_data_out", "o_end_out", "o_nready")
        acc += a
        add(x)
    s.set("i_valid_in", stopv)
    used = 0
    while used < maxc and not (runs and runs[-1][3]):
        n = s.until("o_valid_out", 1, maxc - used)
        if n < 0:
            break
        used += n
        a, x = s.words(3000, "o_valid_out", "o_data_out", "o_end_out", "o_nready")
        used += s.used
        acc += a
        add(x)
    return acc, runs


def bigjob():
    s = vlib.sim("beta", None)
    s.reset()
    s.sets(i_pixel_in1=2048, i_pixel_in2=2048, i_busy_in=0)
    cut = collect(s, 4000, 0, 7000000)
    s.set("i_valid_in", 0)      # the cycle of the automatic reset still belongs to the cut frame
    s.cycle()
    nxt = collect(s, 4096 * 3072 // 2, 1, 100000)
    return dict(cut=cut, next=nxt)


def call(j):
    return bigjob() if j == "big" else job(j)


def main(c):
    B, M = {"_stub_regs": True}, dict(support_axi_lite=True)
    vlib.build_all([("beta", None), ("beta", B), ("micro", M)])
    n = vlib.pick(14, 160)
    jobs = ["big"] + [(D, cf, n, q) for q in range(4) for D, cf in ((BETA, B), (MICRO, M))]
    res = vlib.pmap(call, jobs)
    vlib.tick("recorded")
    flat = [x for l in res[1:] for x in l]
    frames.conform(c, "histories", [x[0] for x in flat], [x[1] for x in flat])
    big = res[0]
    c.conform("FramingBig", "after-forced", dict(groups=big["next"][0], runs=big["next"][1], w=4096, h=3072, ps=2, bits=4, hi=0xEE,
                                                 lo=0xEE), ntraces=1, replayer=lambda r: big)
    c.closed("MCFraming", constants=dict(Bytes="{0, 255}", MaxWords=2, MaxFrames=vlib.pick(3, 4)),
             invariants=("Synchronised", "SameFrames"))
    c.extra["restarts"] = sum(1 for t, i in flat for x in t["rows"] if x[0] & 28 == 20)
    c.extra["host_resets"] = sum(1 for t, i in flat for x in t["rows"] if x[0] == 32)
    c.sample(flat[0][1])
    c.sample(big)


vlib.run("C07", main)
