"""C05: framing of the complete designs, against Framing.tla; the markers stage exhaustively against Markers.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, frames
from frames import BETA, MICRO

META = dict(
    technique="TLC: product of the markers stage's reachable state graph with Markers.tla; recorded runs of the complete "
              "designs checked against Framing.tla; framing protocol model MCFraming",
    note="The markers stage over all schedules for a small word alphabet; complete beta and micro designs with frames of "
         "every stimulus kind (also long runs of one bits) and sampled stalls, a stall swept over every cycle of a frame, "
         "and one frame of the built-in size on the unmodified beta design.")


class Sched:
    def __init__(self, on):
        self.on, self.k = on, -1

    def __call__(self, seen):
        self.k += 1
        return int(self.k in self.on)


ONEBITS = [(1 << 12) - 1, 0]


def ones(w, h):
    """differences of +4095: category 12 with additional bits all one -> long runs of one bits"""
    px = []
    for i in range(w * h):
        px.append(4095 if (i // 4) % 2 == 0 else 0)
    return px


def job(j):
    D, cfgd, what, n, seed = j
    name = D["name"]
    s = vlib.sim(name, cfgd)
    r = vlib.rng("C05", name, what, seed)
    out = []
    if what == "sweep":
        ps = D["ps"]
        w, h = max(4, 3 * ps), 3
        fr = [frames.frame(D, w, h, frames.FULLC, pipe.image("walk", w * h, 12, w, r)),
              frames.frame(D, w, h, frames.FULLC, ones(w, h))]
        orig = pipe.Policy
        for st in range(seed, 130, 8):
            for ln in n:
                seq = []
                for _ in fr:
                    seq += [orig("1", r), Sched(set(range(st, st + ln)))]
                pipe.Policy = lambda nm, rr: seq.pop(0)
                try:
                    host = frames.axi_host(fr) if name == "micro" else None
                    out.append((frames.run(s, D, fr, "x", "x", r, host=host), dict(design=name, stall=(st, ln))))
                finally:
                    pipe.Policy = orig
        return out
    for k in range(n):
        fr = frames.rnd_frames(D, r, r.randint(1, 3), small=k % 4 > 0)
        if k % 5 == 0:
            w, h = fr[0]["cfg"]["w"], fr[0]["cfg"]["h"]
            fr[0]["px"] = ones(w, h)
        v, b = r.choice(pipe.VPOL), r.choice(pipe.BPOL)
        host = frames.axi_host(fr) if name == "micro" else None
        out.append((frames.run(s, D, fr, v, b, r, host=host), dict(design=name, v=v, b=b)))
    return out


def bigjob(j):
    """one complete frame of half-scale pixels on the unmodified beta design: only the words that are delivered"""
    s = vlib.sim("beta", None)
    s.reset()
    s.sets(i_pixel_in1=2048, i_pixel_in2=2048, i_valid_in=1, i_busy_in=0)
    return dict(big=s.words(6291456 + 2000, "o_valid_out", "o_data_out", "o_end_out", "o_nready"))


def call(j):
    return bigjob(j) if j == "big" else job(j)


def main(c):
    B = {"_stub_regs": True}
    M = dict(support_axi_lite=True)
    vlib.build_all([("beta", None), ("beta", B), ("micro", M), ("markers", None)])
    n = vlib.pick(40, 400)
    jobs = ["big"] + [(D, cf, "rand", n, q) for D, cf in ((BETA, B), (MICRO, M)) for q in range(4)]
    jobs += [(D, cf, "sweep", vlib.pick((1, 2), (1, 2, 3, 5, 20)), q) for D, cf in ((BETA, B), (MICRO, M))
             for q in range(vlib.pick(2, 8))]
    res = vlib.pmap(call, jobs)
    vlib.tick("recorded")
    flat = [x for l in res[1:] for x in l]
    frames.conform(c, "frames", [x[0] for x in flat], [x[1] for x in flat])
    acc, runs = res[0]["big"]
    c.conform("FramingBig", "full-size", dict(groups=acc, runs=runs, w=4096, h=3072, ps=2, bits=4, hi=0xEE, lo=0xEE), ntraces=1)
    s = vlib.sim("markers")
    for words in [((0x12, 0x34), (0xff, 0), (0xa5, 0x5a))] + vlib.pick([], [((0, 0), (0xff, 0), (0xfe, 0xff), (0x01, 0x80))]):
        g, d = frames.markers_graph(s, list(words))
        frames.conform_markers(c, "markers", s, g, d)
    c.closed("MCFraming", constants=dict(Bytes="{0, 254, 255}", MaxWords=vlib.pick(2, 3), MaxFrames=vlib.pick(2, 3)),
             invariants=("Synchronised", "SameFrames"))
    c.extra["stalled_cycles"] = sum(1 for t, i in flat for x in t["rows"] if x[0] & 12 == 12)
    c.sample(flat[0][1])
    c.sample(dict(full_size=res[0]["big"]))


vlib.run("C05", main)
