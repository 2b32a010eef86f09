"""C02: adversarial stall and gap schedules on the real core, against Pipeline.tla; back-pressure design model."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe
from pipe import mkcfg

META = dict(
    technique="TLC: recorded stall/gap schedules of the real core checked against Pipeline.tla; back-pressure model MCFlow",
    note="Every recorded cycle must be a step of the specification: acceptance, order, content, stability under stall, end "
         "flag, bounded resumption and complete drain.  Includes a single stall / single gap at every cycle of a frame, "
         "stalls long enough to fill every buffer, and the shipped buffer sizes.  Sampled schedules beyond that.")

SMALL = [mkcfg(1, 12), mkcfg(2, 12), mkcfg(4, 12, ob=32), mkcfg(1, 16, ob=8), mkcfg(2, 16, ob=24, lj=25),
         mkcfg(4, 16, ob=16, conv=31, lj=25), mkcfg(1, 2, lj=25), mkcfg(4, 2, ob=8, lj=26), mkcfg(2, 14, axi=True, lj=25),
         mkcfg(4, 12, ob=64, conv=112, lj=25), mkcfg(4, 15, ob=32, conv=17, lj=27), mkcfg(1, 12, conv=28, ob=16)]
BIG = [mkcfg(2, 12, conv=30, lj=512, cf=512, vbuf=77), mkcfg(4, 12, ob=32, conv=48, lj=128, cf=256, vbuf=144),
       mkcfg(1, 12, conv=15, lj=25, cf=1024, vbuf=41)]


class Sched:
    """An explicit schedule: busy (or no input) in the cycles of `on`."""

    def __init__(self, on, base=0):
        self.on, self.base, self.k = on, base, -1

    def __call__(self, seen):
        self.k += 1
        return self.base ^ (1 if self.k in self.on else 0)


def sweep(s, cfg, r, starts, lens):
    """one frame; a single stall (gap) of each length beginning at each cycle"""
    ps, bd = cfg["pixels_per_cycle"], cfg["bit_depth"]
    w = max(4, 3 * ps)
    h = max(3, 24 * ps // w)
    out = []
    orig = pipe.Policy
    try:
        for kind in ("extreme", "walk"):
            f = pipe.image(kind, w * h, bd, w, r)
            for st in starts:
                for ln in lens:
                    on = set(range(st, st + ln))
                    for which in (0, 1):
                        seq = [Sched(on, 1) if which else Sched(set(), 1), Sched(set()) if which else Sched(on)]
                        pipe.Policy = lambda name, rr: seq.pop(0)
                        out.append((pipe.run_frames(s, cfg, w, h, [f], "x", "x", r, tail=240),
                                    dict(cfg=cfg, kind=kind, start=st, len=ln, stall=which == 0)))
    finally:
        pipe.Policy = orig
    return out


def job(j):
    what, cfg, n = j
    s = vlib.sim("integration_3", cfg)
    ps, bd = cfg["pixels_per_cycle"], cfg["bit_depth"]
    r = vlib.rng("C02", what, ps, bd, cfg["out_bits"], cfg["converter"])
    out = []
    if what == "sweep":
        lens = vlib.pick([1, 2, 3, 40], [1, 2, 3, 4, 7, 13, 40, 90])
        starts = list(range(8, 60))
        return sweep(s, cfg, r, vlib.pick(sorted(r.sample(starts, 14)), starts), lens)
    for k in range(n):
        if what == "big":
            kind, w, h = ("extreme", "random", "const")[k % 3], 32 * max(1, ps // 2), 60
            v, b = ("1", "most")[k % 2], ("first2k", "long", "most")[k % 3]
        else:
            kind = pipe.KINDS[k % 4]
            w = max(4, 3 * ps) + ps * r.choice([0, 1, 3])
            h = r.choice([3, 12, 30])
            v = pipe.VPOL[k % len(pipe.VPOL)]
            b = pipe.BPOL[r.randrange(len(pipe.BPOL))]
        f = [pipe.image(kind, w * h, bd, w, r)]
        partial = None if k % 4 else r.randint(1, w * h // ps)
        if b == "first2k":
            o, pipe.Policy = pipe.Policy, lambda name, rr: Sched(set(range(2600))) if name == "first2k" else o(name, rr)
            try:
                tr = pipe.run_frames(s, cfg, w, h, f, v, b, r, tail=6000, partial=partial)
            finally:
                pipe.Policy = o
        else:
            tr = pipe.run_frames(s, cfg, w, h, f, v, b, r, partial=partial, tail=700)
        out.append((tr, dict(cfg=cfg, kind=kind, v=v, b=b, partial=partial)))
    return out


def main(c):
    cfgs = SMALL + BIG
    vlib.build_all([("integration_3", x) for x in cfgs])
    jobs = [("big", x, vlib.pick(1, 6)) for x in BIG] + [("rand", x, vlib.pick(14, 120)) for x in SMALL]
    jobs += [("sweep", x, 0) for x in vlib.pick([SMALL[1], SMALL[5]], SMALL)]
    flat = [x for l in vlib.pmap(job, jobs) for x in l]
    for k in range(0, len(flat), 3000):
        part = flat[k:k + 3000]
        pipe.conform(c, "schedule", [x[0] for x in part], [x[1] for x in part])
    c.extra["configurations"] = len(cfgs)
    c.extra["stalled_cycles"] = sum(1 for t, i in flat for x in t["rows"] if x[0] & 12 == 12)
    c.extra["refused_cycles"] = sum(1 for t, i in flat for x in t["rows"] if x[0] & 3 == 3)
    c.sample("single stalls/gaps swept over %s" % sorted({i["start"] for t, i in flat if "start" in i}))
    for lat in vlib.pick((7,), (5, 6, 7, 8)):
        c.closed("MCFlow", constants=dict(LAT=lat, DEPTH=25, SLACK=10), invariants=("NothingLost", "TypeOK"),
                 spec="FairSpec", properties=("ReadyAgain", "Drains"))


vlib.run("C02", main)
