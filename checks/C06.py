"""C06: cutting overlong frames, against Framing.tla and Geometry.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, frames
from frames import BETA, MICRO

META = dict(
    technique="TLC: recorded runs of the complete designs with a swept cycle limit checked against Framing.tla; the frame timer "
              "against Geometry.tla; markers stage product with Markers.tla",
    note="Every limit from 0 past the natural end of a frame (so the cut falls on every phase: before the first word, in the "
         "start marker, in the data, on the last word, in the end marker) with and without stalls and source stops, followed by "
         "a normal frame; the timer for limits up to 2^24-1; the built-in 6666000 cycles on the unmodified beta design.")


def job(j):
    D, cfgd, what, n, seed = j
    name = D["name"]
    s = vlib.sim(name, cfgd)
    r = vlib.rng("C06", name, what, seed)
    ps = D["ps"]
    out = []

    def go(fr, v, b, offer=None, info=None):
        host = frames.axi_host(fr) if name == "micro" else None
        out.append((frames.run(s, D, fr, v, b, r, host=host, offer=offer), dict(design=name, v=v, b=b, **(info or {}))))
    if what == "sweep":
        w, h = max(4, 3 * ps), 4
        for lim in range(seed, n, 4):
            px = pipe.image("walk", w * h, 12, w, r)
            fr = [frames.frame(D, w, h, lim, px), frames.frame(D, w, h, frames.FULLC, pipe.image("random", w * h, 12, w, r))]
            go(fr, "1", r.choice(("0", "0", "rand", "burst")), info=dict(limit=lim))
        return out
    for k in range(n):
        lim = lambda q: r.choice([r.randint(0, 60), r.randint(0, 300), r.randint(100, 900), frames.FULLC])
        fr = frames.rnd_frames(D, r, r.randint(1, 4), limit=lim, small=k % 3 > 0)
        offer = {}
        for q, f in enumerate(fr):
            if f["cfg"]["limit"] < 2000 and r.random() < .4:
                offer[q] = r.choice([1, 1, 2, 3, 4, r.randint(1, len(f["px"]) // ps)])
        go(fr, r.choice(pipe.VPOL), r.choice(pipe.BPOL), offer)
    return out


def timerjob(j):
    s = vlib.sim("force_end", {})
    r = vlib.rng("C06t")
    rows = []
    lims = list(range(0, 70)) + [2**k + d for k in range(7, vlib.pick(20, 24)) for d in (-1, 0, 1)] + [6666000, 2**24 - 1]
    for lim in lims:
        for first in ((0, 7) if lim < 2000 else (3,)):
            s.reset()
            s.set("i_allowed_cycles", lim)
            if lim % 3 == 1:        # a timer that was running is restarted by a reset
                s.set("i_valid_in", 1)
                s.cyclen(r.randint(1, 40))
                s.set("i_valid_in", 0)
                s.rst(1)
                s.cycle()
                s.rst(0)
            early = 0
            for _ in range(first):
                s.set("i_valid_in", 0)
                s.cycle()
                early |= s.get("o_fend")
            t = first
            at = -1
            if early:
                at = 0
            s.set("i_valid_in", 1)
            s.cycle()
            if s.get("o_fend") and at < 0:
                at = t
            t += 1
            if lim < 4000:
                while at < 0 and t < first + lim + 40:
                    s.set("i_valid_in", r.getrandbits(1))
                    s.cycle()
                    if s.get("o_fend"):
                        at = t
                    t += 1
            else:
                for vi, span in ((0, lim // 3), (1, lim)):
                    if at < 0:
                        s.set("i_valid_in", vi)
                        q = s.until("o_fend", 1, span)
                        if q >= 0:
                            at = t + q
                            t = at
                        else:
                            t += span
            gone = 0
            if at >= 0:
                for _ in range(30):
                    s.set("i_valid_in", r.getrandbits(1))
                    s.cycle()
                    gone |= 1 - s.get("o_fend")
            rows.append([lim, first, at, gone, t])
    return rows


def cutjob(j):
    """unmodified beta: the source stops after `groups` pixel groups"""
    s = vlib.sim("beta", None)
    out = []
    for groups in (4000, 6):
        s.reset()
        s.sets(i_pixel_in1=2048, i_pixel_in2=2048, i_valid_in=1, i_busy_in=0)
        first = s.until("o_nready", 0, 200)
        acc = 0
        runs = []

        def add(x):
            for q in x:
                if runs and runs[-1][1:] == q[1:]:
                    runs[-1][0] += q[0]
                else:
                    runs.append(list(q))
        a, x = s.words(groups, "o_valid_out", "o_data_out", "o_end_out", "o_nready")
        acc += a
        add(x)
        while acc < groups:
            a, x = s.words(1, "o_valid_out", "o_data_out", "o_end_out", "o_nready")
            acc += a
            add(x)
            groups_done = acc
        t = first + groups
        s.set("i_valid_in", 0)
        # up to the first forced word, then the rest
        a, x = s.words(500, "o_valid_out", "o_data_out", "o_end_out", "o_nready")
        add(x)
        t += s.used
        if not any(q[3] for q in runs):
            q = s.until("o_valid_out", 1, 7000000)
            t += q if q >= 0 else 9000000
            a, x = s.words(500, "o_valid_out", "o_data_out", "o_end_out", "o_nready")
            add(x)
        out.append(dict(limit=6666000, first=first, at=t, groups=groups, ps=2, runs=runs))
    return out


def call(j):
    return dict(j=job, t=timerjob, c=cutjob)[j[0]](j[1])


def main(c):
    B, M = {"_stub_regs": True}, dict(support_axi_lite=True)
    vlib.build_all([("beta", None), ("beta", B), ("micro", M), ("markers", None), ("force_end", {})])
    n, lim = vlib.pick(30, 400), vlib.pick(100, 180)
    jobs = [("c", 0), ("t", 0)]
    for D, cf in ((BETA, B), (MICRO, M)):
        jobs += [("j", (D, cf, "rand", n, q)) for q in range(4)] + [("j", (D, cf, "sweep", lim, q)) for q in range(4)]
    res = vlib.pmap(call, jobs)
    vlib.tick("recorded")
    flat = [x for l in res[2:] for x in l]
    frames.conform(c, "frames", [x[0] for x in flat], [x[1] for x in flat])

    def replay(r):
        i = int(vlib.statevar(r.trace[-1], "i"))
        return dict(row=res[1][i - 1] if i else None, cut=res[0])
    c.conform("ForceTrace", "timer", dict(rows=res[1], cut=res[0]), ntraces=len(res[1]), replayer=replay, invariants=("OK", "CutOK"))
    s = vlib.sim("markers")
    g, d = frames.markers_graph(s, [(0x12, 0x34), (0xff, 0)])
    frames.conform_markers(c, "markers", s, g, d)
    c.extra["forced_frames"] = sum(1 for t, i in flat for x in t["rows"] if x[0] & 28 == 20 and x[2] == 254)
    c.extra["normal_frames"] = sum(1 for t, i in flat for x in t["rows"] if x[0] & 28 == 20 and x[2] == 255)
    c.extra["timer_runs"] = len(res[1])
    c.sample(res[0])
    c.sample(flat[0][1])


vlib.run("C06", main)
