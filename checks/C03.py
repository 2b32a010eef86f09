"""C03: geometry counters, frame end and full-size frames of the real core, against Geometry.tla and Pipeline.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe
from pipe import mkcfg

META = dict(
    technique="TLC: recorded runs of the geometry counters and of the real core checked against Geometry.tla / Pipeline.tla",
    note="Row-start and end-of-frame flags of every accepted group for all small geometries and for extreme ones up to 65535 "
         "in either direction, with input gaps; complete frames with pixels offered beyond the end; one complete frame of "
         "the built-in size.  Geometries between the swept ones are sampled.")


def sigrun(s, ps, w, h, r, gaps):
    """accepted-group runs (see GeometryTrace.tla) of the signals module"""
    s.reset()
    s.sets(i_width=w, i_height=h)
    rg = w // ps
    tot = rg * h
    runs = []
    n = 0
    while n < tot and len(runs) < 2 * h + 100 + (tot if gaps else 0):      # more runs: already wrong
        if gaps and r.random() < .3:
            s.set("i_new_input", 0)
            for _ in range(r.choice([1, 1, 2, 5])):
                s.cycle()
        s.set("i_new_input", 1)
        if gaps:
            s.peek()
        else:
            # runs of groups in which nothing is flagged are recorded in one go
            s.peek()
            if not s.get("o_new_row") and not s.get("o_end_of_frame"):
                k = s.until_any("o_new_row", "o_end_of_frame", tot - n)
                k = tot - n if k < 0 else k
                if k:
                    runs.append([n, n + k - 1, 0, 0])
                    n += k
                continue
        a, b = s.get("o_new_row"), s.get("o_end_of_frame")
        s.cycle()
        if runs and (a, b) == (0, 0) and runs[-1][2:] == [0, 0]:
            runs[-1][1] = n
        else:
            runs.append([n, n, a, b])
        n += 1
    return dict(rg=rg, h=h, runs=runs, info="ps=%d w=%d h=%d gaps=%d" % (ps, w, h, gaps))


def sigjob(ps):
    s = vlib.sim("signals", dict(pixels_per_cycle=ps))
    r = vlib.rng("C03s", ps)
    out = []
    geo = [(ps * a, b) for a in range(3, vlib.pick(9, 20)) for b in range(2, vlib.pick(8, 16))]
    geo = [x for x in geo if x[0] >= 4]
    for w, h in geo:
        out.append(sigrun(s, ps, w, h, r, 0))
        out.append(sigrun(s, ps, w, h, r, 1))
    top = 65535 // ps * ps
    ext = [(top, 2), (top, 3), (3072, 4096 // 8), (4096, 3072), (32768, 3), (32768 + ps, 3), (256, 300), (max(8, 3 * ps), 65535 // 16),
           (1024, 257), (512, 513)]
    if ps == 4 or not vlib.quick():
        ext += [(max(12, 3 * ps), 65535), (max(12, 3 * ps), 32769)]
    for _ in range(vlib.pick(6, 60)):
        w = ps * r.randint(3, 65535 // ps)
        ext.append((max(w, 4 if ps > 1 else 4), r.randint(2, min(65535, vlib.pick(4000, 40000)))))
    for w, h in ext:
        out.append(sigrun(s, ps, w, h, r, 0))
    return out


PIPE = [mkcfg(1, 12), mkcfg(2, 12), mkcfg(4, 12, ob=32), mkcfg(1, 16, ob=24, axi=True), mkcfg(2, 14, axi=True),
        mkcfg(4, 4, ob=16, axi=True), mkcfg(4, 2, ob=8), mkcfg(2, 3, ob=40)]


def pipejob(cfg):
    s = vlib.sim("integration_3", cfg)
    ps, bd = cfg["pixels_per_cycle"], cfg["bit_depth"]
    r = vlib.rng("C03p", ps, bd, cfg["out_bits"])
    out = []
    geo = [(max(4, 3 * ps) + ps * a, h) for a in range(vlib.pick(4, 12)) for h in vlib.pick((2, 3, 5), (2, 3, 4, 5, 7, 9))]
    geo += [(ps * 16, 9), (ps * vlib.pick(150, 600), 2), (max(4, 3 * ps), vlib.pick(150, 700))]
    if ps == 4:
        geo += [(vlib.pick(1200, 8192), 2)]
    for w, h in geo:
        for kind, v, b in (("const", "1", "0"), (r.choice(("walk", "random")), r.choice(("rand", "burst", "few")), "rand")):
            n = 1 if w * h > 600 else 2
            fr = [pipe.image(kind, w * h, bd, w, r) for _ in range(n)]
            out.append((pipe.run_frames(s, cfg, w, h, fr, v, b, r), dict(cfg=cfg, kind=kind, v=v, b=b)))
    # frames whose code length is a multiple of the word: the last word is completely full
    w, h = max(4, 3 * ps), 4
    for d in range(vlib.pick(4, 16)):
        f = [1 << (bd - 1)] * (w * h)
        for k in range(d):
            f[-1 - k] ^= 1
        out.append((pipe.run_frames(s, cfg, w, h, [f], "1", "0", r), dict(cfg=cfg, kind="full%d" % d)))
    return out


def bigjob(ps):
    cfg = mkcfg(ps, 12)
    del cfg["_stub_regs"]
    s = vlib.sim("integration_3", cfg)
    s.reset()
    for k in range(ps):
        s.set("i_pixels_in%d" % k, 2048)
    s.sets(i_valid_in=1, i_busy_in=0)
    tot = 4096 * 3072
    # the end word stays on the output until reset: count only up to its first appearance
    n = s.until("o_end_out", 1, tot // ps + 100000)
    if n < 0:
        n = tot // ps + 100000
    s.reset()
    for k in range(ps):
        s.set("i_pixels_in%d" % k, 2048)
    s.sets(i_valid_in=1, i_busy_in=0)
    t = s.tally(n + 1, "o_nready", 0, "o_valid_out", "o_data_out", 0xEEEE, "o_end_out")
    u = s.tally(50000, "o_nready", 0, "o_valid_out", "o_data_out", 0xEEEE, "o_end_out")
    return dict(pixels=tot, accepted=(t[0] + u[0]) * ps, words=t[1], odd=t[2], ends=t[3], endlast=int(t[4] == t[1]))


def longjob(a):
    """a frame of half scale samples with a side no 15 bit register holds, in a complete design"""
    cfg, sizes = a
    s = vlib.sim("integration_3", cfg)
    ps, bd = cfg["pixels_per_cycle"], cfg["bit_depth"]
    out = []
    for w, h in sizes:
        tot = w * h
        half = 1 << (bd - 1)
        n = 0
        for cnt in (0, 1):        # first the length up to the end word (which stays until reset), then the count up to there
            s.reset()
            s.sets(i_valid_in=0, i_busy_in=0)
            pipe.geometry(s, cfg, w, h)
            for k in range(ps):
                s.set("i_pixels_in%d" % k, half)
            s.sets(i_valid_in=1)
            if cnt:
                t = s.tally(n + 1, "o_nready", 0, "o_valid_out", "o_data_out", 0xEEEE, "o_end_out")
                u = s.tally(50000, "o_nready", 0, "o_valid_out", "o_data_out", 0xEEEE, "o_end_out")
            else:
                n = s.until("o_end_out", 1, tot // ps + 100000)
                if n < 0:
                    n = tot // ps + 100000
        out.append(dict(pixels=tot, accepted=(t[0] + u[0]) * ps, words=t[1], odd=t[2], ends=t[3], endlast=int(t[4] == t[1])))
    return out


def longs():
    r = vlib.rng("C03long")
    res = []
    for ps, bd, axi in [(1, 12, True), (2, 14, True), (4, 12, True), (4, 12, False), (2, 12, False), (1, 12, False)]:
        lo = max(4, 3 * ps)
        tall = [(lo, 32768 + 4 * r.randint(1, 3000)), (lo, 65532)]
        wide = [(32768 + 4 * r.randint(1, 3000), 3), (16384 + 4 * r.randint(1, 3000), 2), (65532, 2)]
        both = [(4 * r.randint(70, 300), 4 * r.randint(70, 300))] + vlib.pick([], [(5000, 4000)] if ps == 4 else [])
        res.append((mkcfg(ps, bd, axi=axi), tall + wide + both))
    return res


def call(j):
    return j[0](j[1])


def main(c):
    vlib.build_all([("integration_3", x) for x in PIPE + [y[0] for y in longs()]] + [("signals", dict(pixels_per_cycle=p)) for p in (1, 2, 4)])
    bigs = vlib.pick([4, 2], [1, 2, 4])
    lg = longs()
    jobs = [(bigjob, p) for p in bigs] + [(longjob, x) for x in lg] + [(sigjob, p) for p in (4, 2, 1)] + [(pipejob, x) for x in PIPE]
    res = vlib.pmap(call, jobs)
    nb = len(bigs)
    long = [x for l in res[nb:nb + len(lg)] for x in l]
    res = res[:nb] + res[nb + len(lg):]
    frames = [x for l in res[nb:nb + 3] for x in l]
    flat = [x for l in res[nb + 3:] for x in l]
    rf = vlib.sim("register_file")
    rf.cyclen(4)      # the registers are loaded in the first cycles after reset (no pixel is accepted then)
    rf.peek()
    data = dict(frames=frames, big=res[:nb] + long, defaults=[rf.get("o_height"), rf.get("o_width"), rf.get("o_allowed_cycles")])

    def replay(r):
        f = frames[int(vlib.statevar(r.trace[-1], "t")) - 1]
        i = int(vlib.statevar(r.trace[-1], "i"))
        return dict(info=f["info"], runs=f["runs"][max(0, i - 3):i + 1], big=data["big"], defaults=data["defaults"])
    c.conform("GeometryTrace", "geometry", data, ntraces=len(frames) + nb + len(long), replayer=replay,
              invariants=("OK", "BigOK", "DefaultsOK"))
    pipe.conform(c, "frame-end", [x[0] for x in flat], [x[1] for x in flat])
    c.extra["geometries"] = len(frames) + len(flat)
    c.extra["groups_in_geometry_runs"] = sum(f["rg"] * f["h"] for f in frames)
    c.sample(frames[0])


vlib.run("C03", main)
