"""C08: the prediction stages, against Stages.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, stages

META = dict(
    technique="TLC: recorded runs of the prediction stages checked against the predictor state machine of Stages.tla",
    note="All bit depths 2..16 for 1, 2 and 4 pixels per cycle; small row lengths exhaustively up to a bound and long ones "
         "sampled; every pattern of gaps is random.  The specification keeps the last row itself and computes every "
         "prediction.")


def job(j):
    ps, bd = j
    cfg = dict(bit_depth=bd, pixels_per_cycle=ps, predictor_function=1, num_of_components=4)
    s = vlib.sim("predictor4" if ps == 4 else "predictor12", cfg)
    r = vlib.rng("C08", ps, bd)
    out = []
    ws = [x * ps for x in range(3, vlib.pick(8, 24)) if x * ps >= 4] + [ps * r.randint(20, vlib.pick(60, 300))]
    for w in ws:
        for gaps in (0, .4):
            h = r.choice([2, 3, 5, 6])
            kind = r.choice(["random", "random", "edge", "walk"])
            px = pipe.image(kind, w * h, bd, w, r)
            g = [px[k:k + ps] for k in range(0, len(px), ps)]
            out.append((stages.record(s, cfg, "predict", 1, g, r, gaps, w=w, ends={len(g) - 1}),
                        dict(ps=ps, bd=bd, w=w, h=h, gaps=gaps, kind=kind)))
    return out


def main(c):
    js = [(ps, bd) for ps in (1, 2, 4) for bd in vlib.pick((2, 3, 5, 8, 10, 12, 14, 15, 16), range(2, 17))]
    flat = [x for l in vlib.pmap(job, js) for x in l]
    stages.conform(c, "prediction", [x[0] for x in flat], [x[1] for x in flat])
    c.extra["configurations"] = len(js)
    c.sample(flat[0][1])


vlib.run("C08", main)
