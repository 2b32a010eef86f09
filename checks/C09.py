"""C09: difference and normalisation stages, exhaustively, against Stages.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, stages

META = dict(
    technique="TLC: input/output tables of the difference and normalisation stages checked against Stages.tla",
    note="Normalisation: every difference of every bit depth on every lane (exhaustive).  Difference: every pixel/prediction "
         "pair up to 5 (thorough: 8) bits and every difference value with sampled pairs beyond; gaps are random.  Category "
         "and additional bits are computed by the specification, whose decoder inverts them (MCCodec).")


def job(j):
    kind, ps, bd = j
    cfg = dict(bit_depth=bd, pixels_per_cycle=ps)
    r = vlib.rng("C09", kind, ps, bd)
    mx = (1 << bd) - 1
    if kind == "norm":
        s = vlib.sim("normalize", cfg)
        lo, hi = (-mx, mx) if bd < 16 else (-32768, 32767)
        xs = list(range(lo, hi + 1))
    else:
        s = vlib.sim("difference", cfg)
        if bd <= vlib.pick(5, 8):
            xs = [(p, q) for p in range(mx + 1) for q in range(mx + 1)]
        else:
            step = vlib.pick(max(1, (1 << bd) // 4096), 1)
            xs = []
            ds = set(range(-mx, mx + 1, step)) | {x * y for k in range(bd + 1) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)
                                                 for y in (1, -1) if x <= mx}
            for d in sorted(ds):
                for _ in range(2):
                    q = r.randint(max(0, -d), min(mx, mx - d))
                    xs.append((q + d, q))
    out = []
    # lane k runs through the values in its own order, so every lane sees every value
    lanes = [xs[::-1] if k & 1 else xs[len(xs) * k // 8:] + xs[:len(xs) * k // 8] for k in range(ps)]
    groups = [list(g) for g in zip(*lanes)]
    n = 20000
    for k in range(0, len(groups), n):
        part = groups[k:k + n]
        out.append((stages.record(s, cfg, kind, 1, part, r, .02, ends={len(part) - 1, 3}),
                    dict(kind=kind, ps=ps, bd=bd, part=k)))
    return out


def main(c):
    js = [("norm", 1 + (bd & 1) if vlib.quick() else 2, bd) for bd in range(2, 17)]
    js += [("norm", 4, bd) for bd in vlib.pick((2, 7, 12), range(2, 17))]
    js += [("diff", 1 + (bd & 1), bd) for bd in range(2, 17)] + [("diff", 4, bd) for bd in vlib.pick((3, 12, 16), range(2, 17))]
    js.sort(key=lambda j: -j[2] * (2 if j[0] == "norm" else 1))
    flat = [x for l in vlib.pmap(job, js) for x in l]
    for k in range(0, len(flat), 60):
        stages.conform(c, "difference", [x[0] for x in flat[k:k + 60]], [x[1] for x in flat[k:k + 60]])
    c.extra["configurations"] = len(js)
    c.extra["values_checked"] = sum(sum(x[0] for x in t["rows"]) for t, _ in flat)
    c.sample(flat[0][1])


vlib.run("C09", main)
