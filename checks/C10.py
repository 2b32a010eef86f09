"""C10: coding and merging stages, against Stages.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, stages

META = dict(
    technique="TLC: input/output tables of the coding and merging stages checked against Stages.tla; prefix-freedom in MCCodec",
    note="Coding: every category with every value of the additional bits for small bit depths and boundary and sampled values "
         "beyond (thorough: all), on every lane; merging: sampled codes of every length, 2 to 8 lanes.")


def job(j):
    kind, ps, bd, axi = j
    cfg = dict(bit_depth=bd, pixels_per_cycle=ps)
    r = vlib.rng("C10", kind, ps, bd)
    if kind == "encode":
        cfg["support_axi_lite"] = axi
        s = vlib.sim("encode", cfg)
        xs = []
        for k in range(bd + 1):
            n = 1 << k
            if k == 16:
                xs += [(16, 0), (16, 0)]
            elif k <= vlib.pick(9, 16):
                xs += [(k, v) for v in range(n)]
            else:
                xs += [(k, v) for v in {0, 1, n - 1, n - 2, n // 2, n // 2 - 1} | {r.randrange(n) for _ in range(400)}]
        lanes = []
        for k in range(ps):
            l = list(xs)
            r.shuffle(l)
            lanes.append(l)
        lat = 2
    else:
        s = vlib.sim("merge", cfg)
        mx = min(16 + bd, 31)
        lat, p = 0, 1
        while p < ps:
            p, lat = p * 2, lat + 1

        def code():
            n = r.choice([r.randint(1, mx), r.randint(1, mx), mx, 1, 3])
            return (r.choice([r.getrandbits(n), (1 << n) - 1, 0, 1 << (n - 1)]), n)
        lanes = [[code() for _ in range(vlib.pick(300, 4000))] for _ in range(ps)]
    groups = [list(g) for g in zip(*lanes)]
    out = []
    for k in range(0, len(groups), 20000):
        part = groups[k:k + 20000]
        out.append((stages.record(s, cfg, kind, lat, part, r, r.choice([.05, .3]), ends={len(part) - 1, 5, 6}),
                    dict(kind=kind, ps=ps, bd=bd, axi=axi)))
    return out


def main(c):
    js = [("encode", ps, bd, bool((bd + ps) & 1)) for bd in range(2, 17) for ps in vlib.pick(((1, 2, 4)[bd % 3],), (1, 2, 4))]
    js += [("encode", ps, 16, False) for ps in (1, 2, 4)] + [("encode", 2, 16, True)]
    js += [("merge", ps, bd, False) for ps, bd in vlib.pick([(2, 2), (2, 12), (4, 12), (4, 16), (3, 10), (5, 15), (8, 16), (2, 15)],
                                                          [(ps, bd) for ps in range(2, 9) for bd in range(2, 17)])]
    js.sort(key=lambda j: -j[2])
    flat = [x for l in vlib.pmap(job, js) for x in l]
    for k in range(0, len(flat), 60):
        stages.conform(c, "coding", [x[0] for x in flat[k:k + 60]], [x[1] for x in flat[k:k + 60]])
    c.extra["configurations"] = len(js)
    c.extra["groups_checked"] = sum(sum(x[0] for x in t["rows"]) for t, _ in flat)
    c.sample(flat[0][1])
    c.closed("MCCodec", constants=dict(BD=2, W=4, H=1, Vals="{0,1,2,3}"), invariants=("Streamed", "RoundTrip"))


vlib.run("C10", main)
