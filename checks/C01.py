"""C01: frames encoded by the real core, against Pipeline.tla (and the closed codec model)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe
from pipe import mkcfg

META = dict(
    technique="TLC: recorded runs of the real core checked against Pipeline.tla; closed codec model",
    note="The TLA+ state machine computes every code word itself; every recorded run of the netlist elaborated from /repo "
         "must be one of its behaviours.  Closed model: decoding inverts encoding for all tiny frames.  Sampled frames and "
         "configurations; trusts yosys/clang for executing the netlist.")

QUICK = [mkcfg(1, 12), mkcfg(2, 12, conv=30, vbuf=77), mkcfg(4, 12, ob=32, conv=48, lj=128, cf=256, vbuf=144),
         mkcfg(1, 16, ob=8), mkcfg(2, 16, ob=24), mkcfg(4, 16, ob=16), mkcfg(1, 2), mkcfg(2, 3, ob=32),
         mkcfg(4, 8, ob=64), mkcfg(4, 15, ob=24, conv=31), mkcfg(2, 14, axi=True), mkcfg(1, 12, conv=15, axi=True),
         mkcfg(4, 10, axi=True, debug=True), mkcfg(4, 2, ob=8), mkcfg(1, 9, ob=40), mkcfg(2, 16, axi=True)]
THOROUGH = QUICK + [mkcfg(ps, bd, ob=ob, axi=axi) for ps in (1, 2, 4) for bd in range(2, 17)
                    for ob, axi in ((8, False), (16, True), (32, False))]


def job(j):
    cfg, n = j
    s = vlib.sim("integration_3", cfg)
    ps, bd = cfg["pixels_per_cycle"], cfg["bit_depth"]
    r = vlib.rng("C01", ps, bd, cfg["out_bits"])
    out = []
    for k in range(n):
        kind = pipe.KINDS[k % len(pipe.KINDS)]
        lo = max(4, 3 * ps)
        w = lo + ps * r.choice([0, 0, 1, 2, 3, 7])
        h = r.choice([2, 3, 4, 5])
        fr = [pipe.image(kind, w * h, bd, w, r) for _ in range(r.choice([1, 1, 2]))]
        v, b = (("1", "0"), ("rand", "0"), ("1", "rand"), ("burst", "long"))[(k // len(pipe.KINDS) + k) % 4]
        out.append((pipe.run_frames(s, cfg, w, h, fr, v, b, r), dict(cfg=cfg, kind=kind, v=v, b=b)))
    # every difference (at large depths: a part of them)
    n = min((8 if ps == 4 else 4) << bd, vlib.pick(1 << 14, 1 << 18))
    w = max(16, 1 << n.bit_length() // 2)
    h = max(2, n // w)
    out.append((pipe.run_frames(s, cfg, w, h, [pipe.image("sweep", w * h, bd, w, r)], "1", "0", r, maxcyc=2000000),
                dict(cfg=cfg, kind="sweep", v="1", b="0")))
    return out


def main(c):
    cfgs = vlib.pick(QUICK, THOROUGH)
    vlib.build_all([("integration_3", x) for x in cfgs])
    res = vlib.pmap(job, [(x, vlib.pick(14, 70)) for x in cfgs])
    flat = [x for l in res for x in l]
    pipe.conform(c, "frame", [x[0] for x in flat], [x[1] for x in flat])
    c.extra["configurations"] = len(cfgs)
    c.sample("configuration %r, frame %dx%d of %r pixels" % (flat[0][1], flat[0][0]["cfg"]["w"], flat[0][0]["cfg"]["h"],
                                                        flat[0][1]["kind"]))
    c.closed("MCCodec", constants=dict(BD=2, W=4, H=vlib.pick(1, 2), Vals="{0,1,2,3}"),
             invariants=("Streamed", "RoundTrip", "NoMarker"))
    c.closed("MCCodec", constants=dict(BD=16, W=vlib.pick(4, 5), H=2, Vals=vlib.pick("{0,65535}", "{0,32768,65535}")),
             invariants=("Streamed", "RoundTrip", "NoMarker"))


vlib.run("C01", main)
