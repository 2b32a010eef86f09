"""C32: the complete designs in other configurations, against Framing.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, netsim, pipe, frames, cores, wraps, vset

META = dict(
    technique="TLC: recorded runs of both complete designs in a range of configurations checked against Framing.tla",
    note="AXI-lite on and off, debug counters, bit depths below the port's 12, widths of the intermediate words, smallest and other FIFO and "
         "packer sizes; random frames, gaps, stalls, cut frames; for AXI-lite on and off also the generated Verilog. Configurations sampled.")


AXI = ("micro", "micro_axis", "integration_1")      # shipped with AXI-lite


def cfgs():
    """(design, entries of its configuration)"""
    r = vlib.rng("C32", "cfg")
    out = [("beta", dict(support_axi_lite=True)), ("beta", dict(support_axi_lite=True, axi_lite_debug=True)),
           ("micro", dict(support_axi_lite=False)), ("micro", dict(support_axi_lite=True, axi_lite_debug=True))]
    for d, ps in (("beta", 2), ("micro", 1)):
        for k in range(vlib.pick(5, 25)):
            bd = r.choice((12, 12, 12, 10, 8, 11, 4))
            tot = pipe.total_ctr(ps, bd)
            x = pipe.mkcfg(ps, bd, 16, conv=r.randint(max(8, (tot + 3) // 4), tot) if k else None, lj=r.choice((25, 32, 32, 64)) if k else 32)
            u = {a: x[a] for a in ("LJ92_fifo_depth", "converter", "converter_fifo_depth", "vbits_to_cbits_buffer_size")}
            if k % 2:
                u["converter_fifo_depth"] += r.randint(0, 40)
                u["vbits_to_cbits_buffer_size"] += r.randint(0, 40)
            u["support_axi_lite"] = axi = bool(k % 3)
            if axi and k == 4:
                u["axi_lite_debug"] = True
            if bd != 12:
                u["bit_depth"] = bd
            out.append((d, u))
    return out


def simcfg(u):
    return {"_config": u} if u.get("support_axi_lite") else {"_config": u, "_stub_regs": True}


def runs(s, D, n, r, what):
    out = []
    bd = D["bd"]
    for k in range(n):
        lim = r.choice([None, None, None, 300])
        fr = frames.rnd_frames(D, r, r.randint(1, 3), limit=lim or frames.FULLC, small=k % 4 > 0)
        v, b = r.choice(pipe.VPOL), r.choice(pipe.BPOL)
        host = frames.axi_host(fr, bd=bd) if "i_rready" in s.il else None
        out.append((frames.run(s, D, fr, v, b, r, host=host), dict(what, v=v, b=b, limit=lim)))
    return out


def job(j):
    k, d, u, n = j
    D = dict(frames.BETA if d == "beta" else frames.MICRO, bd=u.get("bit_depth", 12))
    return runs(vlib.sim(d, simcfg(u)), D, n, vlib.rng("C32", k), dict(design=d, config=u))


def vjob(j):
    """the Verilog of every top level around the core with AXI-lite switched the other way: (ports it lacks, runs)"""
    d, n = j
    v, i, cfg = netsim.generate_verilog(vset.FILES[d] + ".py", d, vlib.SCRATCH, over=dict(support_axi_lite=d not in AXI))
    s = netsim.build_verilog(v, i, dict(cfg=cfg), vlib.SCRATCH)
    lost = [x for x in s.info["missing"] if x != "o_fend"]
    if lost or d in ("micro", "micro_axis"):        # without AXI-lite their frames have the built-in size
        return lost, []
    r = vlib.rng("C32", "v", d)
    if d == "beta":
        return lost, runs(s, frames.BETA, n, r, dict(design=d, verilog=True))
    if d.startswith("integration"):
        vset.SRC[d], vset.CFG[d] = (v, i), cfg
        return lost, vset.core(d)
    x, out = wraps.W[d], []
    for _ in range(n):
        w, h = 3 * x.ps + x.ps * r.choice((0, 1, 4)), r.choice((2, 4))
        nf = 2 if d != "i3_axis" else 1
        px = [p for _ in range(nf) for p in pipe.image(r.choice(pipe.KINDS), w * h, 12, w, r)]
        vp, bp = r.choice(pipe.VPOL), r.choice(pipe.BPOL)
        out.append((wraps.run(s, x, w, h, px, nf, vp, bp, r), dict(design=d, verilog=True, w=w, h=h, v=vp, b=bp)))
    return lost, out


def call(j):
    return j[0](j[1])


def main(c):
    l = cfgs()
    vlib.build_all([(d, simcfg(u)) for d, u in l])
    n = vlib.pick(20, 100)
    tops = ["beta", "integration_1", "integration_2", "integration_3", "i3_axis", "beta_axis", "beta_fifo_axis", "beta_fifo_lvds", "micro", "micro_axis"]
    todo = [(vjob, (d, vlib.pick(5, 20))) for d in tops] + [(job, (k, d, u, n)) for k, (d, u) in enumerate(l)]
    res = vlib.pmap(call, todo)
    vlib.tick("recorded")
    kinds = {}
    for (f, (d, *_)), q in zip(todo, res):
        if f is vjob:
            if q[0]:
                c.fail("ports-" + d, "with AXI-lite %s, the Verilog of %s has no port for %s" %
                       ("off" if d in AXI else "on", vset.FILES[d], ", ".join(q[0])), dict(design=d, missing=q[0]))
            q = q[1]
        kinds.setdefault({"integration_1": "core", "integration_2": "core", "integration_3": "pipe"}.get(d, "frames" if d in ("beta", "micro") or f is job else "wrap"),
                         []).extend(q)
    for k, m in (("frames", frames), ("core", cores), ("pipe", pipe), ("wrap", wraps)):
        q = kinds.get(k) or []
        if q:
            m.conform(c, k, [x[0] for x in q], [x[1] for x in q])
    c.extra["configurations"] = len(l) + len(tops)
    for d, u in l[4:8]:
        c.sample(dict(design=d, config=u))


vlib.run("C32", main)
