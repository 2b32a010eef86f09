"""The Verilog of every module, run like the modules themselves: each file's top level is driven by the jobs of the
check that decides the module, and the recorded runs go to that check's specification."""
import importlib, os, sys, threading
import vlib, netsim, pipe, frames, wraps, stages, chunks, streams, axil, burst, cores

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "..", "checks"))

FILES = dict(predictor4="predictor_p1_c4_px4", predictor12="predictor_p1_c4_pix1_2", vbits="vbits_to_cbits", beta="beta_integration",
             micro="micro_integration", beta_axis="beta_integration_axistream", micro_axis="micro_integration_axistream",
             beta_fifo_axis="beta_integration_fifo_axistream", beta_fifo_lvds="beta_integration_fifo_lvds",
             i3_axis="integration_3_axi_stream", beta_fullaxi="beta_integration_fullaxi")
for _d in ("difference normalize encode merge signals force_end register_file lj92_pipeline_fifo converter_fifo converter fix_0xff "
           "fix_0xff2 markers auto_reset core_axi_lite dma_axi_lite debug_module axihp_reader axihp_writer axihp_fifo "
           "address_generator delayer reverser axi_lite b16_b64 b16_b40 b64_b32 b64_b32_2 integration_1 integration_2 "
           "integration_3").split():
    FILES[_d] = _d
CFG = {}        # design -> shipped configuration
SRC = {}        # design -> (Verilog file, port names)
SOURCE = [None]
FULL = dict(w=4096, h=3072)


def vsim(design, cfg=None):
    if design == "fixchain":
        return None
    v, names = SRC[design]
    return netsim.build_verilog(v, names, dict(cfg=CFG[design]), vlib.SCRATCH)


def mod(name):
    """a check's job functions, with the Verilog in place of the module"""
    run, vlib.run = vlib.run, lambda *a: None
    try:
        return importlib.import_module(name)
    finally:
        vlib.run = run


# ---------------------------------------------------------------- jobs of its own
def core(design):
    """integration_1, _2 and _3 in their shipped configuration: the beginning of a frame of the built-in size, or whole small
    frames where the geometry can be written"""
    cfg = CFG[design]
    s, ps, bd = vsim(design), cfg["pixels_per_cycle"], cfg["bit_depth"]
    r = vlib.rng("vset", design)
    out = []
    for k in range(vlib.pick(3, 12)):
        v, b = r.choice(("1", "1", "rand", "burst", "most")), r.choice(("0", "rand", "burst", "alt"))
        if cfg.get("support_axi_lite"):
            w, h = max(4, 3 * ps) + ps * k, r.choice((2, 3, 5))
            n = w * h
        else:
            w, h, n = FULL["w"], FULL["h"], r.choice((4096 + 4 * ps * r.randint(2, 40), 64 * ps, 4096 * 2 + 8 * ps)[:2 + (not vlib.quick())])
        kind = r.choice(pipe.KINDS)
        if k == 0:
            v, b, kind, n = "1", "0", "sweep", (8 if ps == 4 else 4) << bd
            if cfg.get("support_axi_lite"):
                w, h = 128, n // 128
        px = pipe.image(kind, n, bd, w, r)
        if design == "integration_3":
            t = pipe.run_frames(s, cfg, w, h, [px + [0] * ps], v, b, r, partial=n // ps)
            if t["rows"][-1] == [64]:
                t["rows"].pop()
        else:
            t = cores.run(s, "core1" if design == "integration_1" else "core2", cfg, w, h, px, v, b, r)
        out.append((t, dict(design=design, cfg=cfg, w=w, h=h, pixels=n, v=v, b=b)))
    return out


def beta(q):
    s, r, D = vsim("beta"), vlib.rng("vset", "beta", q), frames.BETA
    out = []
    for n, kind in (((2100, None), (40, None)), ((200, None),), ((8192, "sweep"),))[q]:
        px = pipe.image(kind or r.choice(pipe.KINDS), 2 * n + 4, 12, FULL["w"], r)
        fr = [frames.frame(D, FULL["w"], FULL["h"], 6666000, px)]
        v, b = ("1", "0") if kind else (r.choice(("1", "most", "burst")), r.choice(("0", "rand", "burst")))
        t = frames.run(s, D, fr, v, b, r, offer={0: n})
        t["rows"].pop()
        out.append((t, dict(design="beta", groups=n, v=v, b=b)))
    return out


def micro(q):
    s, r, D = vsim("micro"), vlib.rng("vset", "micro", q), frames.MICRO
    fr = [frames.frame(D, 128, 128, 6666000, pipe.image("sweep", 128 * 128, 12, 128, r))]
    t = frames.run(s, D, fr, "1", "0", r, host=frames.axi_host(fr))
    return [(t, dict(design="micro", w=128, h=128, kind="sweep"))]


def wrapper(name):
    x, s, r = wraps.W[name], vsim(name), vlib.rng("vset", name)
    out = []
    for n in (4096 + 16 * r.randint(1, 30), 16 * r.randint(2, 30)):
        if n > 4096 and name != "beta_fullaxi":
            n = 32768 if x.ps == 4 else 16384
            px, v, b = pipe.image("sweep", n, 12, FULL["w"], r), "1", "0"
        else:
            px = pipe.image(r.choice(pipe.KINDS), n // x.per * x.per, 12, FULL["w"], r)
            v, b = r.choice(("1", "most", "burst")), r.choice(("0", "rand", "burst"))
        if name == "beta_fullaxi":
            n = n // 64 * 64 + 64
            px = pipe.image(r.choice(pipe.KINDS), n, 12, FULL["w"], r)
            t = wraps.memory(s, x, FULL["w"], FULL["h"], px, 1, r)
        else:
            t = wraps.run(s, x, FULL["w"], FULL["h"], px, 1, v, b, r)
        t["rows"].pop()
        out.append((t, dict(design=name, pixels=n, v=v, b=b)))
    return out


def bigwrap(name):
    s, x, r = vsim(name), wraps.W[name], vlib.rng("vset", "big", name)
    if name != "micro_axis":
        return [wraps.big(s, x)]
    out = []
    for k in range(vlib.pick(12, 100)):
        w, h = r.randint(4, 40), 4 * r.randint(1, 10)
        cut, part = r.randint(1, w * h - 1), r.randint(1, w * h - 1)
        out.append(wraps.big(s, x, w, h, max(2 * cut + 300, w * h + 900) + r.randint(0, 900), cut, part))
    return out


def counters(q):
    s, r = vsim("debug_module"), vlib.rng("vset", "debug", q)
    s.reset()
    rows = []
    for k in range(150):
        a, rst = [int(r.random() < (.1, .5, .9)[(k // 20 + j) % 3]) for j in range(8)], int(r.random() < .02)
        s.rst(rst)
        s.set("i_regs_en", sum(x << j for j, x in enumerate(a)))
        s.cycle()
        rows.append([dict(rst=bool(rst), a=a), [s.get("o_registers%d" % j) & 0x7fffffff for j in range(8)]])
    s.rst(0)
    return [dict(kind="count", par=0, rows=rows)]


def mark(q):
    return frames.markers_graph(vsim("markers"), [(0x12, 0x34), (0xff, 0)])


def defaults(q):
    s = vsim("register_file")
    s.reset()
    s.cyclen(4)
    s.peek()
    return [s.get("o_height"), s.get("o_width"), s.get("o_allowed_cycles")]


# ---------------------------------------------------------------- the whole set
def dispatch(j):
    m, f, a = j
    return (getattr(sys.modules[m] if m == __name__ else mod(m), f))(a)


def build(c, sources):
    """sources(design) -> (file, names, cfg); every design's netlist; a missing port is a violation"""
    def one(d):
        try:
            v, names, cfg = sources(d)
            SRC[d], CFG[d] = (v, names), cfg
            return d, vsim(d)
        except netsim.ElabError as e:
            return d, e
    good = set()
    for d, s in vlib.tmap(one, sorted(FILES, key=lambda d: (-("beta" in d or "micro" in d), d))):
        if isinstance(s, netsim.ElabError):
            c.fail(d, "%s.v cannot be generated: %s" % (FILES[d], s), dict(design=d))
            continue
        lost = [x for x in s.info["missing"] if x != "o_fend"]
        if lost:
            c.fail("ports-" + d, "%s.v has no port for %s" % (FILES[d], ", ".join(lost)),
                   dict(design=d, ports=s.info["ports"], names=SRC[d][1]))
        else:
            good.add(d)
    return good


def main(c, sources):
    vlib.sim = vsim
    vlib.build_all = lambda l: None
    good = build(c, sources)
    vlib.tick("built %d designs" % len(good))
    n = vlib.pick(1, 12)
    C = lambda d, k, dflt=0: CFG[d].get(k, dflt)
    jobs = []       # (kind of conformance, design, job)

    def add(kind, d, m, f, *args):
        if d in good:
            for a in args:
                jobs.append((kind, d, (m, f, a)))
    me = __name__
    add("big", "beta", "C05", "bigjob", None)
    add("frames", "beta", me, "beta", 0, 1, 2)
    if "micro" in good:
        add("frames", "micro", "C05", "job", *[(frames.MICRO, dict(support_axi_lite=True), "rand", 6 * n, q) for q in range(2)])
    
    for x in ("i3_axis", "beta_axis", "beta_fifo_axis", "beta_fifo_lvds"):
        add("wrap", x, me, "wrapper", x)
    for x in ("i3_axis", "beta_axis", "beta_fifo_axis", "beta_fifo_lvds", "micro_axis"):
        add("bigwrap", x, me, "bigwrap", x)
    add("memory", "beta_fullaxi", me, "wrapper", "beta_fullaxi")
    add("frames", "micro", me, "micro", 0)
    add("wrap", "micro_axis", "C22", "job", ("micro_axis", 8 * n, 0))
    for x in ("integration_1", "integration_2"):
        add("core", x, me, "core", x)
    add("pipe", "integration_3", me, "core", "integration_3")
    add("stage", "predictor4", "C08", "job", (4, C("predictor4", "bit_depth", 16)))
    add("stage", "predictor12", "C08", "job", (C("predictor12", "pixels_per_cycle", 2), C("predictor12", "bit_depth", 16)))
    if "difference" in good:
        add("stage", "difference", "C09", "job", ("diff", CFG["difference"]["pixels_per_cycle"], CFG["difference"]["bit_depth"]))
    if "normalize" in good:
        add("stage", "normalize", "C09", "job", ("norm", CFG["normalize"]["pixels_per_cycle"], CFG["normalize"]["bit_depth"]))
    if "encode" in good:
        g = CFG["encode"]
        add("stage", "encode", "C10", "job", ("encode", g["pixels_per_cycle"], g["bit_depth"], g["support_axi_lite"]))
    if "merge" in good:
        add("stage", "merge", "C10", "job", ("merge", CFG["merge"]["pixels_per_cycle"], CFG["merge"]["bit_depth"], False))
    add("geo", "signals", "C03", "sigjob", C("signals", "pixels_per_cycle", 2))
    add("defaults", "register_file", me, "defaults", 0)
    add("timer", "force_end", "C06", "timerjob", 0)
    add("cut", "beta", "C06", "cutjob", 0)
    if "lj92_pipeline_fifo" in good:
        add("chunk", "lj92_pipeline_fifo", "C14", "job", ("lj", CFG["lj92_pipeline_fifo"], 5 * n))
    if "converter_fifo" in good:
        add("chunk", "converter_fifo", "C14", "job", ("cv", CFG["converter_fifo"], 5 * n))
    add("dma", "axihp_fifo", "C14", "dmajob", 12 * n)
    if "converter" in good:
        g = CFG["converter"]
        add("chunk", "converter", "C12", "tracejob", (g["bit_depth"], g["pixels_per_cycle"], g["converter"], 8 * n))
    if "vbits" in good:
        g = CFG["vbits"]
        add("chunk", "vbits", "C13", "tracejob", (g["out_bits"], g["converter"], g["vbits_to_cbits_buffer_size"], 10 * n))
    add("stream", "fix_0xff", "C04", "tjob", ("fix1", 30 * n))
    add("stream", "fix_0xff2", "C04", "tjob", ("fix2", 30 * n))
    for x in ("b16_b64", "b16_b40", "b64_b32", "b64_b32_2"):
        add("stream", x, "C21", "tjob", (x, 25 * n))
    add("markers", "markers", me, "mark", 0)
    add("axil", "core_axi_lite", "C16", "tjob", ("core", 20 * n, 0))
    add("axil", "dma_axi_lite", "C16", "tjob", ("dma", 20 * n, 0))
    add("axil", "dma_axi_lite", "C17", "job", ("all", 0, 0))
    add("burst", "axihp_reader", "C18", "call", ("t", 6 * n, 0))
    add("burst", "axihp_writer", "C19", "call", ("t", 6 * n, 7))
    add("burst", "address_generator", "C20", "call", (16, 10 * n, 0))
    add("block", "axi_lite", "C28", "bridge", 0)
    add("block", "reverser", "C28", "rev", (32, False, 0))
    add("block", "debug_module", me, "counters", 0, 1)
    add("graph", "auto_reset", "C28", "graph", ("auto", 0))
    add("graph", "delayer", "C28", "graph", ("delay", 8))
    order = sorted(range(len(jobs)), key=lambda k: jobs[k][0] not in ("big", "bigwrap", "cut", "timer", "wrap", "memory", "frames", "markers"))
    got = dict(zip(order, vlib.pmap(call, [jobs[k] for k in order])))
    vlib.tick("recorded")
    res = {}
    for k, (kind, d, j) in enumerate(jobs):
        res.setdefault(kind, []).append((d, got[k]))
    decide(c, res)
    c.extra["designs"] = len(good)
    c.sample(dict(designs=sorted(good)))


def call(j):
    kind, d, a = j
    if kind == "big":
        return mod("C05").bigjob(None)
    return dispatch(a)


def decide(c, res):
    def flat(kind):
        return [x for d, l in res.get(kind, []) for x in l]

    def pair(kind, fn):
        l = flat(kind)
        if l:
            todo.append(lambda: fn(c, kind, [x[0] for x in l], [x[1] for x in l]))
    todo = []
    pair("frames", frames.conform)
    pair("wrap", wraps.conform)
    pair("memory", wraps.conform_memory)
    pair("core", cores.conform)
    pair("pipe", pipe.conform)
    pair("stage", stages.conform)
    pair("chunk", chunks.conform)
    pair("stream", streams.conform)
    for d, l in res.get("axil", []):
        todo.append(lambda d=d, l=l: axil.conform(c, "axil-" + d, l))
    l = flat("burst")
    if l:
        todo.append(lambda: burst.conform(c, "burst", l))
    for d, (acc, runs) in [(d, x["big"]) for d, x in res.get("big", [])]:
        todo.append(lambda: c.conform("FramingBig", "full-size", dict(groups=acc, runs=runs, w=4096, h=3072, ps=2, bits=4, hi=0xEE, lo=0xEE),
                                      ntraces=1, replayer=lambda r: dict(groups=acc, runs=runs)))
    if "geo" in res or "defaults" in res:
        fr = flat("geo")
        geo = dict(frames=fr, big=[], defaults=(res.get("defaults") or [("", [3072, 4096, 6666000])])[0][1])

        def replay(r):
            i = int(vlib.statevar(r.trace[-1], "t")) if fr else 0
            return dict(run=fr[i - 1] if i else None, defaults=geo["defaults"])
        todo.append(lambda: c.conform("GeometryTrace", "geometry", geo, ntraces=len(fr), replayer=replay,
                                      invariants=("OK", "DefaultsOK")))
    if "timer" in res:
        rows, cut = res["timer"][0][1], (res.get("cut") or [("", [])])[0][1]

        def treplay(r):
            i = int(vlib.statevar(r.trace[-1], "i"))
            return dict(row=rows[i - 1] if i else None, cut=cut)
        todo.append(lambda: c.conform("ForceTrace", "timer", dict(rows=rows, cut=cut), ntraces=len(rows), replayer=treplay,
                                      invariants=("OK", "CutOK")))
    bw = flat("bigwrap")
    if bw:
        todo.append(lambda: wraps.conform_big(c, "big-frames", bw))
    dma = flat("dma")
    if dma:
        def dreplay(r):
            t, i = (int(vlib.statevar(r.trace[-1], x)) for x in "ti")
            return dma[t - 1]["rows"][max(0, i - 40):i]
        todo.append(lambda: c.conform("BurstFifo", "dma-fifo", dict(traces=dma), ntraces=len(dma), replayer=dreplay, view="View"))
    bl = flat("block")
    if bl:
        def breplay(r):
            t, i = (int(vlib.statevar(r.trace[-1], q)) for q in "ti")
            return dict(kind=bl[t - 1]["kind"], cycle=i, rows=bl[t - 1]["rows"][max(0, i - 20):i])
        todo.append(lambda: c.conform("BlockTrace", "blocks", dict(traces=bl), ntraces=len(bl), replayer=breplay, view="View"))
    for d, (g, data) in res.get("graph", []):
        todo.append(lambda d=d, data=data: c.conform("BlockGraph", "graph-" + d, data, view="View", replayer=lambda r: dict(
            design=d, inputs=[data["toks"][k - 1] for k in vlib.path_tokens(r)])))
    for d, (g, data) in res.get("markers", []):
        todo.append(lambda g=g, data=data: frames.conform_markers(c, "markers", vsim("markers"), g, data))
    vlib.tmap(lambda f: f(), todo)
