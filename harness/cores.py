"""Driving integration_1 and integration_2 as stand-alone designs, for CoreTrace.tla."""
import vlib, pipe


def bits(v, n):
    return [v >> (n - 1 - k) & 1 for k in range(n)]


def latency(ps, axi):
    """predictor 1, difference 1, normalisation 1, coding 2, merging one per level"""
    n, p = 5, 1
    while p < ps:
        p, n = 2 * p, n + 1
    return n


def run(s, kind, cfg, w, h, px, vpol, lpol, r, limit=0xffffff):
    """px: the pixels that are offered (the beginning of a frame, or all of it)"""
    ps = cfg["pixels_per_cycle"]
    mx = (1 << cfg["bit_depth"]) - 1
    s.reset()
    if "i_rready" in s.il:
        s.set("i_valid_in", 0)
        pipe.axil_idle(s)
        pipe.axil_write(s, pipe.HW, h | w << 16)
        pipe.axil_write(s, pipe.HW + 4, limit)
    elif "i_g_width" in s.il:
        s.sets(i_g_width=w, i_g_height=h, i_g_allowed_cycles=limit)
    else:               # constant registers: they are loaded in the first cycles
        s.cyclen(4)
    vp, lp = pipe.Policy(vpol, r), pipe.Policy(lpol, r)
    groups = [px[k:k + ps] for k in range(0, len(px), ps)]
    rows, k, quiet, nr, vo = [], 0, 0, 0, 0
    two = kind == "core2"
    while quiet < 200 and len(rows) < 40000:
        v = int(k < len(groups) and bool(vp(not nr)) or (len(rows) > 20000 and k < len(groups)))
        if two and k == len(groups) and len(px) == w * h:
            v = r.getrandbits(1)            # beyond the end: must be refused
        g = groups[k] if v and k < len(groups) else [r.randint(0, mx) for _ in range(ps)]
        l = int(not two or bool(lp(vo)) or quiet > 100 or len(rows) > 20000)
        for j, p in enumerate(g):
            s.set("i_pixels_in%d" % j, p)
        s.set("i_valid_in", v)
        if two:
            s.set("i_latch_output", l)
        s.cycle()
        nr = s.get("o_nready") if two else 0
        vo = s.get("o_valid_out")
        c, d = s.get("o_enc_out_ctr"), s.get("o_enc_out")
        eo = s.get("o_out_end" if two else "o_end_out") if vo else 0
        rows.append([v, g if v else [], nr, vo, eo, (bits(d, c) if d >> c == 0 else [2]) if vo else [], l])
        quiet += 1
        if v and not nr and k < len(groups):
            k += 1
            quiet = 0
        if vo and l:
            quiet = 0
    return dict(kind=kind, lat=latency(ps, cfg.get("support_axi_lite")), px=px, rows=rows,
                cfg=dict(ps=ps, bd=cfg["bit_depth"], w=w, h=h, ob=8, conv=cfg.get("converter", 0),
                         tab=[list(x) for x in pipe.DEFAULT_CODES]))


def conform(c, key, traces, info):
    def replay(r):
        t, i = (int(vlib.statevar(r.trace[-1], q)) for q in "ti")
        T = traces[t - 1]
        return dict(info=info[t - 1], cycle=i, rows=T["rows"][max(0, i - 60):i])
    c.count("cycles_recorded", sum(len(x["rows"]) for x in traces))
    return c.conform("CoreTrace", key, dict(traces=traces), ntraces=len(traces), replayer=replay, view="View")
