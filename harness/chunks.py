"""Driving the splitter, the packer and the FIFOs for Chunks.tla."""
import math
import vlib, pipe


def bits(v, n):
    return [(v >> (n - 1 - i)) & 1 for i in range(n)]


def outbits(v, n):
    return bits(v, n) if v >> n == 0 else [2]      # stray bits above the length


def slack_of(cfg):
    """what converter_fifo reserves beyond the cycle in which its flag becomes visible"""
    tot = pipe.total_ctr(cfg["pixels_per_cycle"], cfg["bit_depth"])
    return math.ceil(tot / cfg["converter"]) + 2


# ------------------------------------------------------------------ graphs
def src_graph(s, kind, vals, width, par, maxn):
    """splitter / packer with a FIFO-like source (the offered chunk stays until taken)."""
    flag = "i_close_full" if kind == "split" else "i_busy_in"
    src = ("i_enc_out", "i_enc_out_ctr", "i_out_end", "i_valid_out", "o_latch_output") if kind == "split" else \
        ("i_enc_in", "i_enc_in_ctr", "i_in_end", "i_valid_in", "o_latch_input")
    snk = ("o_enc_in", "o_enc_in_ctr", "o_in_end", "o_valid_in") if kind == "split" else \
        ("o_data_out", None, "o_end_out", "o_valid_out")
    toks, spec, ch = [], [], []
    for f in (0, 1):
        toks.append({src[3]: 0, flag: f})
        spec.append(dict(v=0, b=[], e=0, f=f))
        ch.append(None)
        for n, v in vals:
            for e in (0, 1):
                toks.append({src[0]: v, src[1]: n, src[2]: e, src[3]: 1, flag: f})
                spec.append(dict(v=1, b=bits(v, n), e=e, f=f))
                ch.append((v, n, e))

    def legal(env, k):
        if env == "end":
            return ch[k] is None
        return env is None or ch[k] == env

    def step(env, k, o):
        if env == "end" or ch[k] is None:
            return env if env == "end" else None
        if o[0]:
            return "end" if ch[k][2] else None
        return ch[k]
    outs = [src[4], snk[3], snk[2], snk[0]] + ([snk[1]] if snk[1] else [])
    g = vlib.explore(s, toks, outs, maxn=maxn, legal=legal, env0=None, envstep=step)
    zo = []
    for o in g.out:
        n = o[4] if len(o) > 4 else width
        zo.append(dict(l=o[0], v=o[1], e=o[2] if o[1] else 0, b=outbits(o[3], n) if o[1] else []))
    return g, dict(kind=kind, par=par, nodes=g.nodes, toks=spec, outs=zo)


def conform_graph(c, key, s, g, data, info):
    def replay(r):
        ks = vlib.path_tokens(r)
        return dict(info=info, steps=vlib.replay_tokens(s, g.toks, ks, g.outs))
    c.count("graphs_cut", int(g.truncated))
    c.count("real_states", g.n)
    return c.conform("ChunkGraph", key, data, replayer=replay, view="View")


# ------------------------------------------------------------------ traces
def src_trace(s, kind, chunks, width, par, r, gap, flagpol):
    """chunks: list of (value, length); the last one carries the end mark."""
    flag = "i_close_full" if kind == "split" else "i_busy_in"
    src = ("i_enc_out", "i_enc_out_ctr", "i_out_end", "i_valid_out", "o_latch_output") if kind == "split" else \
        ("i_enc_in", "i_enc_in_ctr", "i_in_end", "i_valid_in", "o_latch_input")
    snk = ("o_enc_in", "o_enc_in_ctr", "o_in_end", "o_valid_in") if kind == "split" else \
        ("o_data_out", None, "o_end_out", "o_valid_out")
    s.reset()
    rows = []
    k, off = 0, False
    pol = pipe.Policy(flagpol, r)
    quiet = vo = 0
    while quiet < 40 and len(rows) < 12000:     # longer: it has already gone wrong
        if k < len(chunks):
            off = off or r.random() >= gap or len(rows) > 4000      # in the end everybody is eager
        v, n = chunks[k] if off else (r.getrandbits(8), 1)
        e = int(k == len(chunks) - 1) if off else r.getrandbits(1)
        f = pol(vo) if quiet < 12 and len(rows) < 4000 else 0
        s.set(src[0], v)
        s.set(src[1], n)
        s.set(src[2], e)
        s.set(src[3], int(off))
        s.set(flag, f)
        s.cycle()
        l, vo = s.get(src[4]), s.get(snk[3])
        eo = s.get(snk[2])
        z = dict(l=l, v=vo, e=eo if vo else 0, b=[])
        if vo:
            z["b"] = outbits(s.get(snk[0]), s.get(snk[1]) if snk[1] else width)
        rows.append([dict(v=int(off), b=bits(v, n) if off else [], e=e if off else 0, f=f), z])
        quiet += 1
        if l and off:
            k, off = k + 1, False
            quiet = 0
        elif k < len(chunks) and quiet < 30:
            quiet = min(quiet, 11)
        if len(rows) > 60 * len(chunks) + 500:
            break
    return dict(kind=kind, par=par, rows=rows)


def fifo_trace(s, items, par, r, wpol, rpol, names):
    """names: (we, re, early-full, [(in, out, bits)]) ; items: list of tuples for the data ports."""
    we, re, full, ports, end = names
    s.reset()
    rows = []
    k = since = post = 0
    wp, rp = pipe.Policy(wpol, r), pipe.Policy(rpol, r)
    vo = 0
    quiet = 0
    while quiet < 50 and len(rows) < 12000:
        s.set(we, 0)
        s.peek()
        f = s.get(full)
        legal = f == 0 or since < par["slack"]
        v = int(k < len(items) and legal and (wp(0) or len(rows) > 4000))
        it = items[k] if v else tuple(r.getrandbits(w) for _, _, w in ports) + (r.getrandbits(1),)
        post = post + 1 if k == len(items) else 0
        rd = rp(vo) if post < 150 and len(rows) < 4000 else 1
        s.set(we, v)
        for (i, o, w), x in zip(ports, it):
            s.set(i, x)
        s.set(end[0], it[-1])
        s.set(re, rd)
        s.cycle()
        vo = s.get("o_valid_out")
        f = s.get(full)
        def enc(l):
            return [(x >> (16 * q)) & 0xffff for (i, o, w), x in zip(ports, l) for q in range((w + 15) // 16)]
        z = dict(v=vo, b=[], e=0, f=f)
        if vo:
            z["b"] = enc([s.get(o) for i, o, w in ports])
            z["e"] = s.get(end[1])
        rows.append([dict(v=v, b=enc(it) if v else [], e=it[-1] if v else 0, l=rd), z])
        since = 0 if f == 0 else since + 1
        if v:
            k += 1
        quiet = quiet + 1 if k == len(items) and not vo else 0
        if len(rows) > 40 * len(items) + 2000:
            break
    return dict(kind="fifo", par=par, rows=rows)


def conform(c, key, traces, info):
    def replay(r):
        t = int(vlib.statevar(r.trace[-1], "t"))
        i = int(vlib.statevar(r.trace[-1], "i"))
        return {"info": info[t - 1], "par": traces[t - 1]["par"], "cycle": i, "rows": traces[t - 1]["rows"][max(0, i - 30):i]}
    c.count("cycles_recorded", sum(len(x["rows"]) for x in traces))
    return c.conform("ChunkTrace", key, {"traces": traces}, ntraces=len(traces), replayer=replay, view="View")
