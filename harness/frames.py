"""Driving the complete designs (beta, micro and their wrappers) for FramingTrace.tla."""
import vlib, pipe

BETA = dict(name="beta", ps=2, bd=12, pix=("i_pixel_in1", "i_pixel_in2"))
MICRO = dict(name="micro", ps=1, bd=12, pix=("i_pixel_in",))
TAB = [list(x) for x in pipe.DEFAULT_CODES]


def frame(D, w, h, limit, px, tab=None):
    return dict(cfg=dict(ps=D["ps"], bd=D["bd"], w=w, h=h, limit=limit, tab=[list(x) for x in (tab or TAB)]), px=px)


def configure(s, fr, full=False):
    """geometry and limit (and the table) of the next frame; with AXI-lite this takes cycles, returned as rows"""
    c = fr["cfg"]
    if "i_g_width" in s.il:
        s.sets(i_g_width=c["w"], i_g_height=c["h"], i_g_allowed_cycles=c["limit"])


def run(s, D, frames, vpol, bpol, r, setup=True, settle=330, maxcyc=60000, host=None, resets=(), offer=None):
    """Feed the frames one after the other, as a user does: a pixel group is offered until it is accepted; after
    the last one of a frame garbage is offered (it must be refused).  The next frame begins in the cycle after the
    automatic reset.  host(s, k): called before frame k when the design is idle (AXI-lite accesses).
    resets: numbers of frames which the host interrupts by a reset after a random number of cycles.
    offer: {frame number: number of groups after which the source stops}."""
    ps, mx = D["ps"], (1 << D["bd"]) - 1
    rows = []
    if setup:
        s.reset()
        if "i_rready" in s.il:
            pipe.axil_idle(s)
    k = 0
    lag = None
    rst = False
    pend = None
    while k < len(frames):
        fr = frames[k]
        if rst:     # the cycle after the last word: the design resets itself; nothing is offered, or garbage
            pass
        s.set("i_valid_in", 0)
        if host:
            rows += host(s, k) or []
        configure(s, fr)
        vp, bp = pipe.Policy(vpol, r), pipe.Policy(bpol, r)
        n = len(fr["px"]) // ps
        stop = min(n, (offer or {}).get(k, n))
        acc = quiet = cyc = 0
        vo, nr = 0, 1
        cut = r.randint(1, 400) if k in resets else None
        done = False
        while True:
            cyc += 1
            eager = cyc > 20000
            idle = acc >= stop
            if cut is not None and cyc > cut:
                s.rst(1)
                s.set("i_valid_in", 0)
                s.cycle()
                s.rst(0)
                rows.append([32])
                break
            if done:
                vin = r.getrandbits(1)
            elif acc < stop:
                vin = int(bool(vp(not nr)) or eager)
            else:
                vin = int(acc >= n and r.random() < .5)
            g = fr["px"][acc * ps:acc * ps + ps] if acc < n and vin and not done else [r.randint(0, mx) for _ in range(ps)]
            busy = bp(vo) if quiet < settle // 2 and not eager else 0
            s.set("i_valid_in", vin)
            for p, x in zip(D["pix"], g):
                s.set(p, x)
            s.set("i_busy_in", busy)
            s.cycle()
            nr, vo, eo = s.get("o_nready"), s.get("o_valid_out"), s.get("o_end_out")
            fl = vin | nr << 1 | vo << 2 | busy << 3 | (eo & vo) << 4
            if vo:
                d = s.get("o_data_out")
                rows.append([fl, d >> 8, d & 255])
            else:
                rows.append([fl])
            if done:        # that was the reset cycle
                break
            quiet += 1
            if vin and not nr:
                acc += 1
                quiet = 0
            if vo and not busy:
                quiet = 0
                if eo:
                    done = True
            if busy:
                quiet = min(quiet, settle // 2)
            if not done and quiet > settle and (fr["cfg"]["limit"] > 20000 or cyc > fr["cfg"]["limit"] + 3000):
                break       # stuck: the specification will say so
            if cyc > maxcyc:
                break
        k += 1
    # afterwards nothing may come
    for _ in range(30):
        s.sets(i_valid_in=0, i_busy_in=0)
        s.cycle()
        vo = s.get("o_valid_out")
        fl = s.get("o_nready") << 1 | vo << 2 | (s.get("o_end_out") & vo) << 4
        d = s.get("o_data_out")
        rows.append([fl, d >> 8, d & 255] if vo else [fl])
    rows.append([64])
    return dict(frames=frames, rows=rows)


def conform(c, key, traces, info):
    def replay(r):
        t = int(vlib.statevar(r.trace[-1], "t"))
        i = int(vlib.statevar(r.trace[-1], "i"))
        f = int(vlib.statevar(r.trace[-1], "f"))
        tr = traces[t - 1]
        return dict(info=info[t - 1], frame=f, cycle=i, frames=tr["frames"], rows=tr["rows"][:i] if i < 4000 else tr["rows"][i - 400:i])
    c.count("cycles_recorded", sum(len(x["rows"]) for x in traces))
    c.count("frames_encoded", sum(len(x["frames"]) for x in traces))
    return c.conform("FramingTrace", key, {"traces": traces}, ntraces=len(traces), replayer=replay, view="View")


def markers_graph(s, words):
    """every schedule of a source that keeps its word, a sticky forced-end request and stalls"""
    toks, spec, ch = [], [], []
    for f in (0, 1):
        for x in (0, 1):
            for b, e in [(None, 0)] + [(b, e) for b in words for e in (0, 1)]:
                v = int(b is not None)
                d = b or [0x12, 0x34]
                toks.append(dict(i_valid_in=v, i_data_in=d[0] << 8 | d[1], i_end_in=e, i_force_end_in=x, i_i_busy=f))
                spec.append(dict(v=v, b=list(d) if v else [], e=e, x=x, f=f))
                ch.append((x, (tuple(d), e) if v else None))

    def legal(env, k):
        x, w = ch[k]
        if x < env[0]:
            return False
        if env[1] == "end":     # the end-marked word stays offered until reset (fix_0xff2 keeps showing it)
            return w == env[2]
        return env[1] is None or w == env[1]

    def step(env, k, o):
        x, w = ch[k]
        if env[1] == "end":
            return (x, "end", env[2])
        if w is None:
            return (x, None)
        if o[0] == 0:
            return (x, "end", w) if w[1] else (x, None)
        return (x, w)
    outs = ["o_o_busy", "o_valid_out", "o_end_out", "o_data_out"]
    g = vlib.explore(s, toks, outs, maxn=400000, legal=legal, env0=(0, None), envstep=step)
    zo = [dict(o=o[0], v=o[1], e=o[2], b=[o[3] >> 8, o[3] & 255] if o[1] else []) for o in g.out]
    return g, dict(nodes=g.nodes, toks=spec, outs=zo)


def conform_markers(c, key, s, g, data):
    def replay(r):
        return dict(steps=vlib.replay_tokens(s, g.toks, vlib.path_tokens(r), g.outs))
    c.count("graphs_cut", int(g.truncated))
    c.count("real_states", g.n)
    return c.conform("MarkersGraph", key, data, replayer=replay, view="View")


class Rec:
    """a simulator whose clock cycles are recorded as rows (AXI-lite accesses while the design is idle)"""

    def __init__(self, s):
        self.s, self.rows = s, []

    def __getattr__(self, n):
        return getattr(self.s, n)

    def cycle(self):
        s = self.s
        s.cycle()
        vo = s.get("o_valid_out")
        fl = s.get("o_nready") << 1 | vo << 2 | (s.get("o_end_out") & vo) << 4
        d = s.get("o_data_out")
        self.rows.append([fl, d >> 8, d & 255] if vo else [fl])


def axi_host(frames, keep=False, table_first=None, bd=12):
    """host(s, k) for run(): programs geometry and limit before each frame (keep: only when they change),
    and a code table before the first one"""
    last = {}

    def host(s, k):
        z = Rec(s)
        s.sets(i_valid_in=0, i_busy_in=0)
        c = frames[k]["cfg"]
        cur = (c["w"], c["h"], c["limit"])
        if not keep or last.get("c") != cur:
            pipe.axil_write(z, pipe.HW, c["h"] | c["w"] << 16)
            pipe.axil_write(z, pipe.HW + 4, c["limit"])
            last["c"] = cur
        tab = tuple(map(tuple, c["tab"]))
        if last.get("t", tuple(map(tuple, TAB))) != tab:
            for cat, (code, ln) in enumerate(tab[:bd + 1]):
                e = ln << (16 + bd) | (code if cat == 16 else code << cat)
                pipe.axil_write(z, pipe.SSSS + 8 * cat, e & 0xffffffff)
                pipe.axil_write(z, pipe.SSSS + 8 * cat + 4, e >> 32)
            last["t"] = tab
        return z.rows
    return host


FULLC = 0xffffff


def rnd_frames(D, r, n, limit=FULLC, small=True, kinds=pipe.KINDS, tab=None):
    out = []
    ps = D["ps"]
    for k in range(n):
        w = max(4, 3 * ps) + ps * r.choice([0, 0, 1, 2, 5, 11])
        h = r.choice([2, 3, 3, 4, 6] if small else [4, 9, 16, 25])
        out.append(frame(D, w, h, limit(k) if callable(limit) else limit, pipe.image(r.choice(kinds), w * h, D["bd"], w, r), tab))
    return out
