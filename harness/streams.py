"""Driving the word-stream elements (stuffing stages, width converters) for Stream.tla."""
import vlib, pipe


def by(v, n):
    return [(v >> (8 * (n - 1 - i))) & 255 for i in range(n)]


def val(b):
    v = 0
    for x in b:
        v = v << 8 | x
    return v


class El:
    """port shape of an element: input bytes, output bytes (None: o_data_out_ctr tells), optional end ports"""

    def __init__(self, design, kind, nin, nout, w=2, end=True, ctr_in=False, warm=0, feats=()):
        self.design, self.kind, self.nin, self.nout, self.end, self.ctr_in, self.warm = design, kind, nin, nout, end, ctr_in, warm
        self.par = dict(w=w)

    def outs(self):
        return ["o_o_busy", "o_valid_out", "o_data_out"] + (["o_end_out"] if self.end else []) + \
            (["o_data_out_ctr"] if self.nout is None else [])

    def tok(self, v, b, e, f):
        d = {"i_valid_in": v, "i_i_busy": f, "i_data_in": val(b)}
        if self.end:
            d["i_end_in"] = e
        if self.ctr_in:
            d["i_data_in_ctr"] = len(b)
        return d

    def seen(self, o):
        """o: tuple in the order of outs()"""
        busy, v, d = o[:3]
        e = o[3] if self.end else 0
        n = self.nout or o[-1]
        return busy, v, (e if v or self.kind == "repack" else 0), (by(d, n) if v else [])


FIX1 = El("fix_0xff", "fix1", 2, None)
FIX2 = El("fix_0xff2", "fix2", None, 2, ctr_in=True)
CHAIN = El("fixchain", "chain", 2, 2)
B16B64 = El("b16_b64", "repack", 2, 8, w=8, warm=1)
B16B40 = El("b16_b40", "repack", 2, 5, w=5, end=False, warm=1)
B64B32 = El("b64_b32", "split", 8, 4, w=4, end=False, warm=1)
B64B32_2 = El("b64_b32_2", "top", 8, 3, w=3, end=False)


def graph(s, el, words, maxn=400000, ends=(0, 1), gaps=True):
    """words: byte lists offered.  The source keeps an offered word until it is accepted, offers nothing
    after an accepted end-marked one, and (warm) nothing in the first cycle after reset."""
    toks, spec, ch = [], [], []
    for f in (0, 1):
        toks.append(el.tok(0, [0] * (el.nin or 2), 0, f))
        spec.append(dict(v=0, b=[], e=0, f=f))
        ch.append(None)
        for b in words:
            for e in ends:
                toks.append(el.tok(1, b, e, f))
                spec.append(dict(v=1, b=b, e=e, f=f))
                ch.append((tuple(b), e))
    stop = el.kind != "repack"

    def legal(env, k):
        if env in ("end", "warm"):
            return ch[k] is None
        return env is None or ch[k] == env

    def step(env, k, o):
        if env == "end":
            return env
        if ch[k] is None:
            return None
        if o[0] == 0:
            return "end" if ch[k][1] and stop else None
        return ch[k]
    g = vlib.explore(s, toks, el.outs(), maxn=maxn, legal=legal, env0="warm" if el.warm else None, envstep=step)
    outs = []
    for o in g.out:
        b, v, e, d = el.seen(o)
        outs.append(dict(o=b, v=v, e=e, b=d))
    return g, dict(kind=el.kind, par=el.par, nodes=g.nodes, toks=spec, outs=outs)


def conform_graph(c, key, s, g, data, info):
    def replay(r):
        return dict(info=info, steps=vlib.replay_tokens(s, g.toks, vlib.path_tokens(r), g.outs))
    c.count("graphs_cut", int(g.truncated))
    c.count("real_states", g.n)
    c.count("real_transitions", sum(len(x) for x in g.nodes))
    return c.conform("StreamGraph", key, data, replayer=replay, view="View")


def trace(s, el, words, r, vpol, bpol, ends=None, garbage=True, settle=60):
    """Offer the words in order (the last one end-marked if the element knows ends)."""
    s.reset()
    rows = []
    vp, bp = pipe.Policy(vpol, r), pipe.Policy(bpol, r)
    k, off, quiet, vo, ob, first, stall = 0, False, 0, 0, 0, True, 0
    outs = el.outs()
    ends = ends if ends is not None else ({len(words) - 1} if el.end else set())
    n = el.nin or 2
    while quiet < settle and len(rows) < 12000:     # longer: it has already gone wrong
        if k < len(words) and not off and not (first and el.warm):
            off = bool(vp(ob)) or len(rows) > 4000     # in the end everybody is eager
        first = False
        b = words[k] if off else [r.getrandbits(8) for _ in range(n)]
        e = int(k in ends) if off else r.getrandbits(1)
        f = bp(vo) if quiet < settle // 2 and len(rows) < 4000 else 0
        stall = stall + 1 if f else 0
        if stall > 200:
            f = stall = 0
        for name, x in el.tok(int(off), b, e, f).items():
            s.set(name, x)
        s.cycle()
        ob, vo, eo, d = el.seen([s.get(o) for o in outs])
        rows.append([int(off) + 2 * (e if off else 0) + 4 * f, b if off else [], ob + 2 * vo + 4 * eo, d])
        quiet += 1
        if off and not ob:
            k, off, quiet = k + 1, False, 0
        elif vo and not f:
            quiet = quiet if eo and el.kind != "repack" else 0
        elif k < len(words):
            quiet = min(quiet, settle // 2 - 1)
        if len(rows) > 500 * len(words) + 1000:
            break
    return dict(kind=el.kind, par=el.par, rows=rows)


def conform(c, key, traces, info):
    def replay(r):
        t = int(vlib.statevar(r.trace[-1], "t"))
        i = int(vlib.statevar(r.trace[-1], "i"))
        return {"info": info[t - 1], "par": traces[t - 1]["par"], "cycle": i, "rows": traces[t - 1]["rows"][max(0, i - 30):i]}
    c.count("cycles_recorded", sum(len(x["rows"]) for x in traces))
    return c.conform("StreamTrace", key, {"traces": traces}, ntraces=len(traces), replayer=replay, view="View")
