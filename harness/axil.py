"""AXI-lite masters for AxiLite.tla: random traces and complete graphs."""
import vlib, pipe

TABJ = [list(x) for x in pipe.DEFAULT_CODES]


def b4(v):
    return [v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24 & 255]


def val(b):
    return b[0] | b[1] << 8 | b[2] << 16 | b[3] << 24


class Tables:
    """indices of output and live-input vectors shared by all traces of one data file"""

    def __init__(self):
        self.outs, self.lives = {}, {}

    @staticmethod
    def idx(d, v):
        v = tuple(tuple(x) if isinstance(x, list) else x for x in v)
        return d.setdefault(v, len(d) + 1)


def core_out(s):
    h, w, l = s.get("o_height"), s.get("o_width"), s.get("o_allowed_cycles")
    return [h & 255, h >> 8, w & 255, w >> 8, l & 255, l >> 8 & 255, l >> 16]


def dma_out(s):
    return b4(s.get("o_read_addr")) + b4(s.get("o_write_addr")) + b4(s.get("o_start"))


class Live:
    def __init__(self, kind, debug, r):
        self.kind, self.debug, self.r = kind, debug, r
        self.v = [[0, 0, 0, 0]] * 9 if kind == "dma" else [0] * 8

    def drive(self, s):
        r = self.r
        if self.kind == "dma":
            if r.random() < .15:
                k = r.randrange(9)
                self.v = list(self.v)
                self.v[k] = b4(r.getrandbits(32))
                s.set("i_in%d" % (k + 1), val(self.v[k]))
            return self.v
        if self.debug:
            m = r.choice([0, 0, 255, r.getrandbits(8)])
            s.set("i_debug_en", m)
            self.v = [m >> k & 1 for k in range(8)]
        return self.v


def trace(s, P, ops, r, outf, style, tab=TABJ, resets=0, pre=None, table=False):
    """ops: ("r", byte address) or ("w", byte address, value, strobe).  style: serial | overlap | stream"""
    s.reset()
    pipe.axil_idle(s)
    if P["kind"] == "dma":
        for k in range(1, 10):
            s.set("i_in%d" % k, 0)
    if pre:
        pre(s)
    live = Live(P["kind"], P["debug"], r)
    T = dict(P=P, tab=tab, rows=[])
    rows, outs, lives = T["rows"], [], []
    n = 0
    ar = aw = w = None
    rq = wq = wdone = 0      # accepted and unanswered
    pr, pwr = r.choice([(1, 1), (.5, .5), (.15, .15), (1, .2), (.2, 1)])
    rr = br = 0
    hr = hb = 0
    pg = r.choice([0, .3, .8])
    left = list(ops)
    blocked = 0
    rst_at = {r.randrange(20, 20 + 12 * len(ops)) for _ in range(resets)}
    aws, ws = [], []
    while n < 12000:     # longer: it has already gone wrong
        n += 1
        if n in rst_at and not (P["kind"] == "core" and table and (aws or ws or aw or w or wq)):  # no reset in the middle of a table write
            s.rst(1)
            s.sets(i_arvalid=0, i_awvalid=0, i_wvalid=0)
            if P["kind"] == "core" and P["debug"]:
                s.set("i_debug_en", 0)
            s.cycle()
            s.rst(0)
            rows.append([1024])
            ar = aw = w = None
            aws, ws = [], []
            rq = wq = wdone = hr = hb = 0
            continue
        # release operations
        busyw = bool(aws or ws or aw or w or wq)
        busyr = bool(ar or rq)
        if left and r.random() >= pg:
            o = left[0]
            if (style == "serial" and not busyw and not busyr) or (style != "serial" and
                    ((o[0] == "r" and not ar and (style == "stream" or not rq)) or
                     (o[0] == "w" and len(aws) < 2 and (style == "stream" or not busyw)))):
                left.pop(0)
                if o[0] == "r":
                    ar = o
                else:
                    aws.append(o)
                    ws.append(o)
        if not aw and aws and r.random() < pwr:
            aw = aws.pop(0)
        if not w and ws and r.random() < pwr:
            w = ws.pop(0)
        if n == 4000:       # in the end everybody is eager
            pr = pwr = 1
            pg = 0
        if not hr:
            rr = int(r.random() < pr)
        if not hb:
            br = int(r.random() < pr)
        s.sets(i_arvalid=int(ar is not None), i_araddr=ar[1] if ar else r.getrandbits(32), i_rready=rr,
               i_awvalid=int(aw is not None), i_awaddr=aw[1] if aw else r.getrandbits(32),
               i_wvalid=int(w is not None), i_wdata=w[2] if w else r.getrandbits(32), i_wstrb=w[3] if w else r.getrandbits(4),
               i_bready=br)
        lv = live.drive(s)
        s.cycle()
        g = s.get
        arr, rv, awr, wr, bv = g("o_arready"), g("o_rvalid"), g("o_awready"), g("o_wready"), g("o_bvalid")
        fl = (ar is not None) | arr << 1 | rv << 2 | rr << 3 | (aw is not None) << 4 | awr << 5 | (w is not None) << 6 | wr << 7 \
            | bv << 8 | br << 9
        row = [fl, outf(s), lv]
        if ar:
            row.append(ar[1] >> 2 & 0x1fff)
        if rv:
            row.append(b4(g("o_rdata")) + [g("o_rresp")])
        if aw:
            row.append(aw[1] >> 2 & 0x1fff)
        if w:
            row.append(b4(w[2]) + [w[3]])
        if bv:
            row.append(g("o_bresp"))
        rows.append(row)
        moved = 0
        if rv and rr and rq:
            rq -= 1
            moved = 1
        if ar and arr:
            rq += 1
            ar = None
            moved = 1
        if bv and br and wq:
            wq -= 1
            moved = 1
        if aw and awr:
            aw = None
            wq += 1
            moved = 1
        if w and wr:
            w = None
            moved = 1
        # once ready is shown for an accepted request it stays
        hr = rr if rq else 0
        hb = br if wq else 0
        blocked = 0 if moved else blocked + 1
        if not (left or ar or aw or w or aws or ws or rq or wq) or blocked > 400:
            break
    for _ in range(12):
        s.sets(i_arvalid=0, i_awvalid=0, i_wvalid=0, i_rready=1, i_bready=1)
        lv = live.drive(s)
        s.cycle()
        g = s.get
        rv, bv = g("o_rvalid"), g("o_bvalid")
        row = [g("o_arready") << 1 | rv << 2 | 8 | g("o_awready") << 5 | g("o_wready") << 7 | bv << 8 | 512, outf(s), lv]
        if rv:
            row.append(b4(g("o_rdata")) + [g("o_rresp")])
        if bv:
            row.append(g("o_bresp"))
        rows.append(row)
    rows.append([2048])
    return T


def pack(traces):
    t = Tables()
    for T in traces:
        for row in T["rows"]:
            if len(row) > 1:
                row[1] = t.idx(t.outs, row[1])
                row[2] = t.idx(t.lives, row[2])
    un = lambda d: [[list(x) if isinstance(x, tuple) else x for x in v] for v in d]
    return dict(traces=traces, outs=un(t.outs) or [[0]], lives=un(t.lives) or [[0]])


def conform(c, key, traces, info=None):
    data = pack(traces)

    def replay(r):
        t = int(vlib.statevar(r.trace[-1], "t"))
        i = int(vlib.statevar(r.trace[-1], "i"))
        T = traces[t - 1]
        return dict(info=info[t - 1] if info else None, P=T["P"], cycle=i, rows=T["rows"][max(0, i - 200):i],
                    fields="flags(1 arvalid 2 arready 4 rvalid 8 rready 16 awvalid 32 awready 64 wvalid 128 wready 256 bvalid "
                           "512 bready) out live [araddr>>2] [rdata,rresp] [awaddr>>2] [wdata,strb] [bresp]",
                    outs=data["outs"][:50])
    c.count("cycles_recorded", sum(len(x["rows"]) for x in traces))
    return c.conform("AxiLiteTrace", key, data, ntraces=len(traces), replayer=replay, view="View")


def graph(s, P, raddr, waddr, wdata, outf_names, live, maxn=60000, only=None):
    """every timing of a master which keeps its valids, and its readies once the address is accepted.
    raddr, waddr: byte addresses; wdata: (value, strobe)"""
    toks, spec, key = [], [], []
    for a in [None] + list(raddr):
        for rr in (0, 1):
            for b in [None] + list(waddr):
                for d in [None] + list(wdata):
                    for br in (0, 1):
                        t = dict(i_arvalid=int(a is not None), i_araddr=a or 0, i_rready=rr, i_awvalid=int(b is not None),
                                 i_awaddr=b or 0, i_wvalid=int(d is not None), i_wdata=d[0] if d else 0, i_wstrb=d[1] if d else 0,
                                 i_bready=br)
                        if only and not only(a, rr, b, d, br):
                            continue
                        toks.append(t)
                        key.append((a, rr, b, d, br))
                        spec.append(dict(arv=a is not None, ara=(a or 0) >> 2 & 0x1fff, rr=bool(rr), awv=b is not None,
                                         awa=(b or 0) >> 2 & 0x1fff, wv=d is not None, wd=b4(d[0]) if d else [],
                                         ws=d[1] if d else 0, br=bool(br)))
    outs = "o_arready o_rvalid o_rdata o_rresp o_awready o_wready o_bvalid o_bresp".split() + outf_names
    # env: offered read, read pending + ready kept, offered aw, offered w, aw - w balance, write pending + ready kept
    e0 = (None, 0, 0, None, None, 0, 0, 0)

    def legal(env, k):
        a0, rq, hr, b0, d0, bal, wq, hb = env
        a, rr, b, d, br = key[k]
        if a0 is not None and a != a0 or b0 is not None and b != b0 or d0 is not None and d != d0:
            return False
        if hr and not rr or hb and not br:
            return False
        if rq and a is not None and a0 is None:      # one read at a time
            return False
        if (wq or bal > 0) and b is not None and b0 is None:
            return False
        # at most one datum beyond the offered addresses, at most one write open
        nb = bal + (b is not None and b0 is None) - (d is not None and d0 is None)
        return -1 <= nb <= 1 and not (wq and d is not None and d0 is None and bal <= 0)

    def step(env, k, o):
        a0, rq, hr, b0, d0, bal, wq, hb = env
        a, rr, b, d, br = key[k]
        bal += (b is not None and b0 is None) - (d is not None and d0 is None)
        arr, rv, _, _, awr, wr, bv, _ = o[:8]
        if rv and rr and rq:
            rq = 0
        if a is not None and arr:
            a, rq = None, 1
        if bv and br and wq:
            wq = 0
        if b is not None and awr:
            b, wq = None, 1
        if d is not None and wr:
            d = None
        return (a, rq, rr if rq else 0, b, d, bal, wq, br if wq else 0)
    g = vlib.explore(s, toks, outs, maxn=maxn, legal=legal, env0=e0, envstep=step)
    zo = []
    for o in g.out:
        if P["kind"] == "core":
            h, w, l = o[8:11]
            out = [h & 255, h >> 8, w & 255, w >> 8, l & 255, l >> 8 & 255, l >> 16]
        else:
            out = b4(o[8]) + b4(o[9]) + b4(o[10])
        zo.append(dict(arr=bool(o[0]), rv=bool(o[1]), rd=b4(o[2]) if o[1] else [], rresp=o[3] if o[1] else 0, awr=bool(o[4]),
                       wr=bool(o[5]), bv=bool(o[6]), bresp=o[7] if o[6] else 0, out=out))
    return g, dict(P=P, tab=TABJ, live=live, nodes=g.nodes, toks=spec, outs=zo)


def conform_graph(c, key, s, g, data):
    def replay(r):
        return dict(steps=vlib.replay_tokens(s, g.toks, vlib.path_tokens(r), g.outs))
    c.count("graphs_cut", int(g.truncated))
    c.count("real_states", g.n)
    c.count("real_transitions", sum(map(len, g.nodes)))
    return c.conform("AxiLiteGraph", key, data, replayer=replay, view="View")
