"""Driving the bus wrappers for Wrappers.tla."""
import vlib, pipe, frames
from streams import by


class Wrap:
    """pack: pixels of one bus word -> word (unused bits random)"""

    def __init__(self, name, cfg, ps, per, nbytes, outb, last, los, tlast):
        self.name, self.cfg, self.ps, self.per, self.nbytes, self.outb, self.last, self.los, self.tlast = \
            name, cfg, ps, per, nbytes, outb, last, los, tlast

    def words(self, px, r):
        out = []
        px = list(px)
        while len(px) % self.per:
            px.append(r.getrandbits(12))
        for i in range(0, len(px), self.per):
            w = r.getrandbits(8 * self.nbytes)
            for lo, p in zip(self.los, px[i:i + self.per]):
                w = w & ~(0xfff << lo) | p << lo
            out.append(by(w, self.nbytes))
        return out


STUB = {"_stub_regs": True}
W = {x.name: x for x in (
    Wrap("beta_axis", STUB, 2, 2, 4, 2, True, (20, 8), True),
    Wrap("micro_axis", dict(support_axi_lite=True), 1, 1, 4, 2, True, (0,), True),
    Wrap("beta_fifo_axis", STUB, 2, 4, 8, 2, True, (52, 40, 28, 16), False),
    Wrap("beta_fifo_lvds", STUB, 2, 4, 8, 5, False, (52, 40, 28, 16), False),
    Wrap("beta_fullaxi", STUB, 2, 4, 8, 8, False, (32, 44, 0, 12), False),
    Wrap("i3_axis", STUB, 4, 4, 8, 4, True, (0, 12, 24, 36), True))}


def run(s, x, w, h, px, nframes, vpol, bpol, r, settle=560, maxcyc=60000, limit=frames.FULLC):
    """px: the pixels of all frames (each w x h); bus words are offered in order, each held until accepted"""
    s.reset()
    if "i_rready" in s.il:
        s.sets(i_s_tvalid=0, i_m_tready=1)
        pipe.axil_idle(s)
        pipe.axil_write(s, pipe.HW, h | w << 16)
        pipe.axil_write(s, pipe.HW + 4, limit)
    elif "i_g_width" in s.il:
        s.sets(i_g_width=w, i_g_height=h, i_g_allowed_cycles=limit)
    words = x.words(px, r)
    vp, bp = pipe.Policy(vpol, r), pipe.Policy(bpol, r)
    rows, k, off, quiet, ready, vo, cyc, over = [], 0, False, 0, 0, 0, 0, False
    n = x.nbytes
    while quiet < settle and cyc < maxcyc:
        cyc += 1
        if k < len(words) and not off:
            off = bool(vp(ready)) or cyc > 20000
        s.set("i_s_tvalid", int(off))
        s.set("i_s_tdata", int.from_bytes(bytes(words[k]), "big") if off else r.getrandbits(8 * n))
        if x.tlast:
            s.set("i_s_tlast", r.getrandbits(1))
        f = bp(vo) if quiet < settle // 2 and cyc < 20000 else 0
        s.set("i_m_tready", int(not f))
        s.cycle()
        ready, vo = s.get("o_s_tready"), s.get("o_m_tvalid")
        fl = int(off) + 2 * ready + 4 * vo + 8 * int(not f)
        if vo:
            fl += 16 * s.get("o_m_tlast") if x.last else 0
            rows.append([fl] + by(s.get("o_m_tdata"), x.outb))
        else:
            rows.append([fl])
        quiet += 1
        if off and ready:
            k, off, quiet = k + 1, False, 0
        if vo and not f:
            if x.name != "i3_axis" or not over:
                quiet = 0
            over = over or bool(fl & 16)
        if f:
            quiet = min(quiet, settle // 2)
    rows.append([64])
    return dict(kind=x.name, cfg=dict(ps=x.ps, bd=12, w=w, h=h, tab=frames.TAB), words=words, nframes=nframes, rows=rows)


def memory(s, x, w, h, px, nframes, r, limit=frames.FULLC):
    """the memory-to-memory design: the host programs both addresses and starts it; a memory serves the bursts"""
    s.reset()
    pipe.axil_idle(s)
    s.sets(i_r_arready=0, i_r_rvalid=0, i_w_awready=0, i_w_wready=0, i_w_bvalid=0)
    if "i_g_width" in s.il:
        s.sets(i_g_width=w, i_g_height=h, i_g_allowed_cycles=limit)
    words = x.words(px, r)
    src, dst = r.getrandbits(25) << 7, r.getrandbits(25) << 7
    for a, v in ((0, src), (1, dst), (2, 0xffffffff)):
        pipe.axil_write(s, 0x1000 + 4 * a, v)
    nb = len(words) // 16
    pol = [r.choice([0.05, .2, .5, .9, 1, 1]) for _ in range(5)]
    rows, queue, aw, left, quiet, cyc, cur, acks, beat = [], [], [], nb, 0, 0, None, [], 0
    while quiet < 900 and cyc < 60000:
        cyc += 1
        go = quiet > 450 or cyc > 30000
        p = [int(go or r.random() < q) for q in pol]
        if cur is None and queue and p[1]:
            cur = queue[0][0]
        i = (cur - src) % (1 << 32) // 8 if cur is not None else 0
        data = words[i] if cur is not None and i < len(words) else [r.getrandbits(8) for _ in range(8)]
        ack = bool(acks and p[4])
        s.sets(i_r_arready=int(left > 0 and p[0]), i_r_rvalid=int(cur is not None), i_r_rdata=int.from_bytes(bytes(data), "big"),
               i_r_rlast=int(cur is not None and len(queue[0]) == 1), i_r_rresp=0, i_w_awready=p[2], i_w_wready=p[3],
               i_w_bvalid=int(ack), i_w_bresp=0)
        s.cycle()
        quiet += 1
        g = s.get
        if cur is not None and g("o_r_rready"):
            rows.append([1, i if i < len(words) else -1] + data)
            queue[0].pop(0)
            if not queue[0]:
                queue.pop(0)
            cur, quiet = None, 0
        if left and p[0] and g("o_r_arvalid"):
            a = g("o_r_araddr")
            queue.append([(a + 8 * k) % (1 << 32) for k in range(g("o_r_arlen") + 1)])
            left -= 1
            quiet = 0
        if ack and g("o_w_bready"):
            acks.pop(0)
            quiet = 0
        if p[2] and g("o_w_awvalid"):
            aw.append((g("o_w_awaddr"), g("o_w_awlen") + 1))
            quiet = 0
        if p[3] and g("o_w_wvalid"):
            # data of the oldest burst without all its data
            if aw and g("o_w_wstrb") == 255:
                a, n = aw[0]
                j = (a + 8 * beat - dst) % (1 << 32) // 8
                beat += 1
                if beat == n:
                    aw.pop(0)
                    beat = 0
                    acks.append(1)
            else:
                j = -1
            rows.append([2, j if j < 1 << 20 else -1] + by(g("o_w_wdata"), 8))
            quiet = 0
    rows.append([64])
    return dict(kind=x.name, cfg=dict(ps=x.ps, bd=12, w=w, h=h, tab=frames.TAB), nwords=16 * nb, nframes=nframes, rows=rows)


def conform_memory(c, key, traces, info):
    def replay(r):
        t, i = (int(vlib.statevar(r.trace[-1], q)) for q in "ti")
        T = traces[t - 1]
        return dict(info=info[t - 1], cfg={k: v for k, v in T["cfg"].items() if k != "tab"}, event=i, rows=T["rows"][max(0, i - 200):i])
    return c.conform("MemTrace", key, dict(traces=traces), ntraces=len(traces), replayer=replay, view="View")


def conform(c, key, traces, info):
    def replay(r):
        t = int(vlib.statevar(r.trace[-1], "t"))
        i = int(vlib.statevar(r.trace[-1], "i"))
        tr = traces[t - 1]
        return dict(info=info[t - 1], cycle=i, kind=tr["kind"], cfg=tr["cfg"], words=tr["words"], rows=tr["rows"][max(0, i - 400):i])
    c.count("cycles_recorded", sum(len(x["rows"]) for x in traces))
    c.count("frames_encoded", sum(x["nframes"] for x in traces))
    return c.conform("WrapTrace", key, {"traces": traces}, ntraces=len(traces), replayer=replay, view="View")


LIMIT = 6666000


def big(s, x, w=4096, h=3072, limit=LIMIT, cut=777, part=1001, bits=4, byte=0xEE):
    """constant pixels (words of them): a frame which is cut by the cycle limit, a whole frame, the beginning of another"""
    s.reset()
    word = 0
    for lo in x.los:
        word |= 2048 << lo
    names = ("o_m_tvalid", "o_m_tdata", "o_m_tlast" if x.last else None, "o_s_tready", 1)
    s.sets(i_s_tvalid=0, i_s_tdata=word, i_m_tready=1)
    if "i_rready" in s.il:
        pipe.axil_idle(s)
        pipe.axil_write(s, pipe.HW, h | w << 16)
        pipe.axil_write(s, pipe.HW + 4, limit)
    elif "i_g_width" in s.il:
        s.sets(i_g_width=w, i_g_height=h, i_g_allowed_cycles=limit)
    if x.tlast:
        s.set("i_s_tlast", 0)
    per, bare = x.per // x.ps, x.name == "i3_axis"
    size = w * h // x.ps
    runs, segs = [], []
    tick = [0]

    def step(n):
        acc, q = s.runs(n, *names)
        tick[0] += s.used
        for k, d, l in q:
            d = by(d, x.outb)
            if runs and runs[-1][1] == d and runs[-1][2] == l:
                runs[-1][0] += k
            else:
                runs.append([k, d, l])
        return acc, q

    def feed(n):
        """n words; returns the cycle after which the first was accepted, and the words accepted"""
        s.set("i_s_tvalid", 1)
        acc, first, end = 0, 0, tick[0] + 2 * n * per + 2000
        while acc < n and tick[0] < end:
            a, _ = step(1 if not first or n - acc < 4 else n - acc)
            acc += a
            if not first and a:
                first = tick[0]
        s.set("i_s_tvalid", 0)
        return first, acc

    def drain(n):
        for _ in range(n):
            step(1)
            if bare and runs and runs[-1][2]:
                break

    if not bare:
        t0, n = feed(cut)
        drain(200)          # everything fed so far comes out
        left = limit - (tick[0] - t0) - 20
        if left > 0:
            step(left)
        at = t0
        while at == t0 and tick[0] < t0 + limit + 200:
            if step(1)[1]:
                at = tick[0]
        drain(300)
        segs.append([n * per, "cut", at - t0])
    t0, n = feed(size // per)
    drain(600)
    segs.append([n * per, "full", 0])
    if not bare:
        t0, n = feed(part)
        drain(600)
        segs.append([n * per, "part", 0])
    return dict(kind=x.name, ps=x.ps, bits=bits, byte=byte, size=size, limit=limit, segs=segs, runs=runs)


def conform_big(c, key, data):
    def replay(r):
        k = int(vlib.statevar(r.trace[-1], "k"))
        d = data[k - 1]
        return dict(kind=d["kind"], groups=d["size"], limit=d["limit"], fed=d["segs"], runs=d["runs"])
    return c.conform("BigWrap", key, dict(runs=data), ntraces=len(data), replayer=replay)


# ------------------------------------------------------------------ the memory-to-memory design as a bus master (Transfer.tla)
def transfer(s, x, r, nb, start=0xffffffff, stop=None, src=None, dst=None):
    """random memory, random words; the host reads status registers meanwhile; nb bursts may be read; stop: cycle at
    which the host clears the start register"""
    s.reset()
    pipe.axil_idle(s)
    s.sets(i_r_arready=0, i_r_rvalid=0, i_w_awready=0, i_w_wready=0, i_w_bvalid=0, i_r_rresp=0, i_w_bresp=0)
    if "i_g_width" in s.il:
        s.sets(i_g_width=2 * r.randint(3, 20), i_g_height=r.randint(2, 20), i_g_allowed_cycles=frames.FULLC)
    src = r.getrandbits(25) << 7 if src is None else src
    dst = r.getrandbits(25) << 7 if dst is None else dst
    rows = []
    half = lambda v: [v >> 16, v & 0xffff]
    pol = [r.choice([0.03, .2, .5, .9, 1, 1]) for _ in range(5)]
    big = r.random() < .7
    burst, left, acks, wgot = [], nb, 0, 0
    nar = naw = 0
    reading, quiet, cyc = None, 0, 0
    g = s.get

    def write(a, v):
        s.sets(i_r_arready=0, i_r_rvalid=0, i_w_awready=0, i_w_wready=0, i_w_bvalid=0)
        pipe.axil_write(s, 0x1000 + 4 * a, v)
        pipe.axil_idle(s)

    write(0, src)
    write(1, dst)
    while quiet < 900 and cyc < 40000:
        if cyc in (60, stop):
            for _ in range(50):      # let a read of the host finish first, the memory standing still
                if reading is None:
                    break
                s.sets(i_r_arready=0, i_r_rvalid=0, i_w_awready=0, i_w_wready=0, i_w_bvalid=0)
                s.cycle()
                if g("o_rvalid"):
                    rows.append([8, reading] + half(g("o_rdata")))
                    reading = None
                if g("o_arready") or reading is None:
                    s.set("i_arvalid", 0)
        if cyc == 60:
            rows.append([6] + half(start))      # the master may start while the write is being answered
            write(2, start)
        if stop is not None and cyc == stop:
            v = r.choice([0, 0, 1, 0xfffffffe, 0x7fffffff])
            write(2, v)
            rows.append([6] + half(v))
        cyc += 1
        go = quiet > 450 or cyc > 20000
        p = [int(go or r.random() < q) for q in pol]
        rv, bv = int(bool(burst) and p[1]), int(acks > 0 and p[4])
        if reading is None and r.random() < .05:
            reading = r.choice([0, 1, 2, 3, 3, 3, 3, 4, 5, 6, 7])
            rows.append([7])
            s.sets(i_araddr=0x1000 + 4 * reading, i_arvalid=1, i_rready=1)
        s.sets(i_r_arready=int(left > 0 and p[0]), i_r_rvalid=rv, i_r_rdata=r.getrandbits(64) if big else 0,
               i_r_rlast=int(rv and burst[0] == 1), i_w_awready=p[2], i_w_wready=p[3], i_w_bvalid=bv)
        s.cycle()
        quiet += 1
        n0 = len(rows)
        if rv and g("o_r_rready"):
            rows.append([3, int(burst[0] == 1)])
            burst[0] -= 1
            if not burst[0]:
                burst.pop(0)
        if p[3] and g("o_w_wvalid"):
            rows.append([4, g("o_w_wlast"), g("o_w_wstrb")])
            wgot += 1
            if wgot % 16 == 0:
                acks += 1
        if bv and g("o_w_bready"):
            rows.append([5])
            acks -= 1
        if left and p[0] and g("o_r_arvalid"):
            ok = g("o_r_arlen") == 15 and g("o_r_araddr") == (src + 128 * nar) % (1 << 32)
            rows.append([1, nar if ok else -1])
            nar += 1
            burst.append(g("o_r_arlen") + 1)
            left -= 1
        if p[2] and g("o_w_awvalid"):
            ok = g("o_w_awlen") == 15 and g("o_w_awaddr") == (dst + 128 * naw) % (1 << 32)
            rows.append([2, naw if ok else -1])
            naw += 1
        if len(rows) > n0:
            quiet = 0
        if reading is not None:
            if g("o_rvalid"):
                rows.append([8, reading] + half(g("o_rdata")))
                reading = None
                s.set("i_arvalid", 0)
            elif g("o_arready"):
                s.set("i_arvalid", 0)
    rows.append([9])
    return dict(rows=rows, src=half(src), dst=half(dst), wait=int(stop is not None))


def longrun(s, seed, cycles, r):
    s.reset()
    pipe.axil_idle(s)
    s.sets(i_r_arready=0, i_r_rvalid=0, i_w_awready=0, i_w_wready=0, i_w_bvalid=0, i_r_rresp=0, i_w_bresp=0)
    src, dst = r.getrandbits(25) << 7, r.getrandbits(25) << 7
    for a, v in ((0, src), (1, dst), (2, 0xffffffff)):
        pipe.axil_write(s, 0x1000 + 4 * a, v)
    q = s.memrun(cycles, src, dst, seed)
    s.sets(i_r_arready=0, i_r_rvalid=0, i_w_awready=0, i_w_wready=0, i_w_bvalid=0)
    half = lambda v: [v >> 16, v & 0xffff]
    regs = [half((pipe.axil_read(s, 0x1000 + 4 * k) or (0, 0))[1]) for k in range(8)]
    return dict(ar=q["ar"], aw=q["aw"], rbeats=q["rbeats"], wbeats=q["wbeats"], b=q["b"], cycles=q["cycles"], src=half(src), dst=half(dst),
                bad=sum(q[k] for k in q if k.startswith("bad")), regs=regs, full=int(seed != 0))
