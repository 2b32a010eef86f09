"""AXI slaves, buffers and address sources around the burst engines, for Burst.tla."""
import vlib

A = [0x10000000, 0x2000fff8]
W = [0x0123456789abcdef, 0xfedcba9876543210]


def a2(v):
    return [v >> 16 & 0xffff, v & 0xffff]


def w4(v):
    return [v >> 48, v >> 32 & 0xffff, v >> 16 & 0xffff, v & 0xffff]


ROUT = "arvalid araddr arlen arburst arsize arid arprot addr_enable rready data_enable data_out reader_error inactive reader_active".split()
WOUT = "awvalid awaddr awlen awburst awsize awid awprot addr_enable wvalid wdata wlast wstrb data_enable bready writer_error inactive " \
       "writer_active writer_unconf wid".split()


def rview(o):
    o = dict(zip(ROUT, o))
    b = lambda n: bool(o[n])
    return dict(arvalid=b("arvalid"), araddr=a2(o["araddr"]) if o["arvalid"] else [],
                ar=[o["arlen"], o["arburst"], o["arsize"], o["arid"], o["arprot"]] if o["arvalid"] else [],
                take=b("addr_enable"), rready=b("rready"), put=b("data_enable"), out=w4(o["data_out"]) if o["data_enable"] else [],
                err=b("reader_error"), idle=b("inactive"), active=o["reader_active"])


def wview(o):
    o = dict(zip(WOUT, o))
    b = lambda n: bool(o[n])
    return dict(awvalid=b("awvalid"), awaddr=a2(o["awaddr"]) if o["awvalid"] else [],
                aw=[o["awlen"], o["awburst"], o["awsize"], o["awid"] or o["wid"], o["awprot"]] if o["awvalid"] else [],
                take=b("addr_enable"), wvalid=b("wvalid"), wdata=w4(o["wdata"]) if o["wvalid"] else [],
                wlast=b("wlast") if o["wvalid"] else False, wstrb=o["wstrb"] if o["wvalid"] else 0, get=b("data_enable"),
                bready=b("bready"), err=b("writer_error"), idle=b("inactive"), active=o["writer_active"], unconf=o["writer_unconf"])


def rtok(en, full, a, arr, rv, d, last, resp):
    t = dict(i_enable=en, i_data_full=full, i_addr_empty=int(a is None), i_addr_in=a or 0, i_arready=arr, i_rvalid=rv, i_rdata=d,
             i_rlast=last, i_rresp=resp)
    x = dict(en=bool(en), full=bool(full), av=a is not None, aa=a2(a or 0), arr=bool(arr), rv=bool(rv), rd=w4(d), rl=bool(last),
             resp=resp)
    return t, x


def wtok(en, a, avail, d, strb, awr, wr, bv, resp):
    t = dict(i_enable=en, i_addr_empty=int(a is None), i_addr_in=a or 0, i_data_empty=int(not avail), i_data_in=d, i_write_strobe=strb,
             i_awready=awr, i_wready=wr, i_bvalid=bv, i_bresp=resp)
    x = dict(en=bool(en), av=a is not None, aa=a2(a or 0), avail=bool(avail), di=w4(d), strb=strb, awr=bool(awr), wr=bool(wr),
             bv=bool(bv), resp=resp)
    return t, x


def reader_graph(s, B, naddr=1, ens=(0, 1), maxn=400000):
    toks, spec, key = [], [], []
    for en in ens:
        for full in (0, 1):
            for a in [None] + A[:naddr]:
                for arr in (0, 1):
                    for r in (None, (W[0], 0), (W[1], 2)):
                        for last in ((0, 1) if r else (0,)):
                            t, x = rtok(en, full, a, arr, int(r is not None), r[0] if r else 0, last, r[1] if r else 0)
                            toks.append(t)
                            spec.append(x)
                            key.append((full, a, r, last))
    # address offered, bursts issued, beat, beat offered, room promised
    e0 = (None, 0, 0, None, 0)

    def legal(env, k):
        a0, out, beat, r0, room = env
        full, a, r, last = key[k]
        if a0 is not None and a != a0 or r0 is not None and r != r0 or room and full:
            return False
        return r is None or out > 0 and last == int(beat == B - 1)

    def step(env, k, o):
        a0, out, beat, r0, room = env
        full, a, r, last = key[k]
        rready, take = o[8], o[7]
        z = out
        if take:
            a, z = None, z + 1
        if not full:
            room = 1
        if r and rready:
            beat += 1
            if last:
                beat, z = 0, z - 1
            r = None
            room = 0
        return (a, z, beat, r, room)
    g = vlib.explore(s, toks, ["o_" + x for x in ROUT], maxn=maxn, legal=legal, env0=e0, envstep=step)
    return g, dict(kind="reader", B=B, nodes=g.nodes, toks=spec, outs=[rview(o) for o in g.out])


def writer_graph(s, B, naddr=1, ens=(0, 1), maxn=400000):
    toks, spec, key = [], [], []
    for en in ens:
        for a in [None] + A[:naddr]:
            for avail in (0, 1):
                for awr in (0, 1):
                    for wr in (0, 1):
                        for b in (None, 0, 2):
                            t, x = wtok(en, a, avail, W[0], 0xff, awr, wr, int(b is not None), b or 0)
                            toks.append(t)
                            spec.append(x)
                            key.append((a, avail, b))
    # address offered, unfinished data, beat, complete and unanswered, answer offered, words promised
    e0 = (None, 0, 0, 0, None, 0)

    def legal(env, k):
        a0, out, beat, comp, b0, words = env
        a, avail, b = key[k]
        if a0 is not None and a != a0 or b0 is not None and b != b0 or words and not avail:
            return False
        return b is None or comp > 0

    def step(env, k, o):
        a0, out, beat, comp, b0, words = env
        a, avail, b = key[k]
        take, get, bready = o[7], o[12], o[13]
        if b is not None and bready:
            comp, b = comp - 1, None
        if take:
            a, out = None, out + 1
        words = int(words or avail)
        if get:
            beat, words = beat + 1, 0
            if beat == B:
                beat, out, comp = 0, out - 1, comp + 1
        return (a, out, beat, comp, b, words)
    g = vlib.explore(s, toks, ["o_" + x for x in WOUT], maxn=maxn, legal=legal, env0=e0, envstep=step)
    return g, dict(kind="writer", B=B, nodes=g.nodes, toks=spec, outs=[wview(o) for o in g.out])


def conform_graph(c, key, s, g, data):
    def replay(r):
        return dict(steps=vlib.replay_tokens(s, g.toks, vlib.path_tokens(r), g.outs))
    c.count("graphs_cut", int(g.truncated))
    c.count("real_states", g.n)
    c.count("real_transitions", sum(map(len, g.nodes)))
    return c.conform("BurstGraph", key, data, replayer=replay, view="View")


def outs_of(s, names):
    return [s.get("o_" + n) for n in names]


def pol(r):
    p = r.choice([0, .1, .3, .5, .8, .95, 1])
    q = r.random() < .25
    st = [0]

    def f():
        if q:       # long phases
            if st[0] == 0 or r.random() < .02:
                st[0] = r.choice([1, 2])
            return int(st[0] == 1)
        return int(r.random() < max(p, .02))
    return f


def reader_trace(s, B, n, r, resets=False):
    """n addresses through the read engine, a buffer of 2 bursts and a slave with random timing"""
    s.reset()
    rows = []
    depth = r.choice([B, 2 * B, 2 * B, 4 * B])
    fa, fr, fv, fd, fe = pol(r), pol(r), pol(r), pol(r), pol(r)
    addr, left, level = None, n, 0
    queue, cur = [], None       # issued bursts (beats to come), offered beat
    room = False
    quiet = 0
    while quiet < 300 and len(rows) < 12000:     # longer: it has already gone wrong
        go = quiet > 100 or len(rows) > 4000    # in the end everybody is eager
        if addr is None and left and (go or fa()):
            addr = r.choice([r.getrandbits(32), 0xffffffff, A[0]])
            left -= 1
        if cur is None and queue and (go or fv()):
            cur = (r.getrandbits(64), int(queue[0] == 1), r.choice([0, 0, 0, 2, 3, 1]))
        if level and (go or fd()):
            level -= r.randint(1, min(level, r.choice([1, 1, 16])))
        full = int(depth - level < B)
        arr = 1 if go else fr()
        en = 1 if quiet > 40 or go else int(fe() or fe())
        t, x = rtok(en, full, addr, arr, int(cur is not None), cur[0] if cur else r.getrandbits(64), cur[1] if cur else r.getrandbits(1),
                    cur[2] if cur else r.getrandbits(2))
        s.sets(**t)
        s.cycle()
        o = outs_of(s, ROUT)
        v = rview(o)
        if not cur:
            x.update(rd=[], rl=False, resp=0)
        x.update(v)
        rows.append(x)
        quiet += 1
        if cur and v["rready"]:
            quiet = 0
            queue[0] -= 1
            if not queue[0]:
                queue.pop(0)
            cur = None
        if v["put"]:
            level += 1
        if addr is not None and arr and v["arvalid"]:
            queue.append(B)
            quiet = 0
        if v["take"]:
            addr = None
        if not left and addr is None and not queue and quiet < 280:
            quiet = 280
    rows.append(dict(final=1))
    return dict(kind="reader", B=B, rows=rows)


def writer_trace(s, B, n, r, lazy=False):
    """lazy: the slave confirms nothing for a long time"""
    s.reset()
    rows = []
    fa, fr, fw, fb, fd, fe = (pol(r) for _ in range(6))
    addr, left, words = None, n, 0
    act = beat = comp = 0
    cur = None
    data = r.getrandbits(64)
    strb = 0xff
    total = n * B
    quiet = 0
    cyc = 0
    while quiet < 300 and len(rows) < 12000:
        cyc += 1
        go = quiet > 100 or len(rows) > 4000
        if addr is None and left and (lazy or go or fa()):
            addr = r.choice([r.getrandbits(32), 0xffffffff, A[0]])
            left -= 1
        if total and (lazy or go or fd()):
            k = min(total, r.choice([1, 1, 2, B]))
            words += k
            total -= k
        if cur is None and comp and (cyc > 900 if lazy else go or fb()):
            cur = r.choice([0, 0, 0, 2, 3])
        avail = int(words >= B)
        awr, wr = (1, 1) if lazy or go else (fr(), fw())
        en = 1 if quiet > 40 or lazy or go else int(fe() or fe())
        if quiet > 150 and not left and addr is None:
            en = r.getrandbits(1)
        if not words and r.random() < .1:
            strb = r.choice([0xff, r.getrandbits(8)])
        t, x = wtok(en, addr, avail, data, strb, awr, wr, int(cur is not None), cur if cur is not None else r.getrandbits(2))
        s.sets(**t)
        s.cycle()
        v = wview(outs_of(s, WOUT))
        if cur is None:
            x["resp"] = 0
        x.update(v)
        rows.append(x)
        quiet += 1
        if cur is not None and v["bready"]:
            cur, comp, quiet = None, comp - 1, 0
        if addr is not None and awr and v["awvalid"]:
            act += 1
            quiet = 0
        if v["take"]:
            addr = None
        if v["wvalid"] and wr:
            quiet = 0
            beat += 1
            if beat == B:
                beat, act, comp = 0, act - 1, comp + 1
        if v["get"]:
            words = max(0, words - 1)
            data = r.choice([r.getrandbits(64), 0, 2**64 - 1])
        if lazy and cyc < 900:
            quiet = 0
        if not left and addr is None and not act and not comp and not words and quiet < 280:
            quiet = 280
    rows.append(dict(final=1))
    return dict(kind="writer", B=B, rows=rows)


def address_trace(s, step, n, r):
    s.reset()
    rows = []
    start = r.choice([r.getrandbits(32), 0, 0xffffff00, 0x0000fff0])
    f = pol(r)
    valid = 0
    for k in range(n):
        if r.random() < .02 and k:
            s.rst(1)
            s.set("i_address_latch", 0)
            s.cycle()
            s.rst(0)
            rows.append(dict(reset=1))
            valid = 0
            start = r.getrandbits(32)
        if r.random() < .05:
            start = r.choice([r.getrandbits(32), 0xfffffff0, start])
        # an address can only be taken when it is shown: peek first
        s.sets(i_starting_address=start, i_address_latch=0)
        s.peek()
        valid = s.get("o_address_valid")
        take = int(bool(valid and f()))
        s.set("i_address_latch", take)
        s.cycle()
        rows.append(dict(take=bool(take), start=a2(start), valid=bool(s.get("o_address_valid")), addr=a2(s.get("o_address_o"))))
    return dict(kind="address", B=step, rows=rows)


def conform(c, key, traces):
    def replay(r):
        t = int(vlib.statevar(r.trace[-1], "t"))
        i = int(vlib.statevar(r.trace[-1], "i"))
        T = traces[t - 1]
        return dict(kind=T["kind"], B=T["B"], cycle=i, rows=T["rows"][max(0, i - 60):i])
    c.count("cycles_recorded", sum(len(x["rows"]) for x in traces))
    return c.conform("BurstTrace", key, {"traces": traces}, ntraces=len(traces), replayer=replay, view="View")
