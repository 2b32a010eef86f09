"""C28: the building blocks, against Blocks.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import itertools
import vlib

META = dict(
    technique="TLC: product of the complete state graphs of auto-reset and delayer with Blocks.tla; recorded runs of bridge and reverser",
    note="Auto-reset and the delayers (3 to 40 stages) are explored completely; the bridge is run with sampled transactions, one at a "
         "time, between a master and a slave with sampled timing; the reverser with sampled words of several widths.")
DELAYS = (3, 4, 5, 7, 8, 9, 16, 17, 40)


def graph(j):
    kind, par = j
    name, ins, out = ("auto_reset", ("i_end_in", "i_hs1_in", "i_hs2_in"), "o_reset_out") if kind == "auto" else \
        ("delayer", ("i_in_sig",), "o_out_sig")
    s = vlib.sim(name, None if kind == "auto" else dict(delay_stages=par))
    toks, spec = [], []
    for rst in (0, 1):
        for v in itertools.product((0, 1), repeat=len(ins)):
            toks.append(dict(zip(ins, v), rst=rst, full_rst=rst))
            spec.append(dict(rst=bool(rst), a=list(v)))
    g = vlib.explore(s, toks, [out], maxn=20000)
    return g, dict(kind=kind, par=par, nodes=g.nodes, toks=spec, outs=[[o[0]] for o in g.out])


def rev(j):
    n, sync, q = j
    r = vlib.rng("C28", n, sync, q)
    s = vlib.sim("reverser", dict(num_bits=n, sync=sync))
    s.reset()
    rows = []
    for k in range(60):
        v = r.choice([r.getrandbits(n), 1 << r.randrange(n), 0, (1 << n) - 1])
        s.set("i_data_in", v)
        s.cycle()
        z = s.get("o_data_out")
        rows.append([dict(rst=False, a=[v >> b & 1 for b in range(n)]), [z >> b & 1 for b in range(n)]])
    return [dict(kind="revsync" if sync else "rev", par=0, rows=rows)]


def bridge(q):
    r = vlib.rng("C28", "bridge", q)
    s = vlib.sim("axi_lite", None)
    out = []
    for _ in range(vlib.pick(6, 40)):
        s.reset()
        rows = []
        p = [r.choice([.1, .5, 1]) for _ in range(4)]
        junk = lambda: dict(i_araddr=r.getrandbits(32), i_arprot=r.getrandbits(3), i_arid=r.getrandbits(12), i_awaddr=r.getrandbits(32),
                            i_awprot=r.getrandbits(3), i_awid=r.getrandbits(12), i_wdata=r.getrandbits(32), i_wstrb=r.getrandbits(4),
                            i_m_rdata=r.getrandbits(32), i_m_rresp=r.getrandbits(2), i_m_bresp=r.getrandbits(2))
        for _ in range(30):
            rd = r.random() < .5
            req = junk()
            ans = {k: v for k, v in junk().items() if k.startswith("i_m_")}
            need = {"ar"} if rd else {"aw", "w"}
            up, age, answered, answering, since = set(), 0, False, False, None
            for _ in range(400):
                t = junk()
                for ch in sorted(need - up):
                    if ch == "ar" or ch == "aw" or r.random() < p[0]:
                        up.add(ch)
                for ch in up & need:
                    t.update({k: v for k, v in req.items() if k.startswith("i_" + ch)})
                if since is not None and since >= 1 and not need and r.random() < p[1]:
                    answering = True
                if answering:
                    t.update(ans)
                f = {"i_arvalid": "ar" in up & need, "i_awvalid": "aw" in up & need, "i_wvalid": "w" in up & need,
                     "i_rready": r.random() < p[2], "i_bready": r.random() < p[2], "i_m_arready": r.random() < p[3],
                     "i_m_awready": r.random() < p[3], "i_m_wready": r.random() < p[3],
                     "i_m_rvalid": rd and answering, "i_m_bvalid": not rd and answering}
                t.update({k: int(v) for k, v in f.items()})
                s.sets(**t)
                s.cycle()
                g = lambda *n: " ".join("%x" % s.get("o_" + k) for k in n)
                h = lambda *n: " ".join("%x" % t["i_" + k] for k in n)
                b = lambda n: bool(s.get("o_" + n))
                rows.append([dict(arv=f["i_arvalid"], ara=h("araddr", "arprot"), arid=h("arid"), rr=f["i_rready"], awv=f["i_awvalid"],
                                  awa=h("awaddr", "awprot"), awid=h("awid"), wv=f["i_wvalid"], wd=h("wdata", "wstrb"), br=f["i_bready"],
                                  sarr=f["i_m_arready"], srv=f["i_m_rvalid"], srd=h("m_rdata", "m_rresp"), sawr=f["i_m_awready"],
                                  swr=f["i_m_wready"], sbv=f["i_m_bvalid"], sbd=h("m_bresp")),
                             dict(arr=b("arready"), rv=b("rvalid"), rd=g("rdata", "rresp"), rid=g("rid"), rl=b("rlast"), awr=b("awready"),
                                  wr=b("wready"), bv=b("bvalid"), bd=g("bresp"), bid=g("bid"), sarv=b("m_arvalid"),
                                  sara=g("m_araddr", "m_arprot"), srr=b("m_rready"), sawv=b("m_awvalid"), sawa=g("m_awaddr", "m_awprot"),
                                  swv=b("m_wvalid"), swd=g("m_wdata", "m_wstrb"), sbr=b("m_bready"))])
                since = 0 if since is None and ("ar" in up or "aw" in up) else None if since is None else since + 1
                for ch in list(up & need):
                    if f["i_m_%sready" % ch]:
                        need.discard(ch)
                if answering and f["i_rready" if rd else "i_bready"]:
                    break
        out.append(dict(kind="bridge", par=0, rows=rows))
    return out


def call(j):
    return graph(j[1]) if j[0] == "g" else rev(j[1]) if j[0] == "r" else bridge(j[1])


def main(c):
    gs = [("auto", 0)] + [("delay", d) for d in DELAYS]
    rs = [(n, y, q) for n in (1, 2, 5, 8, 16, 32, 64) for y in (False, True) for q in range(vlib.pick(1, 6))]
    vlib.build_all([("auto_reset", None), ("axi_lite", None)] + [("delayer", dict(delay_stages=d)) for d in DELAYS] +
                   [("reverser", dict(num_bits=n, sync=y)) for n, y in {x[:2] for x in rs}])
    jobs = [("g", g) for g in gs] + [("r", x) for x in rs] + [("b", q) for q in range(vlib.pick(8, 16))]
    res = vlib.pmap(call, jobs)
    vlib.tick("explored and recorded")
    calls, traces = [], []
    for (k, x), y in zip(jobs, res):
        if k == "g":
            g, data = y
            c.count("graphs_cut", int(g.truncated))
            c.count("real_states", g.n)
            c.count("real_transitions", sum(map(len, g.nodes)))
            calls.append((x, g, data))
        else:
            traces += y

    def product(a):
        x, g, data = a

        def replay(r):
            ks = vlib.path_tokens(r)
            return dict(block=x, inputs=[data["toks"][k - 1] for k in ks])
        c.conform("BlockGraph", "%s-%d" % x, data, replayer=replay, view="View")

    def replay(r):
        t, i = (int(vlib.statevar(r.trace[-1], q)) for q in "ti")
        return dict(kind=traces[t - 1]["kind"], cycle=i, rows=traces[t - 1]["rows"][max(0, i - 20):i])
    vlib.tmap(product, calls)
    c.conform("BlockTrace", "runs", dict(traces=traces), ntraces=len(traces), replayer=replay, view="View")
    c.sample(traces[0]["rows"][0])
    c.assumptions.append("the bridge's master has one transaction outstanding at a time, answered two cycles after its request or later")


vlib.run("C28", main)
