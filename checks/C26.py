"""C26: the board software's register accesses, against HostRegs.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, huff, host
from pipe import mkcfg

META = dict(
    technique="TLC: every load and store of the compiled board software, call by call, checked against HostRegs.tla",
    note="Random call histories over memory-like registers and over the netlist of the real core (each load and store becomes an "
         "AXI-lite transaction); scripted device status.  Values are sampled, every status bit and code table category is covered.")
BASE = 0x83C00000


def val16(r):
    return r.choice([0, 1, 0xffff, 0x8000, 0x7fff, 0x00ff, 0xff00, r.getrandbits(16), r.getrandbits(16)])


def val32(r):
    return r.choice([0, 1, 0xffffff, 0xffffffff, 0x80000000, 10000, 99999999, 4294960000, r.getrandbits(32), r.getrandbits(24),
                     r.getrandbits(32)])


class State:
    """the host-owned registers as the specification sees them"""

    def __init__(self, bd, tabs):
        self.bd, self.h, self.w, self.lim, self.tab, self.tabs = bd, 0, 0, 0, None, tabs

    def table(self, tab):
        self.t = tab
        if tab not in self.tabs:
            self.tabs.append(tab)
        self.tab = self.tabs.index(tab) + 1

    def rec(self):
        b = host.b4
        return dict(bd=self.bd, h=b(self.h)[:2], w=b(self.w)[:2], lim=b(self.lim)[:3], tab=self.tab)


def core_call(st, H, r, op):
    a = val16(r) if op in ("seth", "setw") else val32(r) if op == "setl" else 0
    c = H.call(op, a)
    if op == "seth":
        st.h = a
    elif op == "setw":
        st.w = a
    elif op == "setl":
        st.lim = a & 0xffffff
    return c


def put(m, st):
    m.m[0x800], m.m[0x801] = st.w << 16 | st.h, st.lim
    for k in range(st.bd + 1):
        e = huff.entry(st.bd, k, st.t)
        m.m[0x400 + 2 * k], m.m[0x401 + 2 * k] = e & 0xffffffff, e >> 32


def job(j):
    kind, x, n = j
    r = vlib.rng("C26", kind, x)
    tabs, out = [[list(q) for q in pipe.DEFAULT_CODES]], []
    if kind == "net":
        cfg = mkcfg(1, x, axi=True, debug=True)
        s = vlib.sim("integration_3", cfg)
    if kind == "out":
        s = vlib.sim("core_axi_lite", dict(bit_depth=12, axi_lite_debug=True))
    for q in range(n):
        rows = []
        if kind == "bad":
            H = host.Host(host.Memory())
            rows.append(H.call("newc", BASE, x))
            H.close()
            out.append(dict(s0=dict(bd=2, h=[0, 0], w=[0, 0], lim=[0, 0, 0], tab=1), rows=rows))
            continue
        if kind == "dma":
            m = host.Memory()
            H = host.Host(m)
            rows.append(H.call("newd", r.choice([0x40400000, r.getrandbits(16) << 16])))
            for k in range(30):
                if rows[-1]["code"]:
                    break
                op = r.choice(["reset", "halt", "start", "addr", "len", "addr", "len", "statr", "statw", "syncr", "syncw"])
                for w in (1, 13):
                    m.script[w] = [r.choice([0, 0x10000, r.getrandbits(32), 1 << r.randrange(32), 0xffffffff ^ 1 << r.randrange(32)])]
                if op in ("syncr", "syncw"):
                    l = [r.choice([0, 2, 0x1000, 0x10000, 0x2000, 4, r.getrandbits(32) & ~(2 if r.random() < .5 else 0x1000)])
                         for _ in range(r.choice([0, 0, 1, 2, 5, 20]))]
                    l.append(r.getrandbits(32) & ~0x1002)
                    m.script[1 if op == "syncr" else 13] = l + [r.choice([0x1002, r.getrandbits(32) | 0x1002])]
                    m.script[13 if op == "syncr" else 1] = [r.choice([0x1002, 0])]
                rows.append(H.call(op, val32(r), val32(r)))
            if q == 0 and not rows[-1]["code"]:     # every status bit alone, and all but it
                for b in range(32):
                    for v in (1 << b, 0xffffffff ^ 1 << b):
                        m.script[1], m.script[13] = [v], [0xffffffff ^ v]
                        rows += [H.call("statr"), H.call("statw")]
            H.close()
            out.append(dict(s0=dict(bd=2, h=[0, 0], w=[0, 0], lim=[0, 0, 0], tab=1), rows=rows))
            continue
        st = State(12 if kind == "out" else x, tabs)
        st.table(tabs[0])
        if kind == "mem":
            dev = host.Memory()
            for w in (*range(0x400, 0x440), *range(0x1000, 0x1008), *range(0x7f8, 0x808)):
                dev.m[w] = r.getrandbits(32)
            st.h, st.w, st.lim = val16(r), val16(r), val32(r) & 0xffffff
            put(dev, st)
        else:
            s.reset()
            pipe.axil_idle(s)
            if kind == "net":
                s.sets(i_valid_in=0, i_busy_in=0)
                if q:       # the host programs another table first
                    st.table(huff.rand_table(r, x + 1))
                for k in range(x + 1):
                    e = huff.entry(x, k, st.t)
                    for b in (0, 1):
                        pipe.axil_write(s, BASE + 4 * (0x400 + 2 * k + b), e >> 32 * b & 0xffffffff)
            s.cycle()
            dev = NetWords(s, r)
        s0 = st.rec()
        H = host.Host(dev)
        rows.append(H.call("newc", BASE if kind != "mem" else r.getrandbits(16) << 16, st.bd))
        for k in range(vlib.pick(30, 80)):
            if rows[-1].get("code"):
                break
            op = r.choice(["geth", "getw", "getl", "seth", "setw", "setl", "seth", "setw", "ssss", "debug"])
            if kind == "out" and op == "ssss":
                continue
            if kind == "mem" and r.random() < .2:
                st.table(huff.rand_table(r, st.bd + 1))
                for w in range(0x1000, 0x1008):
                    dev.m[w] = val32(r)
                put(dev, st)
                rows.append(dict(op="env", st=st.rec()))
            if kind == "net" and r.random() < .3:       # debug counters move
                s.sets(i_valid_in=r.getrandbits(1), i_busy_in=r.getrandbits(1))
                for _ in range(r.randint(1, 30)):
                    s.cycle()
                s.sets(i_valid_in=0, i_busy_in=0)
            row = core_call(st, H, r, op)
            if kind == "mem" and not row["code"]:
                row["dev"] = host.b4(dev.m[0x800]) + host.b4(dev.m[0x801])[:3]
            if kind == "out":
                s.cycle()
                h, w, l = (s.get("o_" + q) for q in ("height", "width", "allowed_cycles"))
                row["dev"] = host.b4(h)[:2] + host.b4(w)[:2] + host.b4(l)[:3]
            rows.append(row)
        H.close()
        out.append(dict(s0=s0, rows=rows))
    return tabs, out


class NetWords(host.Netlist):
    def read(self, w):
        x = super().read(w)
        return x[1] if x else 0xdeadbeef

    def write(self, w, strb, v):
        super().write(w, strb, v)


def main(c):
    host.exe()
    nets = vlib.pick([12, 16, 2], range(2, 17))
    vlib.build_all([("integration_3", mkcfg(1, bd, axi=True, debug=True)) for bd in nets] +
                   [("core_axi_lite", dict(bit_depth=12, axi_lite_debug=True))])
    n = vlib.pick(1, 6)
    jobs = [("net", bd, 4 * n) for bd in nets] + [("mem", bd, 3 * n) for bd in range(2, 17)] + [("out", k, 4 * n) for k in range(2)]
    jobs += [("dma", k, 10 * n) for k in range(4)] + [("bad", bd, 1) for bd in (0, 1, 17, 18, 128, 255)]
    res = vlib.pmap(job, jobs)
    vlib.tick("recorded")
    tabs, traces, info = [], [], []
    for j, (tb, out) in zip(jobs, res):
        for t in out:
            for x in [t["s0"]] + [y["st"] for y in t["rows"] if y["op"] == "env"]:
                x["tab"] += len(tabs)
            traces.append(t)
            info.append(j)
        tabs += tb

    def replay(r):
        t, i = (int(vlib.statevar(r.trace[-1], q)) for q in "ti")
        return dict(kind=info[t - 1], call=i, rows=traces[t - 1]["rows"][max(0, i - 30):i])
    c.conform("HostTrace", "calls", dict(traces=traces, tabs=tabs), ntraces=len(traces), replayer=replay, view="View")
    c.count("calls", sum(len(t["rows"]) for t in traces))
    c.count("accesses", sum(len(x.get("acc", ())) for t in traces for x in t["rows"]))
    c.closed("MCHost", constants=dict(Vals="{0, 1, 2}", MaxCalls=vlib.pick(3, 5)), invariants=("LastWins", "SyncMeansDone"),
             properties=("SyncReturns",), spec="Fair")
    c.sample(traces[0]["rows"][1])


vlib.run("C26", main)
