"""Driving the encoder core (integration_3 and friends) and recording traces for PipelineTrace.tla."""
import math
import vlib

COMMON = dict(predictor_function=1, num_of_components=4)


def total_ctr(ps, bd):
    return min(16 + bd, 31) * ps


def mkcfg(ps, bd, ob=16, conv=None, lj=32, cf=None, vbuf=None, axi=False, debug=False):
    """A legal configuration: the smallest buffers the assertions allow unless given."""
    tot = total_ctr(ps, bd)
    conv = min(conv or max(15, (tot + 1) // 2), tot)
    steps = math.ceil(tot / conv) + 3
    c = dict(COMMON, bit_depth=bd, pixels_per_cycle=ps, LJ92_fifo_depth=lj, out_bits=ob, converter=conv,
             converter_fifo_depth=cf or steps + 5, vbits_to_cbits_buffer_size=vbuf or conv + ob,
             axi_lite_debug=debug, support_axi_lite=axi)
    if not axi:
        c["_stub_regs"] = True
    return c


# ------------------------------------------------------------------ AXI-lite host
def axil_idle(s):
    for n in ("araddr", "arvalid", "awaddr", "awvalid", "wdata", "wstrb", "wvalid"):
        s.set("i_" + n, 0)
    s.set("i_rready", 1)
    s.set("i_bready", 1)


def axil_write(s, addr, data, strb=15, limit=64):
    s.sets(i_awaddr=addr, i_awvalid=1, i_wdata=data, i_wstrb=strb, i_wvalid=1, i_bready=1)
    aw = w = True
    for _ in range(limit):
        s.cycle()
        if aw and s.get("o_awready"):
            aw = False
            s.set("i_awvalid", 0)
        if w and s.get("o_wready"):
            w = False
            s.set("i_wvalid", 0)
        if s.get("o_bvalid"):
            r = s.get("o_bresp")
            s.sets(i_awvalid=0, i_wvalid=0)
            s.cycle()
            return r
    s.sets(i_awvalid=0, i_wvalid=0)
    return None


def axil_read(s, addr, limit=64):
    s.sets(i_araddr=addr, i_arvalid=1, i_rready=1)
    for _ in range(limit):
        s.cycle()
        if s.get("o_arready"):
            s.set("i_arvalid", 0)
        if s.get("o_rvalid"):
            r = (s.get("o_rresp"), s.get("o_rdata"))
            s.set("i_arvalid", 0)
            s.cycle()
            return r
    s.set("i_arvalid", 0)
    return None


def geometry(s, cfg, w, h, limit=0xffffff):
    if cfg.get("support_axi_lite"):
        axil_idle(s)
        axil_write(s, HW, (h & 0xffff) | (w << 16))
        axil_write(s, HW + 4, limit)
    elif "i_g_width" in s.il:
        s.sets(i_g_width=w, i_g_height=h, i_g_allowed_cycles=limit)


SSSS, HW, DEBUG = 0x400 << 2, 0x800 << 2, 0x1000 << 2

# ------------------------------------------------------------------ stimuli
DEFAULT_CODES = [(14, 4), (0, 3), (1, 3), (2, 3), (3, 3), (4, 3), (5, 3), (6, 3), (30, 5), (62, 6), (126, 7), (254, 8),
                 (510, 9), (1022, 10), (2046, 11), (4094, 12), (8190, 13)]


def image(kind, n, bd, w, r):
    mx = (1 << bd) - 1
    half = 1 << (bd - 1)
    if kind == "random":
        return [r.randint(0, mx) for _ in range(n)]
    if kind == "const":
        v = r.choice([half, half, 0, mx])
        return [v] * n
    if kind == "extreme":       # the longest codes
        return [r.choice((0, mx)) for _ in range(n)]
    if kind == "zigzag":
        return [mx if (i // 4 + i // w) & 1 else 0 for i in range(n)]
    if kind == "noise":
        v = r.randint(0, mx)
        return [min(mx, max(0, v + r.randint(-3, 3))) for _ in range(n)]
    if kind == "walk":          # every category
        out = []
        for i in range(n):
            p = out[i - 4] if i >= 4 else half
            k = r.randint(0, bd)
            d = r.randint(1 << (k - 1), (1 << k) - 1) if k else 0
            d = -d if r.random() < .5 else d
            out.append((p + d) & mx)
        return out
    if kind == "edge":          # values at category boundaries
        c = [0, 1, mx, half, half - 1, half + 1] + [min(mx, 1 << k) for k in range(bd)] + [(1 << k) - 1 for k in range(bd)]
        return [r.choice(c) for _ in range(n)]
    if kind == "sweep":         # every difference, both signs; 4 << bd pixels for all of them with one or two lanes, 8 << bd with four
        a = r.getrandbits(bd)
        return [(i // 8 + (i % 4 // 2 << bd - 1) + a) & mx if i & 4 else 0 for i in range(n)]
    raise ValueError(kind)


KINDS = ["random", "extreme", "walk", "const", "noise", "edge", "zigzag"]


class Policy:
    """When the environment offers pixels (vin) and when the sink is busy."""

    def __init__(self, name, r):
        self.name, self.r = name, r
        self.k = 0
        self.left = 0
        self.v = 0

    def __call__(self, seen):
        """seen: True when the observed event (ready / valid word) was there in the previous cycle"""
        n, r = self.name, self.r
        self.k += 1
        if n == "0":
            return 0
        if n == "1":
            return 1
        if n == "rand":
            return int(r.random() < .5)
        if n == "few":
            return int(r.random() < .12)
        if n == "most":
            return int(r.random() < .88)
        if n == "alt":
            return self.k & 1
        if n == "burst":
            if self.left == 0:
                self.v ^= 1
                self.left = r.randint(1, 24)
            self.left -= 1
            return self.v
        if n == "long":
            if self.left == 0:
                self.v ^= 1
                self.left = r.randint(60, 260) if self.v else r.randint(10, 120)
            self.left -= 1
            return self.v
        if n == "first":        # high for the first 300 cycles
            return int(self.k < 300)
        if n == "late":
            return int(self.k >= 300)
        if n == "react":        # goes up exactly when something was seen, for a few cycles
            if self.left > 0:
                self.left -= 1
                return int(self.left > 0)
            if seen:
                self.left = r.randint(1, 5)
            return int(self.left > 0)
        raise ValueError(n)


VPOL = ["1", "rand", "burst", "few", "alt", "most"]
BPOL = ["0", "rand", "long", "first", "alt", "most", "burst", "few", "react"]


def run_frames(s, cfg, w, h, frames, vpol, bpol, r, tail=400, setup=True, maxcyc=200000, partial=None, tab=None):
    """Feed `frames` (lists of pixels) one after the other, resetting in between; returns a trace.
    partial: stop offering after that many groups (per frame)."""
    ps, ob = cfg["pixels_per_cycle"], cfg["out_bits"]
    rows, px = [], []
    if setup:
        s.reset()
        if "i_rready" in s.il:
            axil_idle(s)
        geometry(s, cfg, w, h)
    lo = list(range(ps))
    nb = ob // 8
    first = True
    mx = (1 << cfg["bit_depth"]) - 1
    for f in frames:
        if not first:
            s.rst(1)
            s.set("i_valid_in", 0)
            s.cycle()
            s.rst(0)
            rows.append([32])
            geometry(s, cfg, w, h)
        first = False
        vp, bp = Policy(vpol, r), Policy(bpol, r)
        px += f
        acc, n = 0, len(f) // ps
        if partial:
            n = min(n, partial)
            px = px[:len(px) - len(f) + n * ps]
        nrdy = vout = 1
        quiet = 0
        taken_end = False
        for cyc in range(maxcyc):
            if acc < n:
                vin = vp(not nrdy)
                g = f[acc * ps:acc * ps + ps] if vin else [r.randint(0, mx) for _ in lo]
            else:       # after the last group: keep offering garbage for a complete frame
                vin = 0 if partial else int(r.random() < .5)
                g = [r.randint(0, mx) for _ in lo]
            busy = bp(vout)
            if quiet > tail // 2:
                busy = 0        # finally let everything drain
            s.set("i_valid_in", vin)
            for k in lo:
                s.set("i_pixels_in%d" % k, g[k])
            s.set("i_busy_in", busy)
            s.cycle()
            nrdy, vout, end = s.get("o_nready"), s.get("o_valid_out"), s.get("o_end_out")
            fl = vin | nrdy << 1 | vout << 2 | busy << 3 | (end & vout) << 4
            if vout:
                d = s.get("o_data_out")
                rows.append([fl] + [(d >> (8 * (nb - 1 - k))) & 255 for k in range(nb)])
            else:
                rows.append([fl])
            if vin and not nrdy:
                acc += 1
            quiet += 1
            if vout and not busy and not taken_end or (acc < n and (vin and not nrdy)):
                quiet = 0
            if vout and end and not busy:
                taken_end = True
            if quiet > (30 if taken_end else tail):
                break
        rows.append([64])
    return {"cfg": {"ps": ps, "bd": cfg["bit_depth"], "w": w, "h": h, "ob": ob, "atreset": not cfg.get("support_axi_lite"),
                    "tab": [list(x) for x in (tab or DEFAULT_CODES)]}, "px": px, "rows": rows}


def conform(c, key, traces, info=None, invariants=("OK",)):
    """Check recorded traces with TLC; failing ones are reported with the trace as replay."""
    def replay(r):
        t = int(vlib.statevar(r.trace[-1], "t"))
        i = int(vlib.statevar(r.trace[-1], "i"))
        tr = traces[t - 1]
        return {"trace": t, "cycle": i, "info": info[t - 1] if info else None, "cfg": tr["cfg"], "px": tr["px"],
                "rows": tr["rows"][:i]}
    rows = sum(len(x["rows"]) for x in traces)
    c.count("cycles_recorded", rows)
    c.count("pixels_encoded", sum(len(x["px"]) for x in traces))
    return c.conform("PipelineTrace", key, {"traces": traces}, ntraces=len(traces), replayer=replay, view="View",
                     invariants=invariants)
