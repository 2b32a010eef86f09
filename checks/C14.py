"""C14: the FIFO stages, against Chunks.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import math
import vlib, pipe, chunks

META = dict(
    technique="TLC: recorded runs of the FIFO stages checked against Chunks.tla / BurstFifo.tla",
    note="A producer that keeps writing for as long as the early-full flag's reserve promises, in random and adversarial "
         "schedules, at minimal and shipped depths; the DMA FIFO's thresholds are tested by actually reading or writing "
         "sixteen items.  Contents are random.")

LJ_SLACK = 8      # pipeline of 5..7 stages plus the registered flag: see MCFlow


def job(j):
    which, cfg, n = j
    r = vlib.rng("C14", which, *sorted(cfg.values()))
    tot = pipe.total_ctr(cfg["pixels_per_cycle"], cfg["bit_depth"])
    if which == "lj":
        s = vlib.sim("lj92_pipeline_fifo", cfg)
        par = dict(conv=0, slack=LJ_SLACK, cap=cfg["LJ92_fifo_depth"])
        w = tot
    else:
        s = vlib.sim("converter_fifo", cfg)
        par = dict(conv=0, slack=chunks.slack_of(cfg), cap=cfg["converter_fifo_depth"])
        w = cfg["converter"]
    cb = (w).bit_length()
    names = ("i_valid_in", "i_latch_output", "o_close_full",
             [("i_enc_in", "o_enc_out", w), ("i_enc_in_ctr", "o_enc_out_ctr", cb)], ("i_in_end", "o_out_end"))
    out = []
    for k in range(n):
        items = [(r.getrandbits(w), r.getrandbits(cb), int(r.random() < .2)) for _ in range(par["cap"] * 2 + 60)]
        wp = ("1", "1", "most", "rand", "burst")[k % 5]
        rp = ("long", "few", "burst", "rand", "1", "late", "alt")[k % 7]
        out.append((chunks.fifo_trace(s, items, par, r, wp, rp, names), dict(which=which, cfg=cfg, w=wp, r=rp)))
    return out


def dmajob(n):
    s = vlib.sim("axihp_fifo", {})
    out = []
    r = vlib.rng("C14d", n)
    for k in range(n):
        s.reset()
        rows = []
        wb = rb = 0           # remaining items of a promised burst
        wp = pipe.Policy(("rand", "burst", "most", "few", "long")[k % 5], r)
        rp = pipe.Policy(("rand", "burst", "few", "most", "alt", "long")[k % 6], r)
        mode = k % 3
        for i in range(700):
            s.sets(i_valid_in=0, i_read=0)
            s.peek()
            w16, r16, wr, rd = (s.get("o_" + x) for x in ("writable16", "readable16", "writable", "readable"))
            if mode:          # bursts of 16 started only when the threshold allows; otherwise single items
                if not wb and w16 and wp(0):
                    wb = 16
                if not rb and r16 and rp(0):
                    rb = 16
                v, l = int(wb > 0), int(rb > 0)
                if i > 600 and mode == 2:
                    l = rd
            else:
                v, l = int(wr and wp(0)), int(rd and rp(0))
            d, e = r.getrandbits(64), r.getrandbits(1)
            s.sets(i_valid_in=v, i_data_in=d, i_end_in=e, i_read=l)
            s.cycle()
            lim = lambda x: [(x >> (16 * q)) & 0xffff for q in range(4)]
            rows.append([dict(v=v, b=lim(d) if v else [], e=e if v else 0, l=l),
                         dict(v=s.get("o_valid_out"), b=lim(s.get("o_data_out")) if s.get("o_valid_out") else [],
                              e=s.get("o_end_out") if s.get("o_valid_out") else 0, w=s.get("o_writable"), r=s.get("o_readable"),
                              w16=s.get("o_writable16"), r16=s.get("o_readable16"))])
            wb, rb = max(0, wb - 1), max(0, rb - 1)
        out.append(dict(rows=rows, mode=mode))
    return out


def main(c):
    lj = [dict(bit_depth=bd, pixels_per_cycle=ps, LJ92_fifo_depth=d) for bd, ps, d in
          [(12, 2, 25), (12, 2, 26), (16, 4, 32), (12, 1, 25), (2, 1, 64), (12, 2, 512), (12, 4, 128), (14, 4, 33)]]
    cv = []
    for bd, ps, conv, extra in [(12, 2, 30, 4), (12, 1, 15, 4), (16, 4, 31, 5), (16, 4, 124, 4), (12, 4, 48, 9), (2, 1, 3, 4),
                                (12, 2, 30, 500), (16, 1, 10, 6), (12, 2, 16, 4), (12, 2, 32, 5), (14, 4, 64, 4), (12, 1, 8, 7)]:
        steps = math.ceil(pipe.total_ctr(ps, bd) / conv) + 3
        cv.append(dict(bit_depth=bd, pixels_per_cycle=ps, converter=conv, converter_fifo_depth=steps + extra))
    js = [("lj", x, vlib.pick(7, 40)) for x in lj] + [("cv", x, vlib.pick(7, 40)) for x in cv]
    dma = dmajob(vlib.pick(18, 200))
    flat = [x for l in vlib.pmap(job, js) for x in l]
    chunks.conform(c, "fifo", [x[0] for x in flat], [x[1] for x in flat])

    def replay(r):
        t, i = (int(vlib.statevar(r.trace[-1], x)) for x in "ti")
        return dma[t - 1]["rows"][max(0, i - 40):i]
    c.conform("BurstFifo", "dma-fifo", dict(traces=dma), ntraces=len(dma), replayer=replay, view="View")
    c.extra["configurations"] = len(js) + 1
    c.sample(flat[0][1])


vlib.run("C14", main)
