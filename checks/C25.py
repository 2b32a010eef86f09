"""C25: streams of the real encoder designs, with a header written by the specification, decoded by the real liblj92."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, pipe, frames, lj
from frames import BETA, MICRO

META = dict(
    technique="recorded streams of the complete designs, header from Lj92.tla (TLC), decoded by the real library and by the "
              "specification, compared sample by sample (TLC)",
    note="Complete beta design (built-in table) and micro design (built-in and programmed canonical tables), frames of every "
         "stimulus kind, sampled stalls, several frames in a row.  Four components, predictor 1, width a multiple of four.")


def canon(cnt, vals):
    """code table of the core: category -> (code, length)"""
    t, code, k = {}, 0, 0
    for ln in range(1, 17):
        for _ in range(cnt[ln - 1]):
            t[vals[k]] = [code, ln]
            code, k = code + 1, k + 1
        code *= 2
    return [t.get(c, [0, 1]) for c in range(17)]


DEF = ([0, 0, 7, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0], [1, 2, 3, 4, 5, 6, 7, 0, 8, 9, 10, 11, 12, 13, 14, 15, 16])


def job(j):
    D, cfgd, n, q = j
    s = vlib.sim(D["name"], cfgd)
    r = vlib.rng("C25", D["name"], q)
    assert canon(*DEF) == frames.TAB
    out = []
    for k in range(n):
        cnt, vals = DEF
        if D["name"] == "micro" and r.random() < .6:
            while True:
                cnt, vals = lj.tables(r, range(13))
                if not any(cnt[i] for i in range(16) if i >= 16):
                    break
        tab = canon(cnt, vals)
        fr = []
        for _ in range(r.randint(1, 3)):
            w, h = r.choice([12, 12, 16, 20, 36]), r.choice([2, 3, 4, 7])
            fr.append(frames.frame(D, w, h, frames.FULLC, pipe.image(r.choice(pipe.KINDS), w * h, 12, w, r), tab))
        v, b = r.choice(pipe.VPOL), r.choice(pipe.BPOL)
        tr = frames.run(s, D, fr, v, b, r, host=frames.axi_host(fr) if D["name"] == "micro" else None)
        f, cur = 0, []
        got = []
        for row in tr["rows"]:
            if row[0] & 4 and not row[0] & 8:
                cur += row[1:3]
                if row[0] & 16:
                    got.append(cur)
                    cur = []
        for x, g in zip(fr, got):
            out.append((dict(w=x["cfg"]["w"] // 4, h=x["cfg"]["h"], nc=4, bd=12, pred=1, cnt=cnt, vals=vals, s=x["px"], core=g),
                        dict(design=D["name"], w=x["cfg"]["w"], h=x["cfg"]["h"], v=v, b=b, cnt=cnt, vals=vals)))
        for x in fr[len(got):]:
            out.append((None, dict(design=D["name"], what="frame never ended", v=v, b=b)))
    return out


def djob(l):
    cmds = [lj.dec(c["w"] * 4, 0, len(c["s"]), lj.CANARY, [], f) for c, f, _ in l]
    out = []
    for (c, f, info), d, cmd in zip(l, lj.call(cmds), cmds):
        if "crash" in d or d["open"] != 0:
            out.append((dict(crash=d.get("crash", "lj92_open refuses the file"), cmd=cmd), info))
        else:
            out.append((dict(file=f, hd=d["hd"], mem=d["mem"], canary=lj.CANARY, wl=c["w"] * 4, skip=0, lin=[], src=[], want=c["s"],
                             ret=d["ret"], live=d["live"]), info))
    return out


def main(c):
    lj.exe()
    B = {"_stub_regs": True}
    M = dict(support_axi_lite=True)
    vlib.build_all([("beta", B), ("micro", M)])
    n = vlib.pick(16, 150)
    res = vlib.pmap(job, [(D, cf, n, q) for D, cf in ((BETA, B), (MICRO, M)) for q in range(4)])
    flat = [x for l in res for x in l]
    for t, i in flat:
        if t is None:
            c.fail("frame", "a frame is never completed", i)
    flat = [x for x in flat if x[0]]
    vlib.tick("recorded")
    # what is left between the markers
    good = []
    for t, i in flat:
        if len(t["core"]) < 32 or set(t["core"][:16] + t["core"][-16:]) != {255}:
            c.fail("markers", "frame without its start and end marker", dict(info=i, bytes=t["core"]))
        else:
            good.append((t, i))
    fs = lj.files(c, "c25", [t for t, _ in good])
    l = [(t, f, i) for (t, i), f in zip(good, fs)]
    k = max(1, -(-len(l) // 8))
    out = [x for y in vlib.pmap(djob, [l[i:i + k] for i in range(0, len(l), k)]) for x in y]
    lj.conform(c, "decoded", [x[0] for x in out], [x[1] for x in out])
    c.count("frames", len(out))
    c.sample([i for _, i in out[:3]])


vlib.run("C25", main)
