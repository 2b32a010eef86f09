"""C24: liblj92 decodes files written by the specification."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, lj

META = dict(
    technique="files written by the specification (Lj92.tla, TLC) decoded by the real library and checked sample by sample (TLC); MCLj",
    note="Predictors 1..7, 1..4 components, random valid code tables with lengths 1..16, all categories including 16, bit depths "
         "2..16, comment and application segments with marker-like contents, both segment orders, both fill bits, tiles and "
         "linearization tables (also too short ones, which must be reported).  The library runs under ASan.")


def samples(kind, w, h, nc, bd, pred, r):
    n = w * h * nc
    mx = (1 << bd) - 1
    if kind == "noise":
        return [r.randint(0, mx) for _ in range(n)]
    if kind == "flat":
        v = [r.randint(0, mx) for _ in range(nc)]
        return [v[i % nc] for i in range(n)]
    if kind == "extreme":
        return [r.choice((0, mx)) for _ in range(n)]
    if kind == "planes":     # components far apart, each nearly flat
        b = [r.randint(0, mx) for _ in range(nc)]
        return [min(mx, max(0, b[i % nc] + r.randint(-2, 2))) for i in range(n)]
    if kind == "grad":
        return [((i // nc) % w * 3 + (i // nc) // w * 7 + i % nc * 50) & mx for i in range(n)]
    return [r.getrandbits(16) for _ in range(n)]      # wide: any 16-bit value


KINDS = "noise noise flat extreme planes grad wide".split()
SEGS = [[], [], [255, 254, 0, 2], [255, 254, 0, 8, 255, 217, 255, 218, 0, 9], [255, 224, 0, 7, 74, 70, 255, 0, 1],
        [255, 221, 0, 4, 0, 0], [255, 219, 0, 5, 255, 195, 0, 255, 239, 0, 3, 255]]


def cases(n, q):
    r = vlib.rng("C24", q)
    out = []
    for k in range(n):
        pred = 1 + k % 7
        nc = r.choice((1, 1, 2, 3, 4))
        bd = r.choice(range(2, 17))
        w, h = r.choice([(1, 1), (1, 6), (6, 1), (2, 2), (3, 4), (7, 5), (r.randint(1, 16), r.randint(1, 10))])
        kind = r.choice(KINDS)
        cnt, vals = lj.tables(r, range(17))
        out.append(dict(w=w, h=h, nc=nc, bd=bd, pred=pred, cnt=cnt, vals=vals, s=samples(kind, w, h, nc, bd, pred, r),
                        pad=r.getrandbits(1), mid=r.choice(SEGS), order=r.getrandbits(1), eoi=int(r.random() < .9), kind=kind))
    # sparse tables: only the categories that occur
    for k in range(n // 5):
        nc = r.choice((1, 2, 4))
        w, h = r.randint(2, 9), r.randint(2, 6)
        v = r.choice((0, 1 << 9, 1023))
        s = [v] * (w * h * nc)
        cats = sorted({abs(v - 512).bit_length(), 0})
        cnt, vals = lj.tables(r, cats)
        out.append(dict(w=w, h=h, nc=nc, bd=10, pred=1 + k % 7, cnt=cnt, vals=vals, s=s, pad=1, mid=[], order=0, eoi=1, kind="sparse"))
    # more samples and wider rows than 16 bits count
    for w, h, nc, pred, kind in [(33000, 2, 1, 6, "flat"), (9000, 2, 4, 7, "planes")] + vlib.pick([], [(3, 22000, 1, 6, "planes"), (2, 17000, 2, 5, "grad")]):
        cnt, vals = lj.tables(r, range(17))
        out.append(dict(w=w, h=h, nc=nc, bd=12, pred=pred, cnt=cnt, vals=vals, s=samples(kind, w, h, nc, 12, pred, r), pad=1, mid=[], order=0,
                        eoi=1, kind=kind))
    return out


def job(j):
    cs, q = j
    r = vlib.rng("C24", "decode", q)
    cmds, meta = [], []
    for c, f in cs:
        n = c["w"] * c["h"] * c["nc"]
        row = c["w"] * c["nc"]
        if c["nc"] == 1 and c["pred"] == 6:
            wl = r.choice([row, row, n, 1, r.randint(1, n)])
        else:
            wl = row        # whole rows
        ds = r.choice([0, 0, 1, 4])
        lin = []
        if r.random() < .35:
            top = max(c["s"])
            lin = [(x * 40503 + 77) & 65535 for x in range(r.choice([top + 1, top + 1, top + 2, min(65536, top + 300)]))]
            if r.random() < .25 and top > 0:
                lin = lin[:r.choice([top, max(1, top - 1), max(1, top // 2)])]
        nm = lj.cells(n, wl, ds) + 3
        cmds.append(lj.dec(wl, ds, nm, lj.CANARY, lin, f))
        meta.append((c, f, wl, ds, lin))
    out = []
    for (c, f, wl, ds, lin), d, cmd in zip(meta, lj.call(cmds), cmds):
        info = {k: c[k] for k in ("w", "h", "nc", "bd", "pred", "kind", "cnt", "vals", "order", "pad", "mid", "eoi")}
        info.update(wl=wl, skip=ds, lin=len(lin))
        if "crash" in d:
            out.append((dict(d, cmd=cmd), info))
        elif d["open"] != 0:
            out.append((dict(crash="lj92_open refuses a valid file (%d)" % d["open"], cmd=cmd), info))
        else:
            out.append((dict(file=f, hd=d["hd"], mem=d["mem"], canary=lj.CANARY, wl=wl, skip=ds, lin=lin, src=[], want=c["s"],
                             ret=d["ret"], live=d["live"]), info))
    return out


def main(c):
    lj.exe()
    cs = cases(vlib.pick(420, 2800), 0)
    fs = lj.files(c, "c24", [{k: v for k, v in x.items() if k != "kind"} for x in cs])
    vlib.tick("files written")
    pairs = list(zip(cs, fs))
    k = -(-len(pairs) // 8)
    res = vlib.pmap(job, [(pairs[i:i + k], i) for i in range(0, len(pairs), k)])
    flat = [x for l in res for x in l]
    lj.conform(c, "decode", [x[0] for x in flat], [x[1] for x in flat])
    c.closed("MCLj", constants=dict(W=2, H=2, NC=1, BD=3, Vals="{0, 1, 5, 7}", Preds="{1, 2, 3, 4, 5, 6, 7}", Pads="{0, 1}"), invariants=("RoundTrip",))
    c.closed("MCLj", constants=dict(W=2, H=2, NC=2, BD=16, Vals=vlib.pick("{0, 65535}", "{0, 32768, 65535}"), Preds=vlib.pick("{4, 6}", "{1, 2, 3, 4, 5, 6, 7}"), Pads="{1}"),
             invariants=("RoundTrip",))
    if not vlib.quick():
        c.closed("MCLj", constants=dict(W=3, H=2, NC=1, BD=2, Vals="{0, 1, 2, 3}", Preds="{1, 2, 3, 4, 5, 6, 7}", Pads="{1}"), invariants=("RoundTrip",))
    c.sample([i for _, i in flat[:3]])


vlib.run("C24", main)
