"""C23: liblj92 encode -> file -> decode, against Lj92.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, lj

META = dict(
    technique="recorded lj92_encode / lj92_decode calls checked sample by sample against Lj92.tla (TLC); closed model MCLj",
    note="The specification parses the produced file, checks its code table and decodes it itself: it must carry exactly the "
         "samples of the tile, and lj92_decode must write exactly those (linearized) into the target tile and nothing else. "
         "Bit depths 2..16, all stride combinations, small pictures exhaustively in MCLj; the library runs under ASan.")


def picture(kind, n, w, bd, r):
    mx = (1 << bd) - 1
    if kind == "noise":
        return [r.randint(0, mx) for _ in range(n)]
    if kind == "flat":
        v = r.randint(0, mx)
        return [v] * n
    if kind == "half":
        return [1 << (bd - 1)] * n
    if kind == "extreme":
        return [r.choice((0, mx)) for _ in range(n)]
    if kind == "ramp":
        st = r.randint(1, max(1, mx // 3))
        return [(i * st) & mx for i in range(n)]
    if kind == "smooth":
        s, v = [], r.randint(0, mx)
        for _ in range(n):
            v = min(mx, max(0, v + r.randint(-3, 3)))
            s.append(v)
        return s
    if kind == "wide":      # beyond the bit depth: still 16-bit values
        return [r.getrandbits(16) for _ in range(n)]
    if kind == "cats":      # differences of every category
        d = []
        for _ in range(n):
            k = r.randint(0, 16)
            d.append(0 if k == 0 else 32768 if k == 16 else r.choice((-1, 1)) * r.randint(1 << (k - 1), (1 << k) - 1))
        return lj.pred6(d, w, bd)
    if kind == "ones":      # additional bits all one
        return lj.pred6([r.choice((32767, 32767, 32767, 16383)) for _ in range(n)], w, bd)
    if kind == "cat16":
        return lj.pred6([r.choice((32768, 32768, 0, 5)) for _ in range(n)], w, bd)
    if kind == "onlycat":
        k = r.randint(0, 15)
        return lj.pred6([r.choice((-1, 1)) * ((1 << k) - 1 if k else 0) for _ in range(n)], w, bd)
    raise KeyError(kind)


KINDS = "noise flat half extreme ramp smooth cats ones cat16 onlycat".split()
ALWAYS16 = ("cats", "ones", "cat16", "onlycat", "wide")


def steep(r, n=17):
    """every category, with frequencies that make the code lengths as unequal as possible"""
    f = [1, 1]
    while len(f) < n:
        f.append(f[-1] + f[-2])
    cats = list(range(17))
    r.shuffle(cats)
    d = []
    for k, m in zip(cats, f):
        for _ in range(m):
            d.append(0 if k == 0 else 32768 if k == 16 else r.choice((-1, 1)) * r.randint(1 << (k - 1), (1 << k) - 1))
    r.shuffle(d)
    return d


def job(j):
    what, n, q = j
    r = vlib.rng("C23", what, q)
    cases = []
    for k in range(n):
        bd = r.choice(range(2, 17))
        w, h = r.choice([(1, 1), (1, 5), (5, 1), (2, 2), (3, 2), (2, 7), (8, 3), (r.randint(1, 24), r.randint(1, 16))])
        kind = r.choice(KINDS) if k % 12 else "wide"
        delin, lin = [], []
        if what == "steep":
            d = steep(r, r.choice((5, 9, 12, 15, 16)) if k % 2 else 17)
            w = r.choice([1, 17, 19, 38, 64, len(d)])
            h = -(-len(d) // w)
            d += [max(d, key=d.count)] * (w * h - len(d))       # the most frequent stays the most frequent
            bd, kind = 16, "steep"
            px = lj.pred6(d, w, bd)
        elif what == "full":    # around the size of the output buffer
            w, h, bd, kind = 565 + q * n + k, 1, 16, "full"
            d = [32767] * w
            d[r.randrange(w)] = 16383
            px = lj.pred6(d, w, bd)
        elif what == "huge":    # more pixels and wider rows than 16 bits count, and exactly 2^16 differences of one kind
            w, h, kind, bd = [(33000, 2, "smooth", 16), (256, 256, "half", 10), (16, 4100, "smooth", 12), (2, 33000, "smooth", 8)][k]
            px = picture(kind, w * h, w, bd, r)
        elif what == "large":
            w, h, bd, kind = r.choice([(64, 48), (128, 24), (31, 100)]) + (16, r.choice(("noise", "cats", "wide")))
            px = picture(kind, w * h, w, bd, r)
        else:
            px = picture(kind, w * h, w, bd, r)
            if kind not in ALWAYS16 and r.random() < .35:
                p = list(range(1 << bd))
                if bd <= 10 and r.random() < .7:
                    r.shuffle(p)
                else:
                    p = [x ^ (x >> 1) for x in p]
                cut = (max(px) + 1) if r.random() < .4 else len(p)
                delin = p[:cut]
                lin = [0] * (max(delin) + 1)
                for a, b in enumerate(delin):
                    lin[b] = a
        rl = w if what == "huge" else r.choice([w, w, w, w * h, max(1, w // 2), 2 * w, r.randint(1, w * h), 1])
        skip = r.choice([0, 0, 1, 3, 7])
        cases.append(dict(w=w, h=h, bd=bd, kind=kind, rl=rl, skip=skip, img=lj.tile(px, rl, skip, r), delin=delin, lin=lin, px=px,
                          wl=r.choice([w, w, w * h, r.randint(1, w * h), 1]), ds=r.choice([0, 0, 2, 5])))
    es = [lj.enc(c["w"], c["h"], c["bd"], c["rl"], c["skip"], c["img"], c["delin"]) for c in cases]
    files = lj.call(es)
    todo, refused, out = [], 0, []
    for c, f, e in zip(cases, files, es):
        c["file"] = f
        if "crash" in f:
            out.append((dict(f, cmd=e), dict(kind=c["kind"], w=c["w"], h=c["h"])))
        elif f["ret"] != 0:
            refused += 1
            if f["live"]:
                out.append((dict(crash="lj92_encode keeps memory when it refuses a picture", cmd=e), dict(kind=c["kind"], w=c["w"], h=c["h"])))
            if c["kind"] != "full":
                out.append((dict(crash="lj92_encode refuses a picture (%d)" % f["ret"], cmd=e), dict(kind=c["kind"], w=c["w"], h=c["h"])))
        else:
            todo.append(c)
    ds = []
    for c in todo:
        c["nm"] = lj.cells(c["w"] * c["h"], c["wl"], c["ds"]) + 3
        ds.append(lj.dec(c["wl"], c["ds"], c["nm"], lj.CANARY, c["lin"], c["file"]["file"]))
    for c, d, e in zip(todo, lj.call(ds), ds):
        info = dict(kind=c["kind"], w=c["w"], h=c["h"], bd=c["bd"], rl=c["rl"], skip=c["skip"], wl=c["wl"], ds=c["ds"],
                    delin=len(c["delin"]))
        if "crash" in d:
            out.append((dict(d, cmd=e), info))
        elif d["open"] != 0:
            out.append((dict(crash="lj92_open refuses the file (%d)" % d["open"], cmd=e), info))
        else:
            out.append((dict(file=c["file"]["file"], hd=d["hd"], mem=d["mem"], canary=lj.CANARY, wl=c["wl"], skip=c["ds"], lin=c["lin"],
                             src=[dict(hd=[c["w"], c["h"], c["bd"], 1], mem=c["img"], rl=c["rl"], skip=c["skip"], delin=c["delin"])],
                             want=[], ret=d["ret"], live=d["live"] + c["file"]["live"]), info))
    return out, refused


def main(c):
    lj.exe()
    n = vlib.pick(60, 500)
    jobs = [("rand", n, q) for q in range(8)] + [("steep", vlib.pick(2, 12), q) for q in range(4)] + [("full", 10, q) for q in range(8)] + \
        [("large", vlib.pick(1, 6), q) for q in range(4)] + [("huge", vlib.pick(2, 4), 0)]
    res = vlib.pmap(job, jobs)
    flat = [x for l, _ in res for x in l]
    vlib.tick("recorded")
    c.count("refused_at_the_buffer_limit", sum(k for _, k in res))
    lj.conform(c, "roundtrip", [x[0] for x in flat], [x[1] for x in flat])
    c.sample([i for _, i in flat[:3]])


vlib.run("C23", main)
