"""C33: damaged files, against LjDamage.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, lj
import importlib

META = dict(
    technique="files written by the specification, damaged, given to the real library; results checked against LjDamage.tla (TLC)",
    note="Truncation at every position, every header byte at extreme values, random bytes changed, dropped, repeated and moved segments, "
         "random files. The library runs under ASan with bounds checks, each file and target in a buffer of exactly its size, fresh "
         "memory filled with garbage.")


def c24():
    run, vlib.run = vlib.run, lambda *a: None
    try:
        return importlib.import_module("C24")
    finally:
        vlib.run = run


def segments(f):
    """[(first, behind)] of the marker segments, last: the scan data"""
    out, i = [], 2
    while i + 3 < len(f) and f[i] == 255 and f[i + 1] != 217:
        n = f[i + 2] * 256 + f[i + 3]
        out.append((i, i + 2 + n))
        i += 2 + n
        if f[out[-1][0] + 1] == 218:
            break
    return out


def damaged(f, r, deep):
    segs = segments(f)
    head = segs[-1][1]
    yield "whole", f
    for i in range(len(f)):
        if i < head + 6 or deep or r.random() < .3:
            yield "cut", f[:i]
    for i in range(head):
        for v in {0, 255, f[i] ^ (1 << r.randrange(8)), (f[i] + 1) & 255, r.getrandbits(8)}:
            yield "byte", f[:i] + [v] + f[i + 1:]
    for _ in range(60 if deep else 15):
        g = list(f)
        for _ in range(r.choice((1, 1, 2, 5))):
            g[r.randrange(len(g))] = r.choice((0, 255, r.getrandbits(8)))
        yield "bytes", g
    for _ in range(20 if deep else 6):
        i = r.randrange(len(f))
        g = f[:i] + f[i + r.choice((1, 1, 2, 3)):] if r.random() < .5 else f[:i] + [r.choice((0, 255, r.getrandbits(8)))] + f[i:]
        yield "shift", g
    for a, b in segs:
        yield "drop", f[:a] + f[b:]
        yield "repeat", f[:b] + f[a:]
        yield "early", f[:2] + f[a:b] + f[2:]
    for _ in range(6):
        g = [255, 216]
        for a, b in r.sample(segs, len(segs)):
            g += f[a:b]
        yield "order", g + f[head:]
    for _ in range(10 if deep else 3):
        yield "random", [255, 216][:r.choice((0, 2))] + [r.choice((255, 0, 196, 195, 218, r.getrandbits(8))) for _ in range(r.randint(0, 60))]


def job(j):
    f, q = j
    r = vlib.rng("C33", q)
    todo = list(damaged(f, r, not vlib.quick()))
    out = []
    for (kind, g), d in zip(todo, lj.call(["F " + lj.seq(g) for _, g in todo])):
        info = dict(kind=kind, file=g)
        out.append((dict(d, cmd="F") if "crash" in d else dict(d, file=g), info))
    return out


def main(c):
    lj.exe()
    cs = [x for x in c24().cases(60, "damage") if x["w"] * x["h"] * x["nc"] <= 120]
    cs = cs[:vlib.pick(12, 40)]
    res = vlib.pmap(job, [(f, q) for q, f in enumerate(lj.files(c, "C33", cs))])
    flat = [x for l in res for x in l]
    vlib.tick("recorded")
    lj.conform(c, "damaged", [x[0] for x in flat], [x[1] for x in flat], module="LjDamage")
    c.sample(flat[1][1])


vlib.run("C33", main)
