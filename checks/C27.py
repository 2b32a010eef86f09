"""C27: the board test program, against BoardProgram.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, host, board

META = dict(
    technique="TLC: layout, verdicts and whole runs of the compiled board program checked against BoardProgram.tla, whose verdicts are model checked",
    note="The program's functions on sampled pictures, files and memories, and whole runs of it against a modelled board (every register "
         "access observed), in four configurations; pictures repeat a sampled period over all 4096x3072 pixels.")
VERDICT = ("marker found.", "No marker found.", "normal marker", "force marker", "Validation")


def says(lines):
    return [l for l in lines if l.startswith(VERDICT)]


def body(r, n):
    """coded bytes: 255 is followed by 0"""
    hot, b = r.random() < .5, []
    while len(b) < n:
        x = r.choice([255, 254, 0, r.getrandbits(8)]) if hot else r.getrandbits(8)
        b += [x, 0] if x == 255 else [x]
    b = b[:n]
    if b and b[-1] == 255:
        b[-1] = 1
    return b


def memory(b, end, head=True, tail=True):
    s = [255] * 16 * head + b + [0] * (len(b) % 2) + end * 8 * tail
    return [s[i ^ 1] for i in range(len(s))]


def spoil(r, b, m):
    """what a faulty core might leave"""
    n, m = len(b), list(m)
    k = r.randrange(9)
    if k == 0:
        m[r.randrange(len(m))] ^= 1 << r.randrange(8)
    elif k == 1:
        m[16 + (n - 1 ^ 1)] ^= 1 << r.randrange(8)              # the last coded byte
    elif k == 2:
        m[r.randrange(16)] = r.choice([0, 254])
    elif k == 3:
        m[-1 - r.randrange(16)] = r.choice([0, 1, 253])
    elif k == 4:
        m = m[:len(m) - 16]
    elif k == 5:
        m[len(m) - 16:len(m) - 16] = [0] * r.choice([1, 2, 3, 4, 60, 110, 111, 112, 126, 127, 128, 130])   # late marker
    elif k == 6:
        m[16:16] = [r.getrandbits(8)]
    elif k == 7:
        del m[16 + r.randrange(len(m) - 20)]
    else:
        at = 16 + max(0, n - r.choice([1, 2, 4, 5, 8, 12]))
        m[at] ^= 1 << r.randrange(8)
    return m


def main_run(r, variant, how):
    d = os.path.join(vlib.SCRATCH, "run-%s-%s" % (variant, how))
    os.makedirs(d, exist_ok=True)
    code, l = board.call(variant, "conf")
    k = [int(x) for x in next(x for x in l if x.startswith("K ")).split()[1:]]
    raw = [r.getrandbits(8) for _ in range(6 * 35)]
    n = r.choice([400, 401, 402, 403, 399]) if how != "odd" else 401
    b = body(r, n)
    m = memory(b, [255, 254] if how == "forced" else [255, 255])
    if how == "spoilt":
        m = spoil(r, b, m)
    if how == "odd":
        m[16 + n] ^= 16
    open(os.path.join(d, "raw12"), "wb").write((bytes(raw) * (4096 * 3072 * 3 // 2 // len(raw) + 1))[:4096 * 3072 * 3 // 2])
    open(os.path.join(d, "lj92"), "wb").write(bytes(b))
    code, l = board.call(variant, "main %s %s %d %d %s %s" % (os.path.join(d, "raw12"), os.path.join(d, "lj92"), r.choice([0, 1, 5, 30]),
                                                             r.choice([0, 2, 7, 40]), board.blob(m), board.blob(raw)))
    os.unlink(os.path.join(d, "raw12"))
    ev, early = [], False
    for x in l:
        f = x.split()
        z = dict(k="", d=0, a=0, v=[0, 0, 0, 0], n=0, s="")
        try:
            if len(f) == 4 and f[0] in "WR":
                z.update(k=f[0].lower(), d=int(f[1]), a=int(f[2]), v=host.b4(int(f[3])))
            elif len(f) == 3 and f[0] == "M":
                z.update(k="m", v=host.b4(int(f[1])), n=min(int(f[2]), 2**31 - 1))
            elif len(f) == 2 and f[0] == "H":
                z.update(k="h", v=list(bytes.fromhex(f[1])))
            elif len(f) == 2 and f[0] == "B":
                ev[-1]["n"] = int(f[1])
                continue
            elif len(f) == 2 and f[0] == "Z":
                z.update(k="z", n=int(f[1]))
            elif len(f) == 2 and f[0] == "E":
                early = f[1] != "0"
                continue
            elif x.startswith(VERDICT):
                z.update(k="s", s=x)
            else:
                continue
        except ValueError:
            continue
        ev.append(z)
    cfg = dict(src=host.b4(k[0]), dst=host.b4(k[1]), bits=k[2], axi=bool(k[3]), raw=raw, n=n)
    return dict(op="main", cfg=cfg, mem=m, file=b, events=ev, early=early or code != 0)


def job(j):
    kind, x, q = j
    r = vlib.rng("C27", kind, x, q)
    if kind == "main":
        return [main_run(r, x, q)]
    out = []
    if kind in ("raw64", "raw32"):
        raw = [r.choice([0, 255, 15, 240, r.getrandbits(8)]) if q % 2 else r.getrandbits(8) for _ in range(6 * r.choice([35, 37, 53]))]
        code, l = board.call("", "%s %s" % (kind, board.blob(raw)))
        h = [y for y in l if y.startswith("H ")]
        bad = [y for y in l if y.startswith("B ")]
        return [dict(op="raw", bits=int(kind[3:]), raw=raw, mem=list(bytes.fromhex(h[0][2:])) if h else [], bad=int(bad[0][2:]) if bad else -1)]
    lines, meta = [], []
    for _ in range(x):
        if kind == "swap":
            f = body(r, r.choice([1, 2, 3, 7, 8, r.randrange(1, 60)]))
            lines.append("swap " + board.blob(f))
            meta.append(dict(op="swap", file=f))
        else:
            f = body(r, r.randrange(256, 300))
            m = memory(f, r.choice([[255, 255], [255, 254]]))
            if r.random() < .75:
                m = spoil(r, f, m)
            lines.append("check %s %s" % (board.blob(f), board.blob(m)))
            meta.append(dict(op="check", file=f, mem=m))
    code, l = board.call("", "\n".join(lines))
    chunks, cur = [], []
    for y in l:
        if y == "D":
            chunks.append(cur)
            cur = []
        else:
            cur.append(y)
    chunks.append(cur)
    for y, ls in zip(meta, chunks):
        if y["op"] == "swap":
            h = [z for z in ls if z.startswith("H ")]
            y["mem"] = list(bytes.fromhex(h[0][2:])) if h else []
        else:
            y["says"] = says(ls)
        out.append(y)
    return out


def main(c):
    vs = vlib.pick(["", "32"], list(board.VARIANTS))
    for v in vs:
        board.exe(v)
    n = vlib.pick(1, 6)
    jobs = [("main", v, h) for v in vs for h in vlib.pick(["good", "forced"] if v == "" else ["odd"], ["good", "forced", "spoilt", "odd"])]
    jobs += [(k, 0, q) for k in ("raw64", "raw32") for q in range(vlib.pick(2, 8))]
    jobs += [("swap", 30, q) for q in range(2 * n)] + [("check", 60, q) for q in range(6 * n)]
    res = vlib.pmap(job, jobs)
    vlib.tick("recorded")
    traces = [t for r in res for t in r]

    def replay(r):
        t = int(vlib.statevar(r.trace[-1], "t"))
        return {k: (v if k != "events" else [e for e in v if e["k"] != "h"]) for k, v in traces[t - 1].items()}
    # two deviations have a name of their own (known_findings.txt); everything else is "program"
    c.conform("BoardTrace", "program", dict(traces=traces), ntraces=len(traces), replayer=replay)
    for key, inv in (("forced-end-marker", "ForcedEndMarker"), ("odd-last-byte", "OddLastByte")):
        c.conform("BoardTrace", key, dict(traces=traces), replayer=replay, invariants=(inv,))
    c.count("runs", sum(t["op"] == "main" for t in traces))
    c.count("calls", sum(t["op"] != "main" for t in traces))
    c.count("events", sum(len(t.get("events", ())) for t in traces))
    c.closed("MCBoard", constants=dict(Bytes="{0, 1, 254, 255}", MaxLen=vlib.pick(5, 7)), invariants=("Tells", "Refuses", "NoMarker"))
    c.sample({k: v for k, v in next(t for t in traces if t["op"] == "check").items()})


vlib.run("C27", main)
