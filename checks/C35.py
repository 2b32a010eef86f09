"""C35: the board software's system calls, against HostSys.tla."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness"))
import vlib, sysio

META = dict(
    technique="recorded processes of the board software, each with one system call made to fail, checked against HostSys.tla (TLC); closed model MCSys",
    note="The unmodified sources with their system calls answered by stand-ins (nothing touches /dev/mem): files of all small and many larger sizes, "
         "missing, empty and unreadable ones; mappings; both register classes; the whole program up to its first access; every request failing in turn.")


def raw(d, n):
    """a raw picture of n bytes more than needed"""
    p = os.path.join(d, "raw%d" % n)
    with open(p, "wb") as f:
        f.truncate(4096 * 3072 * 3 // 2 + n)
    return p


def half(v):
    return [v >> 16 & 0xffff, v & 0xffff]


def main(c):
    r = vlib.rng("C35")
    d = os.path.join(vlib.SCRATCH, "files")
    os.makedirs(d, exist_ok=True)
    sysio.exe()
    jobs, each = [], []          # job, fail, args; is every request to fail in turn?

    def job(args, legal=1, closes=1, maps=(), data=(), every=True):
        jobs.append((dict(legal=legal, closes=closes, maps=[[half(a), half(b)] for a, b in maps], bytes=list(data)), 0, args))
        each.append(every)

    sizes = list(range(1, vlib.pick(20, 120))) + [127, 128, 129, 255, 256, 257, 511, 512, 1000, 4095, 4096, 4097, 65535, 65536, 65537]
    sizes += [r.randint(1, 20000) for _ in range(vlib.pick(10, 60))]
    for k, n in enumerate(sizes):
        b = bytes(r.choice([0, 255, r.randrange(256)]) for _ in range(n))
        p = os.path.join(d, "f%d" % k)
        open(p, "wb").write(b)
        job(("load", p), data=b, every=k < 12 or n > 4000)
    job(("load", os.path.join(d, "missing")), legal=0)
    open(os.path.join(d, "empty"), "wb").close()
    job(("load", os.path.join(d, "empty")), legal=0)
    job(("load", d), legal=0)
    for _ in range(vlib.pick(20, 200)):
        ms = [(r.choice([0x10000000, 0x12000000, 0x40400000, 0x83C00000, 0xFFFFF000, r.getrandbits(20) << 12]),
               r.choice([1, 4, 4096, 65535, 65536, 0x2000000, r.randint(1, 1 << 24)])) for _ in range(r.randint(1, 3))]
        job(("map",) + tuple(x for m in ms for x in m), maps=ms)
    for base in (0x83C00000, 0x40000000, 0, 0xFFFF0000):
        for bd in (2, 8, 12, 16):
            job(("core", base, bd), maps=[(base, 0x4020)])
        for bd in (0, 1, 17, 255):
            job(("core", base, bd), legal=0, maps=[(base, 0x4020)])
        job(("dma", base), maps=[(base, 0x5c)])
    job(("term", "0"), legal=0)
    job(("term", "1"))
    # the whole program: wrong arguments, files it cannot use, each request failing
    small = os.path.join(d, "f5")
    cfg = {k: int(v, 0) for k, v in config().items()}
    maps = [(cfg["DMA_BASE"], 0x5c), (cfg["SOURCE_BASE"], 4096 * 3072 * 2), (cfg["DEST_BASE"], 4096 * 3072 * 2), (cfg["AXI_LITE_BASE"], 0x4020)]
    for args in ((), (small,), (small, small, small), (small, small), (os.path.join(d, "missing"), small), (small, os.path.join(d, "missing")),
                 (os.path.join(d, "empty"), small), (small, os.path.join(d, "empty")), (raw(d, -1), small)):
        job(("main",) + args, legal=0, maps=maps)
    res = vlib.tmap(lambda j: sysio.run(j[1], *j[2]), jobs)
    again = [(j[0], k, j[2]) for j, x, e in zip(jobs, res, each) if e for k in range(1, min(40, sum(y[0] in ("open", "mmap", "file") for y in x)) + 1)]
    # a picture it can use: up to the request that fails
    for k in range(1, 16):
        again.append((dict(legal=1, closes=1, maps=[[half(a), half(b)] for a, b in maps], bytes=[]), k, ("main", raw(d, 0), small)))
    res += vlib.tmap(lambda j: sysio.run(j[1], *j[2]), again)
    jobs += again
    vlib.tick("recorded")
    traces = [dict(job=j[0], rows=x) for j, x in zip(jobs, res)]

    def replay(q):
        k = int(vlib.statevar(q.trace[-1], "t")) - 1
        return dict(arguments=[str(x) for x in jobs[k][2]], failing_call=jobs[k][1], event=int(vlib.statevar(q.trace[-1], "i")), rows=str(res[k])[:3000])
    c.closed("MCSys", constants=dict(N=2), invariants=("FailureShows", "SuccessMeans", "Mapped"), spec="Spec")
    c.conform("SysTrace", "system", dict(traces=traces), ntraces=len(traces), replayer=replay, view="View")
    c.count("processes", len(traces))
    c.count("requests_made_to_fail", sum(1 for x in res for y in x if y[0] == "open" and y[3] < 0 or y[0] == "mmap" and not y[6] or y[0] == "file" and not y[2]))
    c.sample(dict(args=[str(x) for x in jobs[0][2]]))


def config():
    import re, netsim
    t = open(os.path.join(netsim.repo(), "software", "src", "config.h")).read()
    return dict(re.findall(r"#\s*define\s+(\w+_BASE)\s+\(?\s*(0x[0-9A-Fa-f]+|\d+)", t))


vlib.run("C35", main)
