"""PyPy side of crosscheck.py:  crosscheck_gen.py SEED OUT.il OUT.json
Builds a random nMigen module, writes its RTLIL, and what nMigen's own simulator makes of random inputs."""
import sys, json, random, warnings
warnings.simplefilter("ignore")
from nmigen import *
from nmigen.back import rtlil, pysim
import os
COMB = bool(os.environ.get("COMB"))     # combinational module with signed inputs: yosys' own `eval` is the reference
SG = .4 if COMB else 0
seed, il, js = int(sys.argv[1]), sys.argv[2], sys.argv[3]
r = random.Random(seed)
ins = [Signal((r.randint(1, 20), r.random() < SG), name="i_%d" % k) for k in range(4)]
regs = [Signal((r.randint(1, 24), r.random() < SG), name="r%d" % k, reset=r.randint(0, 1)) for k in range(4)]
pool = ins + ([] if COMB else regs)
m = Module()


KS = [int(x) for x in (sys.argv[4:] or range(19))]


def ex(d):
    if d == 0 or r.random() < .15:
        return r.choice(pool) if r.random() < .85 else C(r.randint(0, 40))
    a = ex(d - 1)
    k = r.choice(KS)
    if k < 8:
        b = ex(d - 1)
        return [lambda: a + b, lambda: a - b, lambda: a & b, lambda: a | b, lambda: a ^ b, lambda: a == b, lambda: a < b, lambda: a >= b][k]()
    if k == 8:
        return ~a
    if k == 9:
        return a << Cat(ex(0)[0:3])
    if k == 10:
        return a >> Cat(ex(0)[0:4])
    if k == 11:
        return Mux(ex(d - 1), a, ex(d - 1))
    if k == 12:
        return Cat(a, ex(d - 1))
    if k == 13 and len(a):
        x = r.randrange(len(a))
        return a[x:r.randint(x, len(a))]
    if k == 14 and len(a) > 2:
        return a.bit_select(ex(0)[0:2], 2) if hasattr(a, "bit_select") else a.part(ex(0)[0:2], 2)
    if k == 15:
        return Array(ex(d - 1) for _ in range(3))[ex(0)[0:2]]
    if k == 16:
        return a.bool()
    if k == 17:
        return -a
    return Cat(a[0:1], a[0:1]) if len(a) else a


mem = Memory(width=9, depth=8, init=[r.getrandbits(9) for _ in range(8)])
rp, rp2 = mem.read_port(), mem.read_port(domain="comb")
wp = mem.write_port()
m.submodules += [rp, rp2, wp]
m.d.comb += [rp.addr.eq(ex(1)), rp2.addr.eq(ex(1)), wp.addr.eq(ex(1)), wp.data.eq(ex(2)), wp.en.eq(ex(1))]
if not COMB:
    pool += [rp.data, rp2.data]
outs = []
for q in regs:
    with m.If(ex(2)):
        m.d.sync += q.eq(ex(3))
    with m.Elif(ex(1)):
        if len(q) > 3:
            m.d.sync += q[1:3].eq(ex(1))
    with m.Else():
        with m.Switch(ex(1)[0:2]):
            with m.Case(1):
                m.d.sync += q.eq(ex(1))
            with m.Case():
                m.d.sync += q.eq(q + 1)
with m.FSM():
    for k in range(3):
        with m.State(str(k)):
            with m.If(ex(2)):
                m.next = str((k + 1) % 3)
            t = Signal(3)
            m.d.comb += t.eq(5)
            if not COMB:
                pool.append(t)
for k in range(5):
    o = Signal(r.randint(1, 40), name="o_%d" % k)
    m.d.comb += o.eq(ex(4) ^ ins[k % 4])
    outs.append(o)
m.domains.sync = ClockDomain("sync")
vec, exp = [], []


def proc():
    yield
    for c in range(150):
        v = [r.getrandbits(len(s)) if r.random() < .8 else r.choice([0, (1 << len(s)) - 1]) for s in ins]
        for s, x in zip(ins, v):
            yield s.eq(x - (1 << len(s)) if s.signed and x >> (len(s) - 1) else x)
        yield pysim.Delay(4e-9)
        e = []
        for o in outs:
            e.append((yield o))
        vec.append(v)
        exp.append(e)
        yield


text = rtlil.convert(m, ports=ins + outs)
open(il, "w").write(text)
if COMB:
    vec = [[r.getrandbits(len(s)) for s in ins] for _ in range(20)]
    json.dump(dict(vec=vec, w=[len(s) for s in ins]), open(js, "w"))
    sys.exit()
with pysim.Simulator(m) as s:
    s.add_clock(1e-8)
    s.add_sync_process(proc())
    s.run()
json.dump(dict(vec=vec, exp=exp), open(js, "w"))
