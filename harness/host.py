"""The board software, run against a device: every load and store it makes is answered or observed here."""
import os, select, subprocess
import netsim, pipe, vlib

_exe = []


def exe():
    if not _exe:
        d = os.path.join(vlib.SCRATCH, "host")
        os.makedirs(d, exist_ok=True)
        src = os.path.join(netsim.repo(), "software", "src")
        here = os.path.dirname(os.path.abspath(__file__))
        cmds = [["g++", "-std=c++11", "-O1", "-w", "-fsanitize=thread", "--param", "tsan-distinguish-volatile=1", "-I" + src, "-c",
                 os.path.join(src, f), "-o", os.path.join(d, f + ".o")] for f in ("core_axi_lite.cpp", "xilinx_dma.cpp", "tools.cpp")]
        cmds.append(["g++", "-std=c++11", "-O1", "-w", "-I" + src, os.path.join(here, "host.cpp")] +
                    [c[-1] for c in cmds] + ["-o", os.path.join(d, "host")])
        for c in cmds:
            p = subprocess.run(c, capture_output=True, text=True)
            if p.returncode:
                raise vlib.MachineryError("the board software does not compile:\n" + p.stderr[-2000:])
        _exe.append(os.path.join(d, "host"))
    return _exe[0]


def b4(v):
    return [v & 255, v >> 8 & 255, v >> 16 & 255, v >> 24 & 255]


class Host:
    """device: object with read(offset in words) -> 32 bits, write(offset, strobes, value)"""

    def __init__(self, device):
        self.p = subprocess.Popen([exe()], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.dev, self.buf = device, b""
        self.budget = 4000      # accesses of one call

    def line(self):
        while b"\n" not in self.buf:
            if not select.select([self.p.stdout], [], [], 30)[0]:
                self.p.kill()       # no access and no result for that long: it hangs
                return ""
            x = os.read(self.p.stdout.fileno(), 65536)
            if not x:
                return ""
            self.buf += x
        l, self.buf = self.buf.split(b"\n", 1)
        return l.decode(errors="replace") + "\n"

    def close(self):
        self.p.kill()
        self.p.wait()
        self.p.stdin.close()
        self.p.stdout.close()

    def call(self, op, a=0, b=0):
        kind = "d_" if op in ("newd", "reset", "halt", "start", "addr", "len", "syncr", "syncw", "statr", "statw") else "c_"
        c = dict(op=op, a=b4(a), b=b4(b), acc=[], n=[], s=[], maps=[], dev=[], code=0)
        self.p.stdin.write("%s%s %d %d\n" % (kind, op[:3] if op[:3] == "new" else op, a, b))
        self.p.stdin.flush()
        while True:
            l = self.line()
            if not l:
                c["code"] = self.p.wait() & 255 or 255
                return c
            w = l.split(None, 1)
            if w[0] == "D":
                return c
            if w[0] == "T":
                c["s"].append(l[2:].rstrip("\n"))
                continue
            x = [int(y) for y in w[1].split()]
            if w[0] == "N":
                c["n"] = b4(x[0])
            elif w[0] == "M":
                c["maps"].append([b4(x[0]), b4(x[1])])
            elif w[0] == "X":
                c["acc"].append([1, 99999, 15, 0, 0, 0, 0])
            else:
                off, n = x[0], x[1]
                val = 0
                parts = []
                for word in range(off // 4, (off + n - 1) // 4 + 1):
                    lanes = [k for k in range(4) if off <= 4 * word + k < off + n]
                    parts.append((word, lanes))
                for word, lanes in parts:
                    strb = sum(1 << k for k in lanes)
                    if w[0] == "R":
                        v = self.dev.read(word)
                        for k in lanes:
                            val |= (v >> 8 * k & 255) << 8 * (4 * word + k - off)
                    else:
                        v = 0
                        for k in lanes:
                            v |= (x[2] >> 8 * (4 * word + k - off) & 255) << 8 * k
                        self.dev.write(word, strb, v)
                    c["acc"].append([int(w[0] == "W"), min(word, 99999), strb] + [y if 1 << k & strb else 0 for k, y in enumerate(b4(v))])
                if w[0] == "R":
                    if len(c["acc"]) > self.budget:
                        self.p.kill()
                        self.p.wait()
                        c["code"] = 255
                        return c
                    self.p.stdin.write("%d\n" % val)
                    self.p.stdin.flush()


class Memory:
    """registers as plain memory; reads of `script` words (offset -> list of values) are scripted"""

    def __init__(self):
        self.m, self.script = {}, {}

    def read(self, w):
        q = self.script.get(w)
        if q:
            return q.pop(0) if len(q) > 1 else q[0]
        return self.m.get(w, 0)

    def write(self, w, strb, v):
        o = self.m.get(w, 0)
        for k in range(4):
            if strb >> k & 1:
                o = o & ~(255 << 8 * k) | v & 255 << 8 * k
        self.m[w] = o & 0xffffff if w == 0x801 else o      # the cycle limit has 24 bits


class Netlist:
    """the registers of the real core behind its AXI-lite port"""

    def __init__(self, s, r, base=0x83C00000):
        self.s, self.r, self.base = s, r, base

    def read(self, w):
        self.idle()
        return pipe.axil_read(self.s, self.base + 4 * w)

    def write(self, w, strb, v):
        self.idle()
        pipe.axil_write(self.s, self.base + 4 * w, v, strb)

    def idle(self):
        for _ in range(self.r.choice([0, 0, 0, 1, 3])):
            self.s.cycle()
