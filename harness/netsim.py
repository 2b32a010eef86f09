"""Cycle-accurate simulator for the netlist of a real nMigen module.

elab.py (PyPy, the repository's own interpreter and nMigen) elaborates the module
from /repo and prints RTLIL; yosys flattens it into a word-level netlist; this file
turns that netlist into C (one function: combinational evaluation plus register
update), compiles it with clang and loads it with ctypes.  The simulator can
snapshot and restore the whole state (registers and memories), which is what makes
exhaustive enumeration of the real module's reachable states possible.

Single clock: every $dff is assumed to be clocked by the same edge (in this
repository both domains, "full" and "sync", are the same clock).
"""
import ctypes, hashlib, json, os, subprocess, sys, tempfile, shutil, threading

HERE = os.path.dirname(os.path.abspath(__file__))
PYPY = "/opt/pypyvenv/bin/python"


class ElabError(Exception):
    """The module of /repo could not be elaborated in a configuration that is in scope."""


class MachineryError(Exception):
    pass


def _yosys(il, js, read="read_rtlil"):
    script = (read + " %s; hierarchy -check -top top; proc; flatten; memory_collect; "
              "memory_nordff; opt_clean; dffunmap; opt_merge; opt_clean; write_json %s" % (il, js))
    p = subprocess.run(["yosys", "-q", "-p", script], capture_output=True, text=True)
    if p.returncode:
        raise MachineryError("yosys: " + p.stderr[-2000:])


def _int(s):
    if isinstance(s, int):
        return s
    return int(s.replace("x", "0").replace("z", "0") or "0", 2)


class Gen:
    """strict: only a clock that is an input port of the design ticks; registers on any other net keep their value."""

    def __init__(self, js, strict=False):
        self.strict = strict
        self.m = json.load(open(js))["modules"]["top"]
        self.drv = {}       # bit id -> (var, idx, width)
        self.decl = []
        self.state = []     # (name, ctype)
        self.n = 0

    def ty(self, w):
        return "unsigned _BitInt(%d)" % max(w, 1)

    def const(self, v, w):
        # a literal of any width, built from 64-bit pieces
        v &= (1 << w) - 1
        parts = []
        i = 0
        while v:
            parts.append("((%s)0x%xull << %d)" % (self.ty(max(w, 64)), v & (2**64 - 1), i) if i else
                         "(%s)0x%xull" % (self.ty(max(w, 64)), v & (2**64 - 1)))
            v >>= 64
            i += 64
        if not parts:
            return "((%s)0)" % self.ty(w)
        return "((%s)(%s))" % (self.ty(w), " | ".join(parts))

    def vec(self, bits):
        """C expression of the vector `bits` (LSB first)."""
        w = len(bits)
        if w == 0:
            return "((%s)0)" % self.ty(1)
        groups = []
        k = 0
        cval = 0
        while k < w:
            b = bits[k]
            if isinstance(b, str):
                if b == "1":
                    cval |= 1 << k
                k += 1
                continue
            d = self.drv.get(b)
            if d is None:       # undriven: 0
                k += 1
                continue
            var, idx, vw = d
            j = k + 1
            while j < w and not isinstance(bits[j], str) and self.drv.get(bits[j]) == (var, idx + (j - k), vw):
                j += 1
            ln = j - k
            e = var
            if idx:
                e = "(%s >> %d)" % (e, idx)
            if ln != vw:
                e = "(%s)%s" % (self.ty(ln), e)
            groups.append((k, ln, e))
            k = j
        if len(groups) == 1 and cval == 0 and groups[0][0] == 0 and groups[0][1] == w:
            return "(" + groups[0][2] + ")"
        if not groups:
            return self.const(cval, w)
        out = []
        for pos, ln, e in groups:
            e = "(%s)(%s)" % (self.ty(w), e)
            if pos:
                e = "(%s << %d)" % (e, pos)
            out.append(e)
        if cval:
            out.append(self.const(cval, w))
        return "((%s)(%s))" % (self.ty(w), " | ".join(out))

    def ext(self, bits, signed, w):
        e = self.vec(bits)
        n = max(1, len(bits))
        if n > w:
            return "((%s)%s)" % (self.ty(w), e)
        if n == w:
            return e
        if signed and bits:
            if n == 1:
                return "((%s)(-((_BitInt(%d))%s)))" % (self.ty(w), w, e)
            return "((%s)((_BitInt(%d))((_BitInt(%d))%s)))" % (self.ty(w), w, n, e)
        return "((%s)%s)" % (self.ty(w), e)

    def gen(self):
        m = self.m
        cells = m["cells"]
        ins, outs = [], []
        for n, p in m["ports"].items():
            (ins if p["direction"] == "input" else outs).append((n, p["bits"]))
        init = {}
        for n, nn in m["netnames"].items():
            iv = nn["attributes"].get("init")
            if iv is not None:
                if isinstance(iv, int):
                    iv = format(iv, "032b")
                iv = iv[::-1]
                for i, b in enumerate(nn["bits"]):
                    if i < len(iv) and iv[i] in "01" and not isinstance(b, str):
                        init[b] = int(iv[i])
        L, clkbits = [], set()
        for n, c in cells.items():
            if c["type"] == "$dff":
                clkbits.add(c["connections"]["CLK"][0])
            if c["type"] == "$mem_v2":
                for b in c["connections"]["WR_CLK"]:
                    clkbits.add(b)
        pins = {b for n, bits in ins for b in bits}
        dead = {b for b in clkbits if b not in pins} if self.strict else set()
        off = 0
        self.in_layout, self.out_layout = {}, {}
        for n, bits in ins:
            if len(bits) == 1 and bits[0] in clkbits or n in ("clk", "full_clk"):
                continue
            w = len(bits)
            nw = (w + 63) // 64
            self.in_layout[n] = (off, nw, w)
            v = "i%d" % self.n
            self.n += 1
            e = " | ".join("((%s)in[%d] << %d)" % (self.ty(max(w, 64)), off + k, 64 * k) for k in range(nw)) or "0"
            L.append("%s %s = (%s)(%s);" % (self.ty(w), v, self.ty(w), e))
            for i, b in enumerate(bits):
                self.drv[b] = (v, i, w)
            off += nw
        self.n_in = off
        dffs, mems, comb = [], [], []
        for n, c in cells.items():
            t = c["type"]
            con = c["connections"]
            if t == "$dff":
                if _int(c["parameters"]["CLK_POLARITY"]) != 1:
                    raise MachineryError("negative edge FF")
                q = con["Q"]
                v = "r%d" % self.n
                self.n += 1
                iv = 0
                for i, b in enumerate(q):
                    self.drv[b] = ("s->" + v, i, len(q))
                    if init.get(b):
                        iv |= 1 << i
                self.state.append((v, self.ty(len(q)), None, iv, len(q)))
                if con["CLK"][0] not in dead:
                    dffs.append((v, con["D"]))
            elif t == "$mem_v2":
                p = c["parameters"]
                size, width = _int(p["SIZE"]), _int(p["WIDTH"])
                v = "m%d" % self.n
                self.n += 1
                ini = p["INIT"]
                ini = ini if isinstance(ini, str) else format(ini, "b")
                ini = ini.replace("x", "0")
                ini = ini.rjust(size * width, "0")
                iv = []
                for a in range(size):
                    lo = len(ini) - (a + 1) * width
                    iv.append(int(ini[lo:lo + width], 2))
                self.state.append((v, self.ty(width), size, iv, width))
                np_ = _int(p["RD_PORTS"])
                nwp = _int(p["WR_PORTS"])
                ab = _int(p["ABITS"])
                if _int(p["OFFSET"]) or (np_ and _int(p["RD_CLK_ENABLE"])):
                    raise MachineryError("memory shape")
                for i in range(np_):
                    rv = "x%d" % self.n
                    self.n += 1
                    db = con["RD_DATA"][i * width:(i + 1) * width]
                    for k, b in enumerate(db):
                        self.drv[b] = (rv, k, width)
                    comb.append(("memrd", rv, width, (v, size), [con["RD_ADDR"][i * ab:(i + 1) * ab]], None))
                wp = []
                for i in range(nwp):
                    if con["WR_CLK"][i] in dead:
                        continue
                    wp.append((con["WR_ADDR"][i * ab:(i + 1) * ab], con["WR_DATA"][i * width:(i + 1) * width],
                               con["WR_EN"][i * width:(i + 1) * width]))
                mems.append((v, size, width, wp))
            else:
                y = con["Y"]
                yv = "x%d" % self.n
                self.n += 1
                for k, b in enumerate(y):
                    self.drv[b] = (yv, k, len(y))
                ports = [con[k] for k in ("A", "B", "S") if k in con]
                comb.append((t, yv, len(y), c["parameters"], ports, n))
        # undriven nets keep their declared initial value
        undriven_const = {b: v for b, v in init.items() if b not in self.drv and b not in clkbits and v}
        if undriven_const:
            v = "u0"
            L.append("%s %s = 1;" % (self.ty(1), v))
            for b in undriven_const:
                self.drv[b] = (v, 0, 1)
        # levelise
        prod = {c[1]: i for i, c in enumerate(comb)}
        deps = []
        for c in comb:
            s = set()
            for p in c[4]:
                for b in p:
                    d = self.drv.get(b) if not isinstance(b, str) else None
                    if d and d[0] in prod:
                        s.add(prod[d[0]])
            deps.append(s)
        order, mark = [], [0] * len(comb)
        for r in range(len(comb)):
            stack = [(r, iter(deps[r]))] if not mark[r] else []
            if stack:
                mark[r] = 1
            while stack:
                i, it = stack[-1]
                for d in it:
                    if mark[d] == 0:
                        mark[d] = 1
                        stack.append((d, iter(deps[d])))
                        break
                    if mark[d] == 1:
                        raise MachineryError("combinational loop through " + str(comb[d][5]))
                else:
                    mark[i] = 2
                    order.append(i)
                    stack.pop()
        for i in order:
            L.append(self.cell(comb[i]))
        o = 0
        for n, bits in outs:
            w = len(bits)
            nw = (w + 63) // 64
            self.out_layout[n] = (o, nw, w)
            L.append("{ %s t = %s;" % (self.ty(w), self.vec(bits)))
            for k in range(nw):
                L.append("out[%d] = (unsigned long)(t >> %d);" % (o + k, 64 * k) if k else
                         "out[%d] = (unsigned long)t;" % o)
            L.append("}")
            o += nw
        self.n_out = o
        L.append("if (!tick) return;")
        W = []
        for k, (v, d) in enumerate(dffs):
            w = len(d)
            L.append("%s n%d = %s;" % (self.ty(w), k, self.vec(d)))
            W.append("s->%s = n%d;" % (v, k))
        for k, (v, size, width, wp) in enumerate(mems):
            for a, d, en in wp:
                L.append("{ unsigned long a = (unsigned long)%s; if (a < %d) { %s e = %s; s->%s[a] = (s->%s[a] & ~e) | (%s & e); } }"
                         % (self.vec(a), size, self.ty(width), self.vec(en), v, v, self.vec(d)))
        L += W
        C = ["#include <string.h>", "#pragma clang diagnostic ignored \"-Weverything\"", "typedef struct {"]
        for v, t, size, iv, w in self.state:
            C.append("%s %s%s;" % (t, v, "[%d]" % size if size is not None else ""))
        C += ["char dummy;", "} S;", "static S st;",
              "static void ev(S *s, const unsigned long *in, unsigned long *out, int tick) {"]
        C += L
        C += ["}", "void init(void) { memset(&st, 0, sizeof st); S *s = &st;"]
        for v, t, size, iv, w in self.state:
            if size is None:
                if iv:
                    C.append("s->%s = %s;" % (v, self.const(iv, w)))
            else:
                for a, x in enumerate(iv):
                    if x:
                        C.append("s->%s[%d] = %s;" % (v, a, self.const(x, w)))
        C += ["}", "int ssize(void) { return sizeof(S); }",
              "void save(void *b) { memcpy(b, &st, sizeof st); }",
              "void load(const void *b) { memcpy(&st, b, sizeof st); }",
              "void cycle(const unsigned long *in, unsigned long *out) { ev(&st, in, out, 1); }",
              "void peek(const unsigned long *in, unsigned long *out) { ev(&st, in, out, 0); }",
              "void cyclen(const unsigned long *in, unsigned long *out, long n) { while (n-- > 0) ev(&st, in, out, 1); }",
              "long until(const unsigned long *in, unsigned long *out, int w, unsigned long v, long max)"
              " { long i; for (i = 0; i < max; i++) { ev(&st, in, out, 0); if (out[w] == v) return i; ev(&st, in, out, 1); } return -1; }",
              "long until2(const unsigned long *in, unsigned long *out, int a, int b, long max)"
              " { long i; for (i = 0; i < max; i++) { ev(&st, in, out, 0); if (out[a] || out[b]) return i; ev(&st, in, out, 1); } return -1; }",
              # n cycles with constant inputs: r[0] += (out[a] == av), r[1] += out[b] != 0,
              # r[2] += out[b] && out[d] != dv, r[3] += out[b] && out[e], r[4] = r[1] at the last such e
              "void tally(const unsigned long *in, unsigned long *out, long n, int a, unsigned long av, int b, int d,"
              " unsigned long dv, int e, long *r) { while (n-- > 0) { ev(&st, in, out, 1); if (out[a] == av) r[0]++;"
              " if (out[b]) { r[1]++; if (out[d] != dv) r[2]++; if (out[e]) { r[3]++; r[4] = r[1]; } } } }",
              # n cycles with constant inputs: runs of delivered words (out[v] set): (count, data, end); stops after the
              # first end; r[0] = runs, r[1] = cycles with out[nr] == 0, r[2] = cycles used
              "void words(const unsigned long *in, unsigned long *out, long n, int v, int d, int e, int nr, unsigned long rv, unsigned long *b,"
              " long max, long *r) { r[0] = r[1] = r[2] = 0; while (n-- > 0) { ev(&st, in, out, 1); r[2]++; if (out[nr] == rv) r[1]++;"
              " if (out[v]) { long k = r[0]; unsigned long l = e < 0 ? 0 : out[e]; if (k && b[3*k-2] == out[d] && b[3*k-1] == l) b[3*k-3]++;"
              " else if (k < max) { b[3*k] = 1; b[3*k+1] = out[d]; b[3*k+2] = l; r[0]++; }"
              " if (l) return; } } }",
              # n cycles with a memory on an AXI master port: every address, data and response handshake as soon as possible.
              # p: port indices (see memrun below); a: reads src, dst, data seed (0: all zero), data and address pauses; r: counters
              "void memrun(const unsigned long *in0, unsigned long *out, long n, const int *p, const unsigned long *a, long *r) {"
              " unsigned long *in = (unsigned long *)in0; unsigned long g = a[2]; long k = 0, quiet = 0;"
              " static unsigned long nar, naw, rb, wb, nb, beat, wbeat; nar = naw = rb = wb = nb = beat = wbeat = 0;"
              " for (long j = 0; j < 12; j++) r[j] = 0;"
              " while (n-- > 0 && quiet < a[3]) { int rv = rb < nar * 16, bv = nb < wb / 16;"
              " in[p[0]] = 1; in[p[1]] = rv; in[p[2]] = g; in[p[3]] = rv && rb % 16 == 15; in[p[4]] = 1; in[p[5]] = wb < naw * 16; in[p[6]] = bv;"
              " ev(&st, in, out, 1); k++; quiet++;"
              " if (out[p[7]]) { if (out[p[8]] != (unsigned)(a[0] + 128 * nar)) r[2]++; if (out[p[9]] != 15) r[3]++; nar++; quiet = 0; }"
              " if (rv && out[p[10]]) { rb++; if (a[2]) g = g * 6364136223846793005ul + 1442695040888963407ul; quiet = 0; }"
              " if (out[p[11]]) { if (out[p[12]] != (unsigned)(a[1] + 128 * naw)) r[4]++; if (out[p[13]] != 15) r[5]++; naw++; quiet = 0; }"
              " if (in[p[5]] && out[p[14]]) { wb++; if (out[p[15]] != 255) r[6]++; if (out[p[17]] != (wb % 16 == 0)) r[7]++; quiet = 0; }"
              " if (bv && out[p[16]]) { nb++; quiet = 0; } }"
              " r[0] = nar; r[1] = naw; r[8] = rb; r[9] = wb; r[10] = nb; r[11] = k; }",
              ""]
        return "\n".join(C)

    def cell(self, c):
        t, y, w, p, ports, name = c
        ty = self.ty(w)
        if t == "memrd":
            v, size = p
            return "%s %s; { unsigned long a = (unsigned long)%s; %s = a < %d ? s->%s[a] : (%s)0; }" % (
                ty, y, self.vec(ports[0]), y, size, v, ty)
        sg = bool(_int(p.get("A_SIGNED", "0"))) and bool(_int(p.get("B_SIGNED", p.get("A_SIGNED", "0"))))
        sa = bool(_int(p.get("A_SIGNED", "0")))
        A = ports[0]
        B = ports[1] if len(ports) > 1 else None
        if t in ("$add", "$sub", "$mul", "$and", "$or", "$xor"):
            op = {"$add": "+", "$sub": "-", "$mul": "*", "$and": "&", "$or": "|", "$xor": "^"}[t]
            return "%s %s = (%s)(%s %s %s);" % (ty, y, ty, self.ext(A, sg, w), op, self.ext(B, sg, w))
        if t in ("$div", "$mod", "$divfloor", "$modfloor"):
            mw = max(len(A), len(B), w) + 1
            st = ("_BitInt(%d)" if sg else "unsigned _BitInt(%d)") % mw
            op = "/" if "div" in t else "%"
            z = "0" if "div" in t else "a"          # division by zero: undefined in hardware
            fix = ""
            if sg and t.endswith("floor"):
                fix = " if (b != 0 && a %% b != 0 && (a < 0) != (b < 0)) q = q %s;" % ("- 1" if "div" in t else "+ b")
            return "%s %s; { %s a = (%s)%s, b = (%s)%s, q = b == 0 ? (%s)%s : (%s)(a %s b);%s %s = (%s)q; }" % (
                ty, y, st, st, self.ext(A, sg, mw), st, self.ext(B, sg, mw), st, z, st, op, fix, y, ty)
        if t in ("$not", "$pos", "$neg"):
            op = {"$not": "~", "$pos": "", "$neg": "-"}[t]
            return "%s %s = (%s)(%s%s);" % (ty, y, ty, op, self.ext(A, sa, w))
        if t in ("$eq", "$ne", "$eqx", "$nex", "$lt", "$le", "$gt", "$ge"):
            op = {"$eq": "==", "$ne": "!=", "$eqx": "==", "$nex": "!=", "$lt": "<", "$le": "<=", "$gt": ">", "$ge": ">="}[t]
            mw = max(len(A), len(B), 1)
            a, b = self.ext(A, sg, mw), self.ext(B, sg, mw)
            if sg:
                mw += 1
                a, b = self.ext(A, sg, mw), self.ext(B, sg, mw)
                a, b = "(_BitInt(%d))%s" % (mw, a), "(_BitInt(%d))%s" % (mw, b)
            return "%s %s = (%s)(%s %s %s);" % (ty, y, ty, a, op, b)
        if t in ("$reduce_or", "$reduce_bool"):
            return "%s %s = (%s)(%s != 0);" % (ty, y, ty, self.vec(A))
        if t == "$reduce_and":
            return "%s %s = (%s)((%s)~%s == 0);" % (ty, y, ty, self.ty(len(A)), self.vec(A))
        if t in ("$reduce_xor", "$reduce_xnor"):
            e = "^".join("(unsigned)((%s >> %d) & 1)" % (self.vec(A), i) for i in range(len(A)))
            return "%s %s = (%s)((%s) & 1)%s;" % (ty, y, ty, e, " ^ 1" if t.endswith("xnor") else "")
        if t == "$logic_not":
            return "%s %s = (%s)(%s == 0);" % (ty, y, ty, self.vec(A))
        if t == "$logic_and":
            return "%s %s = (%s)((%s != 0) && (%s != 0));" % (ty, y, ty, self.vec(A), self.vec(B))
        if t == "$logic_or":
            return "%s %s = (%s)((%s != 0) || (%s != 0));" % (ty, y, ty, self.vec(A), self.vec(B))
        if t == "$mux":
            return "%s %s = %s ? %s : %s;" % (ty, y, self.vec(ports[2]), self.vec(B), self.vec(A))
        if t == "$pmux":
            S = ports[2]
            e = self.vec(A)
            for i in range(len(S)):
                e = "(%s ? %s : %s)" % (self.vec([S[i]]), self.vec(B[i * w:(i + 1) * w]), e)
            return "%s %s = %s;" % (ty, y, e)
        if t in ("$shl", "$sshl", "$shr", "$sshr"):
            if bool(_int(p.get("B_SIGNED", "0"))):
                raise MachineryError("signed shift amount")
            mw = max(w, len(A))
            a = self.ext(A, sa, mw)
            n = "(unsigned long)%s" % self.vec(B)
            if t in ("$shl", "$sshl"):
                e = "(%s >= %d ? (%s)0 : (%s)(%s << %s))" % (n, mw, self.ty(mw), self.ty(mw), a, n)
            elif t == "$sshr" and sa:
                a = self.ext(A, sa, mw + 1)
                e = "(%s)((_BitInt(%d))%s >> (%s >= %d ? %d : %s))" % (self.ty(mw), mw + 1, a, n, mw, mw - 1, n)
            else:
                e = "(%s >= %d ? (%s)0 : (%s)(%s >> %s))" % (n, mw, self.ty(mw), self.ty(mw), a, n)
            return "%s %s = (%s)%s;" % (ty, y, ty, e)
        if t in ("$shift", "$shiftx"):
            mw = max(w, len(A))
            a = self.ext(A, sa, mw)
            n = "(unsigned long)%s" % self.vec(B)
            e = "(%s >= %d ? (%s)0 : (%s)(%s >> %s))" % (n, mw, self.ty(mw), self.ty(mw), a, n)
            if bool(_int(p.get("B_SIGNED", "0"))):      # a negative amount shifts left
                bw = max(len(B), 1) + 1
                ng = "(unsigned long)(%s)(-%s)" % (self.ty(bw), self.ext(B, True, bw))
                l = "(%s >= %d ? (%s)0 : (%s)(%s << %s))" % (ng, mw, self.ty(mw), self.ty(mw), a, ng)
                e = "((_BitInt(%d))%s < 0 ? %s : %s)" % (bw, self.ext(B, True, bw), l, e)
            return "%s %s = (%s)%s;" % (ty, y, ty, e)
        raise MachineryError("cell type " + t)


class Sim:
    def __init__(self, so, meta):
        self.lib = ctypes.CDLL(so)
        self.il = {k: tuple(v) for k, v in meta["in"].items()}
        self.ol = {k: tuple(v) for k, v in meta["out"].items()}
        self.info = meta.get("info", {})
        self.inb = (ctypes.c_ulong * max(1, meta["n_in"]))()
        self.outb = (ctypes.c_ulong * max(1, meta["n_out"]))()
        self.sz = self.lib.ssize()
        self.buf = ctypes.create_string_buffer(self.sz)
        self.lib.until.restype = ctypes.c_long
        self.lib.until.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_ulong, ctypes.c_long]
        self.lib.cyclen.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long]
        self.lib.init()

    def reset(self):
        self.lib.init()
        for i in range(len(self.inb)):
            self.inb[i] = 0

    def set(self, name, v):
        o, nw, w = self.il[name]
        if nw == 1:
            self.inb[o] = v & ((1 << w) - 1)
        else:
            for k in range(nw):
                self.inb[o + k] = (v >> (64 * k)) & (2**64 - 1)

    def rst(self, v):
        """drive the synchronous reset line(s)"""
        for n in ("full_rst", "rst"):
            if n in self.il:
                self.set(n, v)

    def sets(self, **kw):
        for k, v in kw.items():
            self.set(k, v)

    def get(self, name):
        o, nw, w = self.ol[name]
        if nw == 1:
            return self.outb[o]
        v = 0
        for k in range(nw):
            v |= self.outb[o + k] << (64 * k)
        return v

    def cycle(self):
        self.lib.cycle(self.inb, self.outb)

    def cyclen(self, n):
        self.lib.cyclen(self.inb, self.outb, n)

    def peek(self):
        self.lib.peek(self.inb, self.outb)

    def until(self, name, v, mx):
        """Clock with the current inputs until output `name` (1 word) is v; number of edges, or -1.
        The cycle in which it is v is evaluated but not clocked."""
        return self.lib.until(self.inb, self.outb, self.ol[name][0], v, mx)

    def until_any(self, a, b, mx):
        L = self.lib.until2
        L.restype = ctypes.c_long
        L.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        return L(self.inb, self.outb, self.ol[a][0], self.ol[b][0], mx)

    def tally(self, n, a, av, b, d, dv, e):
        r = (ctypes.c_long * 5)()
        L = self.lib.tally
        L.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long, ctypes.c_int, ctypes.c_ulong, ctypes.c_int,
                      ctypes.c_int, ctypes.c_ulong, ctypes.c_int, ctypes.c_void_p]
        L(self.inb, self.outb, n, self.ol[a][0], av, self.ol[b][0], self.ol[d][0], dv, self.ol[e][0], r)
        return list(r)

    def memrun(self, n, src, dst, seed, quiet=3000):
        """a memory on the ports of an AXI master until nothing happens for `quiet` cycles; counts, see above"""
        p = [self.il["i_r_arready"], self.il["i_r_rvalid"], self.il["i_r_rdata"], self.il["i_r_rlast"], self.il["i_w_awready"],
             self.il["i_w_wready"], self.il["i_w_bvalid"]]
        p += [self.ol[x] for x in ("o_r_arvalid", "o_r_araddr", "o_r_arlen", "o_r_rready", "o_w_awvalid", "o_w_awaddr", "o_w_awlen",
                                   "o_w_wvalid", "o_w_wstrb", "o_w_bready", "o_w_wlast")]
        p = [x[0] if isinstance(x, tuple) else x for x in p]
        r = (ctypes.c_long * 12)()
        L = self.lib.memrun
        L.restype = None
        L.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long, ctypes.c_void_p, ctypes.c_void_p, ctypes.c_void_p]
        L(self.inb, self.outb, n, (ctypes.c_int * len(p))(*p), (ctypes.c_ulong * 4)(src, dst, seed, quiet), r)
        return dict(zip(("ar", "aw", "badar", "badarlen", "badaw", "badawlen", "badstrb", "badlast", "rbeats", "wbeats", "b", "cycles"), r))

    def words(self, n, v, d, e, nr, maxruns=200):
        """accepted groups and the runs [count, high byte, low byte, end] of 16-bit words delivered in up to n cycles"""
        acc, runs = self.runs(n, v, d, e, nr, 0, maxruns)
        return acc, [[k, x >> 8, x & 255, l] for k, x, l in runs]

    def runs(self, n, v, d, e, nr, rv, maxruns=200):
        """cycles with nr = rv, and the runs [count, word, end] of words delivered in up to n cycles"""
        r = (ctypes.c_long * 3)()
        b = (ctypes.c_ulong * (3 * maxruns))()
        L = self.lib.words
        L.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_long] + [ctypes.c_int] * 4 + [ctypes.c_ulong, ctypes.c_void_p,
                                                                                              ctypes.c_long, ctypes.c_void_p]
        L.restype = None
        L(self.inb, self.outb, n, self.ol[v][0], self.ol[d][0], self.ol[e][0] if e else -1, self.ol[nr][0], rv, b, maxruns, r)
        self.used = r[2]
        return r[1], [[b[3 * k], b[3 * k + 1], b[3 * k + 2]] for k in range(r[0])]

    def save(self):
        self.lib.save(self.buf)
        return self.buf.raw

    def load(self, b):
        self.lib.load(b)


def repo():
    return os.environ.get("VP_REPO", "/repo")


def build(design, workdir, cfg=None, repo_dir=None, keep=False):
    """Elaborate `design` (a key of designs.py) with `cfg`; returns a Sim."""
    repo_dir = repo_dir or repo()
    key = hashlib.sha1(json.dumps([design, cfg], sort_keys=True).encode()).hexdigest()[:12]
    base = os.path.join(workdir, "%s_%s" % (design, key))
    so, mt = base + ".so", base + ".meta"
    if not os.path.exists(mt):
        t = "%s_%d_%d" % (base, os.getpid(), threading.get_ident())     # several builders may race: rename at the end
        il, js, c = (t + e for e in (".il", ".json", ".c"))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        p = subprocess.run([PYPY, "-W", "ignore", os.path.join(HERE, "elab.py"), repo_dir, design,
                            json.dumps(cfg), il], capture_output=True, text=True, env=env, timeout=600)
        if p.returncode:
            tail = p.stderr.strip().splitlines()[-6:]
            raise ElabError("%s %s: %s" % (design, json.dumps(cfg), " | ".join(tail)))
        info = json.loads(p.stdout.strip().splitlines()[-1])
        _yosys(il, js)
        _compile(Gen(js), t, c, info, so, mt)
        for f in (il, js, c):
            if not keep:
                os.unlink(f)
    return Sim(so, json.load(open(mt)))


def _compile(g, t, c, info, so, mt, pins=None):
    """write, compile and put in place; pins: names of the ports for the harness ({harness name: port name})"""
    src = g.gen()
    open(c, "w").write(src)
    p = subprocess.run(["clang", "-std=c2x", "-O1", "-w", "-shared", "-fPIC", "-o", t + ".so", c],
                       capture_output=True, text=True)
    if p.returncode:
        raise MachineryError("clang: " + p.stderr[-1500:])
    il, ol = g.in_layout, g.out_layout
    if pins is not None:
        il, ol = ({k.lstrip("\\"): v for k, v in x.items()} for x in (il, ol))
        il = {k: il[v] for k, v in pins.items() if v in il} | {k: v for k, v in il.items() if k not in pins.values()}
        ol = {k: ol[v] for k, v in pins.items() if v in ol} | {k: v for k, v in ol.items() if k not in pins.values()}
    meta = {"in": il, "out": ol, "n_in": g.n_in, "n_out": g.n_out, "info": info}
    with open(t + ".meta", "w") as f:
        json.dump(meta, f)
    os.rename(t + ".so", so)
    os.rename(t + ".meta", mt)


class VSim(Sim):
    """A Verilog top level.  Reset is what its user has: the reset ports, if it has any."""

    def set(self, name, v):
        if name in self.il or name not in ("rst", "full_rst"):
            Sim.set(self, name, v)

    def reset(self):
        for i in range(len(self.inb)):
            self.inb[i] = 0
        self.rst(1)
        self.cyclen(2)
        self.rst(0)


def build_verilog(vfile, names, info, workdir):
    """names: {"ins": [[harness name, port]], "outs": ...}; ports that are not there: Sim.missing"""
    base = os.path.join(workdir, "v_" + os.path.basename(vfile) + hashlib.sha1(vfile.encode()).hexdigest()[:8])
    so, mt = base + ".so", base + ".meta"
    if not os.path.exists(mt):
        t = "%s_%d_%d" % (base, os.getpid(), threading.get_ident())
        js, c = t + ".json", t + ".c"
        _yosys(vfile, js, "read_verilog -nolatches")
        ports = {k.lstrip("\\"): v for k, v in json.load(open(js))["modules"]["top"]["ports"].items()}
        pins, missing = {}, []
        for k, d in (("ins", "input"), ("outs", "output")):
            for h, n in names[k]:
                if n in ports and ports[n]["direction"] == d:
                    pins[k[0] + "_" + h] = n
                else:
                    missing.append(k[0] + "_" + h)
        _compile(Gen(js, strict=True), t, c, dict(info, missing=missing, ports=sorted(ports)), so, mt, pins)
        for f in (js, c):
            os.unlink(f)
    return VSim(so, json.load(open(mt)))


def generate_verilog(fn, design, workdir, repo_dir=None, over=None):
    """(Verilog file, port names, shipped configuration) of migen_src/fn; over: entries of the complete design's configuration"""
    repo_dir = repo_dir or repo()
    out = os.path.join(workdir, fn[:-3] + ("_x.v" if over else ".v"))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    p = subprocess.run([PYPY, "-B", "-W", "ignore", os.path.join(HERE, "genv.py"), repo_dir, fn, design, out, json.dumps(over)], cwd=workdir,
                       capture_output=True, text=True, env=env, timeout=600)
    if p.returncode:
        raise ElabError("generating %s: %s" % (fn, " | ".join(p.stderr.strip().splitlines()[-6:])))
    i = json.loads(p.stdout.strip().splitlines()[-1])
    return out, i, i["config"]
