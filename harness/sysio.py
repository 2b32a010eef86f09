"""The board software's system calls (sysio.cpp), as traces for SysTrace.tla."""
import os, shutil, subprocess
import netsim, vlib

SYMS = "open open64 mmap mmap64 close stat fopen fread malloc exit".split()
_exe = []


def exe():
    if not _exe:
        d = os.path.join(vlib.SCRATCH, "sysio")
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(netsim.repo(), "software", "src"), d)
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "sysio.cpp"), d)
        fs = [f for f in sorted(os.listdir(d)) if f.endswith(".cpp")]
        ps = [subprocess.Popen(["g++", "-std=c++11", "-O1", "-U_FORTIFY_SOURCE", "-w", "-fno-builtin", "-I" + d, "-c", os.path.join(d, f), "-o", os.path.join(d, f + ".o")],
                               stderr=subprocess.PIPE, text=True) for f in fs]
        for p in ps:
            e = p.communicate()[1]
            if p.returncode:
                raise vlib.MachineryError("the board software does not compile:\n" + e[-2000:])
        for f in fs:
            if f != "sysio.cpp":
                redef = [x for s in SYMS for x in ("--redefine-sym", "%s=vp_%s" % (s, s))]
                subprocess.run(["objcopy", "--redefine-sym", "main=xt_main"] + redef + [os.path.join(d, f + ".o")], check=True)
        p = subprocess.run(["g++"] + [os.path.join(d, f + ".o") for f in fs] + ["-o", os.path.join(d, "sysio")], capture_output=True, text=True)
        if p.returncode:
            raise vlib.MachineryError("the board software does not link:\n" + p.stderr[-2000:])
        _exe.append(os.path.join(d, "sysio"))
    return _exe[0]


def run(fail, *args):
    """events of one process, the last one <<"gone", status>>"""
    try:
        p = subprocess.run([exe(), str(fail)] + [str(a) for a in args], capture_output=True, text=True, timeout=30)
        code = p.returncode
    except subprocess.TimeoutExpired as e:     # nothing it has asked for failed: waits for the hardware
        code, p = -99, e
    half = lambda v: [v >> 16, v & 0xffff]
    rows = []
    for l in (p.stdout if isinstance(p.stdout, str) else (p.stdout or b'').decode()).splitlines():
        w = l.split()
        if w[0] == "open":
            rows.append(["open"] + [int(x) for x in w[1:]])
        elif w[0] == "mmap":
            rows.append(["mmap", half(int(w[1])), half(int(w[2]) & 0xffffffff)] + [int(x) for x in w[3:]])
        elif w[0] == "file":
            rows.append(["file", w[1], int(w[2])])
        elif w[0] == "loaded":
            rows.append(["loaded", int(w[1]), [int(x) for x in w[3:]], int(w[2])])
        elif w[0] in ("close", "exit"):
            rows.append([w[0], int(w[1])])
        else:
            rows.append([w[0]])
    rows.append(["gone", code])
    return rows
