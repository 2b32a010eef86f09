"""The board test program, compiled with a modelled board (board.cpp)."""
import os, re, shutil, subprocess
import netsim, vlib

_exe = {}
VARIANTS = {"": {}, "32": {"INPUT_LENGTH": 32}, "noaxi": {"AXI_LITE_ENABLE": 0}, "moved": {"SOURCE_BASE": 0x08000000, "DEST_BASE": 0x20000000, "CORE_BIT_DEPTH": 8}}


def exe(variant=""):
    """the program with its configuration header, or with other values of its switches"""
    if variant not in _exe:
        d = os.path.join(vlib.SCRATCH, "board" + variant)
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(os.path.join(netsim.repo(), "software", "src"), d)
        p = os.path.join(d, "config.h")
        t = open(p).read()
        for k, v in VARIANTS[variant].items():
            t, n = re.subn(r"(?m)^(\s*#\s*define\s+%s\b).*$" % k, r"\1 (%d)" % v, t)
            if n != 1:
                raise vlib.MachineryError("config.h: no " + k)
        open(p, "w").write(t)
        shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "board.cpp"), d)
        fs = [f for f in sorted(os.listdir(d)) if f.endswith(".cpp") and f != "mmap_handler.cpp"]
        # the program's sources announce their loads and stores, the driver does not
        san = ["-fsanitize=thread", "--param", "tsan-distinguish-volatile=1"]
        ps = [subprocess.Popen(["g++", "-std=c++11", "-O1", "-w", "-I" + d, "-c", os.path.join(d, f), "-o", os.path.join(d, f + ".o")] +
                               ([] if f == "board.cpp" else san),
                               stderr=subprocess.PIPE, text=True) for f in fs]
        for p in ps:
            e = p.communicate()[1]
            if p.returncode:
                raise vlib.MachineryError("the board program does not compile:\n" + e[-2000:])
        subprocess.run(["objcopy", "--redefine-sym", "main=xt_main", os.path.join(d, "xilinx_test.cpp.o")], check=True)
        p = subprocess.run(["g++"] + [os.path.join(d, f + ".o") for f in fs] + ["-o", os.path.join(d, "board")], capture_output=True, text=True)
        if p.returncode:
            raise vlib.MachineryError("the board program does not link:\n" + p.stderr[-2000:])
        _exe[variant] = os.path.join(d, "board")
    return _exe[variant]


def blob(b):
    return "%d %s" % (len(b), " ".join("%02x" % x for x in b))


def call(variant, line, timeout=300):
    """one operation in a fresh process -> (exit code or None, output lines)"""
    try:
        p = subprocess.run([exe(variant)], input=line + "\n", capture_output=True, text=True, timeout=timeout, errors="replace")
    except subprocess.TimeoutExpired as e:
        return None, []
    return p.returncode, p.stdout.splitlines()
