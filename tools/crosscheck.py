"""Cross-check of harness/netsim.py (RTLIL -> yosys -> C) against nMigen's own simulator on random modules.
Run by hand when netsim.py changes:  python3 tools/crosscheck.py [count] [first seed]"""
import json, os, re, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness")
sys.path.insert(0, H)
import netsim
n, first = int((sys.argv + ["40"])[1]), int((sys.argv + ["", "1"])[2] or 1)


def one(seed):
    with tempfile.TemporaryDirectory() as d:
        f = lambda e: os.path.join(d, "x" + e)
        p = subprocess.run([netsim.PYPY, "-W", "ignore", os.path.join(H, "..", "tools", "crosscheck_gen.py"), str(seed), f(".il"), f(".j")] + sys.argv[3:],
                           capture_output=True, text=True)
        if p.returncode:
            return "gen " + p.stderr[-300:]
        try:
            netsim._yosys(f(".il"), f(".json"))
            g = netsim.Gen(f(".json"))
            src = g.gen()
        except netsim.MachineryError as ex:
            return "machinery: %s" % ex
        open(f(".c"), "w").write(src)
        subprocess.run(["clang", "-std=c2x", "-O1", "-w", "-shared", "-fPIC", "-o", f(".so"), f(".c")], check=True)
        s = netsim.Sim(f(".so"), {"in": g.in_layout, "out": g.out_layout, "n_in": g.n_in, "n_out": g.n_out})
        j = json.load(open(f(".j")))
        if os.environ.get("COMB"):
            ev = "; ".join("eval " + " ".join("-set i_%d %d'd%d" % (k, j["w"][k], x) for k, x in enumerate(v)) +
                           " " + " ".join("-show o_%d" % k for k in range(5)) for v in j["vec"])
            q = subprocess.run(["yosys", "-p", "read_rtlil %s; hierarchy -auto-top; proc; flatten; memory; %s" % (f(".il"), ev)], capture_output=True, text=True)
            val = re.findall(r"Eval result: \\(o_\d) = (\d+'[01x]+|\d+)", q.stdout)
            if len(val) != 5 * len(j["vec"]):
                return "eval %d %s" % (len(val), q.stderr[-200:])
            j["exp"] = [[b if "x" in b else int(b.split("'")[1], 2) if "'" in b else int(b) for _, b in val[5 * k:5 * k + 5]] for k in range(len(j["vec"]))]
        s.cycle()
        s.cycle()
        for c, (v, e) in enumerate(zip(j["vec"], j["exp"])):
            for k, x in enumerate(v):
                if "i_%d" % k in s.il:
                    s.set("i_%d" % k, x)
            s.cycle()
            got = [s.get("o_%d" % k) if "o_%d" % k in s.ol else None for k in range(5)]
            if got != e:
                return "cycle %d: netsim %s, nMigen %s" % (c, got, e)
    return "ok"


with ThreadPoolExecutor(6) as ex:
    res = list(ex.map(one, range(first, first + n)))
for k, x in enumerate(res):
    if x != "ok":
        print(first + k, x)
print("%d of %d agree" % (sum(x == "ok" for x in res), n))
