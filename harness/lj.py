"""Calling the real liblj92 (compiled from the tree, with the address sanitizer) for LjTrace.tla."""
import json, os, subprocess
import vlib, netsim

_exe = None


def exe():
    global _exe
    if _exe is None:
        src = os.path.join(netsim.repo(), "liblj92")
        _exe = os.path.join(vlib.SCRATCH, "lj")
        here = os.path.dirname(os.path.abspath(__file__))
        r = subprocess.run(["gcc", "-O1", "-g", "-fsanitize=address,bounds", "-fno-sanitize-recover=bounds", "-w", "-I" + src, os.path.join(here, "lj.c"),
                            os.path.join(src, "lj92.c"), "-o", _exe] +
                           ["-Wl,--wrap=" + x for x in ("malloc", "calloc", "realloc", "free")], capture_output=True, text=True)
        if r.returncode:
            raise vlib.MachineryError("lj92.c does not compile: " + r.stderr[-2000:])
    return _exe


def call(cmds, timeout=120):
    """cmds: strings; list of results, a dict(crash=...) where the library crashed (each command is then run alone)"""
    def go(cs):
        return subprocess.run([exe()], input="\n".join(cs) + "\n", capture_output=True, text=True, timeout=timeout,
                              env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0"))
    try:
        r = go(cmds)
        lines = r.stdout.splitlines()
        if r.returncode == 0 and len(lines) == len(cmds):
            return [json.loads(x) for x in lines]
    except subprocess.TimeoutExpired:
        pass
    out = []
    for c in cmds:
        try:
            r = subprocess.run([exe()], input=c + "\n", capture_output=True, text=True, timeout=10,
                               env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            out.append(json.loads(r.stdout) if r.returncode == 0 else
                       dict(crash="\n".join(x for x in r.stderr.splitlines() if "ERROR" in x or " #" in x)[:1500] or "exit %d" % r.returncode))
        except subprocess.TimeoutExpired:
            out.append(dict(crash="does not return"))
    return out


def seq(l):
    return "%d %s" % (len(l), " ".join(map(str, l)))


def enc(w, h, bd, rl, skip, img, delin=()):
    return "E %d %d %d %d %d %s %s" % (w, h, bd, rl, skip, seq(img), seq(list(delin)))


def dec(wl, skip, nmem, canary, lin, data):
    return "D %d %d %d %d %s %s" % (wl, skip, nmem, canary, seq(list(lin)), seq(data))


def cells(n, ln, skip):
    """size of a tile of n samples"""
    return n + (n - 1) // ln * skip


def tile(px, ln, skip, r):
    out = []
    for i in range(0, len(px), ln):
        out += px[i:i + ln]
        if i + ln < len(px):
            out += [r.getrandbits(16) for _ in range(skip)]
    return out


def pred6(diffs, w, bd):
    """the picture whose predictor-6 differences are these (modulo 2^16)"""
    s = []
    for i, d in enumerate(diffs):
        c, y = i % w, i // w
        if y == 0:
            p = 1 << (bd - 1) if c == 0 else s[i - 1]
        elif c == 0:
            p = s[i - w]
        else:
            p = s[i - w] + ((s[i - 1] - s[i - w - 1]) >> 1)
        s.append((p + d) & 0xffff)
    return s


def tables(r, cats):
    """a valid table (counts per length, categories in code order) for these categories"""
    cats = list(cats)
    r.shuffle(cats)
    while True:
        left = 1 << 16
        lens = []
        style = r.choice(("flat", "steep", "mix", "long"))
        for i in range(len(cats)):
            lo = 1
            n = len(cats)
            if style == "flat":
                ln = max(1, n.bit_length())
            elif style == "steep":
                ln = i + 1
            elif style == "long":
                ln = r.randint(10, 16)
            else:
                ln = r.randint(1, 16)
            lens.append(min(16, max(lo, ln)))
        if sum(1 << (16 - x) for x in lens) < left:
            break
    order = sorted(range(len(cats)), key=lambda k: lens[k])
    cnt = [0] * 16
    for k in order:
        cnt[lens[k] - 1] += 1
    return cnt, [cats[k] for k in order]


def files(c, key, cases):
    """the specification writes the files of these pictures"""
    out = os.path.join(vlib.SCRATCH, "gen_%s" % key)
    r = vlib.tlc("LjGen", data=dict(cases=cases), invariants=("Emit",), env=dict(VP_OUT=out), workers=1)
    if not r.ok:
        raise vlib.MachineryError("LjGen failed: " + str(r.violated))
    fs = [json.load(open("%s.%d" % (out, k + 1))) for k in range(len(cases))]
    c.count("files_written_by_the_specification", len(fs))
    return fs


CANARY = 48879


def conform(c, key, traces, info, module="LjTrace"):
    """traces: see LjTrace.tla; a trace may be dict(crash=...)"""
    good = []
    for t, i in zip(traces, info):
        if "crash" in t:
            c.fail("crash " + key, "the library crashes: " + t["crash"][:200], dict(info=i, crash=t["crash"], cmd=t.get("cmd")))
        else:
            good.append((t, i))

    c.count("samples", sum(t["hd"][0] * t["hd"][1] * max(1, t["hd"][3]) for t, _ in good))
    big = [x for x in good if len(x[0]["mem"]) > 20000]     # one behaviour each: one TLC with one worker each

    def check(group, tag, **kw):
        def replay(r):
            k = int(vlib.statevar(r.trace[-1], "t"))
            return dict(info=group[k - 1][1], sample=int(vlib.statevar(r.trace[-1], "i")), trace=group[k - 1][0])
        if group:
            c.conform(module, key + tag, dict(traces=[t for t, _ in group]), ntraces=len(group), replayer=replay, view="View", alias="Shown", **kw)
    small = [x for x in good if len(x[0]["mem"]) <= 20000]
    vlib.tmap(lambda x: check(x[0], x[1], **x[2]), [(small, "", {})] + [([x], " %d" % k, dict(workers=1)) for k, x in enumerate(big)])
