"""Common machinery of the checks: scratch space, TLC runs, evidence, verdicts."""
import atexit, concurrent.futures as cf, json, multiprocessing, os, random, re, shutil, subprocess, sys, tempfile, threading, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
SPEC = os.path.join(ROOT, "spec")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import netsim
from netsim import ElabError, MachineryError

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = max(1, min(8, os.cpu_count() or 1))
_T0 = time.time()

SCRATCH = tempfile.mkdtemp(prefix="vp_%d_" % os.getpid())
_OWNER = os.getpid()


def _clean():
    if os.getpid() == _OWNER:
        shutil.rmtree(SCRATCH, ignore_errors=True)


atexit.register(_clean)


def quick():
    return TIER != "thorough"


def pick(q, t):
    return q if quick() else t


def rng(*tag):
    return random.Random("%d/%s" % (SEED, "/".join(map(str, tag))))


def say(*a):
    print(*a)
    sys.stdout.flush()


def tick(what):
    if os.environ.get("VP_VERBOSE"):
        say("  [%.1f s] %s" % (time.time() - _T0, what))


# ---------------------------------------------------------------- parallel helpers
def pmap(fn, items, procs=NCPU):
    """fn over items in forked processes (simulators live in the child)."""
    items = list(items)
    if procs <= 1 or len(items) <= 1:
        return [fn(x) for x in items]
    ctx = multiprocessing.get_context("fork")
    with cf.ProcessPoolExecutor(max_workers=min(procs, len(items)), mp_context=ctx) as ex:
        return list(ex.map(fn, items))


def tmap(fn, items, n=NCPU):
    items = list(items)
    if len(items) <= 1:
        return [fn(x) for x in items]
    with cf.ThreadPoolExecutor(max_workers=n) as ex:
        return list(ex.map(fn, items))


def sim(design, cfg=None):
    return netsim.build(design, SCRATCH, cfg)


def build_all(list_):
    """Build many (design, cfg) in parallel; errors are raised by the later sim()."""
    def one(x):
        try:
            netsim.build(x[0], SCRATCH, x[1])
        except ElabError:
            pass
    tmap(one, list_)


# ---------------------------------------------------------------- TLC
class TlcResult:
    pass


_lock = threading.Lock()
_n = [0]


def tlc(module, constants=None, invariants=("OK",), properties=(), init="Init", next_="Next", data=None, spec=None,
        workers=None, view=None, constraint=None, deadlock=False, heap="6g", timeout=800, extra=(), env=None, symmetry=None,
        post=None, alias=None, simulate=None):
    """Run TLC on spec/<module>.tla.  Returns a TlcResult: ok, violated, states, distinct, trace(list of text)."""
    with _lock:
        _n[0] += 1
        d = os.path.join(SCRATCH, "tlc%d" % _n[0])
    os.makedirs(d)
    cfg = []
    if spec:
        cfg.append("SPECIFICATION " + spec)
    else:
        cfg += ["INIT " + init, "NEXT " + next_]
    for k, v in (constants or {}).items():
        cfg.append("CONSTANT %s = %s" % (k, v))
    for i in invariants:
        cfg.append("INVARIANT " + i)
    for i in properties:
        cfg.append("PROPERTY " + i)
    if view:
        cfg.append("VIEW " + view)
    if symmetry:
        cfg.append("SYMMETRY " + symmetry)
    if constraint:
        cfg.append("CONSTRAINT " + constraint)
    if post:
        cfg.append("POSTCONDITION " + post)
    if alias:
        cfg.append("ALIAS " + alias)
    cfg.append("CHECK_DEADLOCK " + ("TRUE" if deadlock else "FALSE"))
    cp = os.path.join(d, "m.cfg")
    open(cp, "w").write("\n".join(cfg) + "\n")
    e = dict(os.environ)
    if data is not None:
        dp = os.path.join(d, "data.json")
        json.dump(data, open(dp, "w"), separators=(",", ":"))
        e["VP_DATA"] = dp
    e.update(env or {})
    w = workers or NCPU
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-XX:ParallelGCThreads=%d" % max(2, w),
           "-DTLA-Library=" + SPEC, "-cp", JAR, "tlc2.TLC", "-workers", str(w), "-metadir", d, "-noGenerateSpecTE",
           "-config", cp]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, env=e, timeout=timeout, cwd=d)
    except subprocess.TimeoutExpired:
        raise MachineryError("TLC timeout on " + module)
    out = p.stdout
    r = TlcResult()
    r.out = out
    r.module = module
    r.wall = time.time() - t0
    r.ok = "Model checking completed. No error has been found." in out or (simulate and p.returncode == 0)
    r.violated = None
    m = re.search(r"Invariant (\S+) is violated", out)
    if m:
        r.violated = m.group(1)
    m = re.search(r"(?:Temporal properties were violated|Property (\S+) is violated|Action property (\S+) (?:of|is))", out)
    if m and not r.violated:
        r.violated = m.group(1) or m.group(2) or "temporal"
    if "Deadlock reached" in out:
        r.violated = "Deadlock"
    m = re.search(r"The invariant of (\S+) is equal to FALSE", out)
    if m:
        r.violated = m.group(1)
    m = re.search(r"Assumption (.*) is false", out)
    if m:
        r.violated = "Assumption " + m.group(1)
    if "Postcondition" in out and "is false" in out or "Post condition" in out and "false" in out:
        r.violated = r.violated or "Postcondition"
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    r.states, r.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m:
        m = re.findall(r"Progress: (\d+) states checked", out)
        if m:
            r.states = r.distinct = int(m[-1])
        m = re.findall(r"The number of states generated: (\d+)", out)
        if m:
            r.states = r.distinct = int(m[-1])
    r.trace = re.findall(r"^State \d+:.*?\n(.*?)(?=^State \d+:|^\d+ states generated|^Error|\Z)", out, re.M | re.S)
    if not r.trace:
        m = re.search(r"violated by the initial state:\n(.*?)(?=\n\n|\Z)", out, re.S)
        if m:
            r.trace = [m.group(1)]
    tick("TLC %s %.1f s %d states" % (module, r.wall, r.distinct))
    if not r.ok and not r.violated and data is not None and "Attempted to" in out and "OutOfMemory" not in out \
            and "StackOverflow" not in out:
        # a recorded value outside the domain on which the specification is defined
        r.violated = "outside the specification's domain"
        return r
    if not r.ok and not r.violated:
        raise MachineryError("TLC failed on %s:\n%s" % (module, "\n".join(re.findall(r"^(?:Error|\*\*\* Errors).*(?:\n.*){0,6}", out, re.M)[:6])[:4000] + out[-800:] + p.stderr[-500:]))
    if data is not None:
        os.unlink(dp)
    return r


def statevar(text, var):
    m = re.search(r"^(?:/\\ )?%s = (.*?)(?=^/\\ |\Z)" % re.escape(var), text, re.M | re.S)
    return m.group(1).strip() if m else None


# ---------------------------------------------------------------- verdicts
def known_findings(pid):
    out = []
    p = os.path.join(ROOT, "known_findings.txt")
    for l in open(p) if os.path.exists(p) else ():
        l = l.strip()
        m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
        if m and m.group(1) == pid:
            out.append((m.group(2), m.group(3)))
    return out


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.states = self.transitions = self.traces = 0
        self.samples = []
        self.assumptions = []
        self.extra = {}
        self.viol = []
        self.errors = []
        self.known_hit = set()
        self.known = dict(known_findings(pid))
        self.lock = threading.Lock()
        say("%s: tier=%s seed=%d repo=%s" % (pid, TIER, SEED, netsim.repo()))

    def add(self, r, traces=0):
        with self.lock:
            self.states += r.distinct
            self.transitions += r.states
            self.traces += traces

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def count(self, key, n=1):
        with self.lock:
            self.extra[key] = self.extra.get(key, 0) + n

    def fail(self, key, what, replay=None):
        """A violation; `key` names the failing case (matched against the known findings)."""
        with self.lock:
            if key in self.known:
                if key not in self.known_hit:
                    self.known_hit.add(key)
                    say("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[key]))
                return
            d = os.path.join(ROOT, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s_%d_%d.json" % (self.pid, os.getpid(), len(self.viol)))
            json.dump({"property": self.pid, "key": key, "what": what, "seed": SEED, "tier": TIER, "replay": replay},
                      open(p, "w"), indent=1, default=str)
            self.viol.append((key, what, p))
            if len(self.viol) <= 5:
                say("VIOLATION property=%s replay=%s" % (self.pid, p))
                say("  %s: %s" % (key, str(what)[:600]))

    def closed(self, module, **kw):
        """A closed design model: must hold (its failure is a failure of the specification)."""
        r = tlc(module, **kw)
        self.add(r)
        self.count("design_model_states", r.distinct)
        if not r.ok:
            raise MachineryError("design model %s violated %s\n%s" % (module, r.violated, "\n".join(r.trace[-2:])))
        return r

    def conform(self, module, key, data, ntraces=0, replayer=None, invariants=("OK",), **kw):
        """A conformance run: a violated invariant is a violation of the property by the code."""
        try:
            r = tlc(module, data=data, invariants=invariants, **kw)
        except MachineryError as ex:     # the other runs may still find something
            say("ERROR (machinery): %s" % ex)
            self.errors.append(str(ex))
            return None
        self.add(r, ntraces)
        if not r.ok:
            last = r.trace[-1] if r.trace else ""
            rp = {"module": module, "violated": r.violated, "last_states": r.trace[-3:]}
            if replayer:
                try:
                    rp["replay"] = replayer(r)
                except Exception as ex:
                    rp["replay"] = "no replay: %r" % ex
            err = statevar(last, "err") or statevar(last, "e") or r.violated
            self.fail(key, "%s: %s (%s)" % (module, r.violated, err), rp)
        return r

    def finish(self):
        cov = dict(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier="quick" if quick() else "thorough", seed=SEED, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - _T0, 2), violations=len(self.viol))
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(ROOT, "evidence", self.pid + ".json"), "w"), indent=1)
        if self.viol:
            say("%s: %d violation(s)" % (self.pid, len(self.viol)))
            return 1
        say("%s: held: %d states, %d transitions, %d traces, %.1f s" % (self.pid, self.states, self.transitions, self.traces,
                                                                      time.time() - _T0))
        return 0


def run(pid, fn):
    c = Check(pid)
    try:
        fn(c)
    except ElabError as ex:
        c.fail("elaboration", "does not elaborate: %s" % ex)
    except MachineryError as ex:
        say("ERROR (machinery): %s" % ex)
        if not c.viol:
            sys.exit(3)
    except Exception:
        traceback.print_exc()
        if not c.viol:
            sys.exit(3)
    if c.errors and not c.viol:
        sys.exit(3)
    sys.exit(c.finish())


# ---------------------------------------------------------------- state graphs of real modules
class Graph:
    pass


def explore(s, toks, outs, maxn=60000, legal=None, env0=None, envstep=None):
    """All states of the real module reachable under the input tokens `toks` (list of dicts).

    outs: output names to record.  Optional environment automaton: legal(env, k) -> bool
    restricts the tokens, envstep(env, k, out tuple) -> env.  Returns a Graph with
    out: list of output tuples, nodes: list of lists of (k, out id, next), 1-based ids."""
    s.reset()
    import ctypes
    nin = len(s.inb)
    vecs = []
    for t in toks:
        for i in range(nin):
            s.inb[i] = 0
        for k, v in t.items():
            s.set(k, v)
        vecs.append((ctypes.c_ulong * nin)(*list(s.inb)))
    lay = [s.ol[o] for o in outs]
    init = (s.save(), env0)
    idx = {init: 0}
    order = [init]
    outid = {}
    outl = []
    rawmap = {}
    nodes = []
    lib, outb, buf = s.lib, s.outb, s.buf
    i = 0
    cut = False
    while i < len(order):
        snap, env = order[i]
        i += 1
        row = []
        for k, v in enumerate(vecs):
            if legal and not legal(env, k):
                continue
            lib.load(snap)
            lib.cycle(v, outb)
            raw = bytes(outb)
            o = rawmap.get(raw)
            if o is None:
                tup = []
                for off, nw, w in lay:
                    x = 0
                    for q in range(nw):
                        x |= outb[off + q] << (64 * q)
                    tup.append(x)
                tup = tuple(tup)
                o = outid.get(tup)
                if o is None:
                    o = outid[tup] = len(outl)
                    outl.append(tup)
                rawmap[raw] = o
            lib.save(buf)
            nx = (buf.raw, envstep(env, k, outl[o]) if envstep else None)
            j = idx.get(nx)
            if j is None:
                j = idx[nx] = len(order)
                order.append(nx)
                if j >= maxn:
                    cut = True
                    break
            row.append((k + 1, o + 1, j + 1))
        if cut:
            break
        nodes.append(row)
    # states beyond the limit are kept without successors: everything up to them is still explored
    nodes += [[] for _ in range(len(order) - len(nodes))]
    g = Graph()
    g.truncated = cut
    g.n = len(nodes)
    g.nodes, g.out, g.toks, g.outs = nodes, outl, toks, outs
    return g


def minimise(g):
    """Quotient of the graph by bisimilarity (same outputs for every token): exact, smaller."""
    n = g.n
    blk = [0] * n
    nb = 1
    while True:
        sig = {}
        new = [0] * n
        for i in range(n):
            key = (blk[i], tuple((k, o, blk[j - 1]) for k, o, j in g.nodes[i]))
            b = sig.get(key)
            if b is None:
                b = sig[key] = len(sig)
            new[i] = b
        blk = new
        if len(sig) == nb:
            break
        nb = len(sig)
    rep = {}
    for i in range(n):
        rep.setdefault(blk[i], i)
    order = [blk[0]]
    pos = {blk[0]: 1}
    rows = []
    q = 0
    while q < len(order):
        b = order[q]
        q += 1
        row = []
        for k, o, j in g.nodes[rep[b]]:
            c = blk[j - 1]
            if c not in pos:
                pos[c] = len(order) + 1
                order.append(c)
            row.append((k, o, pos[c]))
        rows.append(row)
    h = Graph()
    h.truncated = g.truncated
    h.n = len(rows)
    h.nodes, h.out, h.toks, h.outs = rows, g.out, g.toks, g.outs
    return h


def path_tokens(r, var="k"):
    """token numbers along a TLC counterexample (variable `var` = last token, 0 initially)"""
    l = []
    for st in r.trace:
        v = statevar(st, var)
        if v and int(v) > 0:
            l.append(int(v))
    return l


def replay_tokens(s, toks, ks, outs):
    s.reset()
    rows = []
    for k in ks:
        s.reset_inputs() if hasattr(s, "reset_inputs") else None
        for n in s.il:
            s.set(n, 0)
        for n, v in toks[k - 1].items():
            s.set(n, v)
        s.cycle()
        rows.append({"in": toks[k - 1], "out": {o: s.get(o) for o in outs}})
    return rows
