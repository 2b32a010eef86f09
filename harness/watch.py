"""A complete design watched at its ports, with reads of the debug counters going on at any time (DebugTrace.tla)."""
DEBUG = 0x1000 << 2


class Watch:
    """a Sim that notes the port values of every cycle and reads counters over AXI-lite on its own"""

    def __init__(self, s, r, rate, hold=None):
        self.s, self.r, self.rate = s, r, rate
        self.rows, self.cur, self.inp = [], None, {}
        self.hold = hold        # (from, to, n): the sink stalls in these cycles, and n more if nothing moves any more

    def __getattr__(self, n):
        return getattr(self.s, n)

    def reset(self):
        self.s.reset()
        self.rows, self.cur, self.inp = [], None, {}

    def set(self, n, v):
        self.inp[n] = v
        self.s.set(n, v)

    def sets(self, **k):
        for n, v in k.items():
            self.set(n, v)

    def still(self, n):
        return len(self.rows) >= n and all(x == self.rows[-1] and not x[0] & 16 for x in self.rows[-n:])

    def skip(self, n):
        """n further cycles in which nothing moves"""
        self.s.set("i_arvalid", 0)
        self.s.cyclen(n)
        self.rows.append([self.rows[-1][0], 0, n])

    def cycle(self):
        s, c, quiet = self.s, self.cur, False
        if self.hold and len(self.rows) >= self.hold[0]:
            a, b, n = self.hold
            self.set("i_busy_in", 1)
            quiet = True
            if len(self.rows) >= b:
                self.hold = None
                if c is None and self.still((b - a) // 2):
                    self.skip(n)
        if c is None and not quiet and self.r.random() < self.rate:
            c = self.cur = dict(k=self.r.randrange(8), at=None, taken=False)
        if c is not None:
            s.sets(i_arvalid=int(not c["taken"]), i_araddr=DEBUG + 4 * c["k"], i_rready=1)
        s.cycle()
        row = [self.inp.get("i_valid_in", 0) | s.get("o_nready") << 1 | s.get("o_valid_out") << 2 | self.inp.get("i_busy_in", 0) << 3 |
               s.get("o_end_out") << 4]
        if c is not None:
            if not c["taken"] and s.get("o_arready"):
                c["taken"], c["at"] = True, len(self.rows)
            if c["taken"] and s.get("o_rvalid"):
                row += [c["k"] + 1, s.get("o_rdata") & 0x7fffffff, len(self.rows) - c["at"], s.get("o_rresp")]
                s.set("i_arvalid", 0)
                self.cur = None
        self.rows.append(row)
