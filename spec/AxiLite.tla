------------------------------ MODULE AxiLite ------------------------------
(***************************************************************************)
(* An AXI-lite slave with a register file behind it, as its master sees it. *)
(* One step is one clock cycle.                                            *)
(*                                                                         *)
(* P = [kind: "core" or "dma", bd, debug]                                  *)
(* x = [arv, ara, arr, rv, rr, rd, rresp,      read channels               *)
(*      awv, awa, awr, wv, wd, ws, wr, bv, br, bresp,   write channels     *)
(*      out: register outputs (<<>>: not observed), live: readable inputs]              *)
(* valid/ready flags are BOOLEAN, addresses are word addresses modulo      *)
(* 2^13, data are byte sequences <<lowest, ..., highest>>.                 *)
(*                                                                         *)
(* State: rq   accepted reads not yet answered: <<address, answers>>; the  *)
(*             answer must be one that was right at some time between the  *)
(*             acceptance and the answer                                   *)
(*        wa, wd, wb  accepted write addresses, write data, and the        *)
(*             answers still owed (sets of allowed codes)                  *)
(*        regs, old  the register file; and before the write in flight     *)
(*        hold   <<data, code>> of a read answer that was not yet taken    *)
(*        bhold  the same for a write answer                               *)
(*        rw, ww  cycles a cooperating master has been waiting             *)
(***************************************************************************)
EXTENDS Codec

Bound == 24
OKAY == 0
SLVERR == 2
DECERR == 3
Free == <<>>
AnyCode == -1
Zero4 == <<0, 0, 0, 0>>
Bytes4(v) == <<v % 256, (v \div 256) % 256, (v \div 65536) % 256, v \div 16777216>>
BitOf(v, k) == (v \div Pow2(k)) % 2

(* ---- the register files ---- *)
(* a table entry: code length (5 bits) above 16+bd bits holding the code, shifted to leave room for the extra bits *)
EntryBit(bd, tab, cat, k) ==
  LET sh == IF cat = 16 THEN 0 ELSE cat IN
  IF k >= 16 + bd THEN (IF k - 16 - bd < 5 THEN BitOf(tab[cat + 1][2], k - 16 - bd) ELSE 0)
  ELSE IF k >= sh /\ k - sh < 30 THEN BitOf(tab[cat + 1][1], k - sh) ELSE 0
EntryByte(bd, tab, cat, j) == FoldLeft(LAMBDA a, k : a * 2 + EntryBit(bd, tab, cat, 8 * j + 8 - k), 0, [k \in 1..8 |-> k])
TableWords(bd, tab) ==
  [w \in 1..(2 * (bd + 1)) |-> LET cat == (w - 1) \div 2
                                   b == 4 * ((w - 1) % 2)
                               IN [j \in 1..4 |-> EntryByte(bd, tab, cat, b + j - 1)]]
(* bits of byte j (0..7) of an entry that exist *)
Kept(bd, j, v) == LET n == bd + 21 - 8 * j IN IF n <= 0 THEN 0 ELSE IF n >= 8 THEN v ELSE v % Pow2(n)

Regs0(P, tab) == IF P.kind = "core"
                 THEN [hw |-> Zero4, lim |-> Zero4, tab |-> TableWords(P.bd, tab), dbg |-> [k \in 1..8 |-> 0]]
                 ELSE [r |-> <<Zero4, Zero4, Zero4>>]
AfterReset(P, regs) == IF P.kind = "core" THEN [regs EXCEPT !.hw = Zero4, !.lim = Zero4, !.dbg = [k \in 1..8 |-> 0]]
                       ELSE [r |-> <<Zero4, Zero4, Zero4>>]

Sel(a, n) == BitOf(a, n) = 1
TableIdx(a) == a % 64
InTable(P, a) == Sel(a, 10) /\ TableIdx(a) < 2 * (P.bd + 1)

(* the answer to a read now *)
ReadOf(P, g, live, a) ==
  IF P.kind = "core" THEN
       (IF InTable(P, a) THEN <<OKAY, g.tab[TableIdx(a) + 1]>>
        ELSE IF Sel(a, 11) THEN <<OKAY, IF a % 2 = 0 THEN g.hw ELSE g.lim>>
        ELSE IF P.debug /\ Sel(a, 12) THEN <<OKAY, Bytes4(g.dbg[(a % 8) + 1])>>
        ELSE <<DECERR, Free>>)
  ELSE IF Sel(a, 10) THEN
       (IF a % 16 < 3 THEN <<OKAY, g.r[(a % 16) + 1]>>
        ELSE IF a % 16 < 12 THEN <<OKAY, live[(a % 16) - 2]>>
        ELSE <<AnyCode, Free>>)
  ELSE <<DECERR, Free>>

Strobed(old, d, ws) == [j \in 1..4 |-> IF BitOf(ws, j - 1) = 1 THEN d[j] ELSE old[j]]
(* a write: <<register file afterwards, allowed codes>> *)
WriteOf(P, g, a, d, ws) ==
  IF P.kind = "core" THEN
       (IF InTable(P, a) THEN
           LET k == TableIdx(a) + 1
               b == 4 * (TableIdx(a) % 2)
               v == Strobed(g.tab[k], d, ws)
           IN <<[g EXCEPT !.tab[k] = [j \in 1..4 |-> Kept(P.bd, b + j - 1, v[j])]], {OKAY}>>
        ELSE IF Sel(a, 11) THEN
           (IF a % 2 = 0 THEN <<[g EXCEPT !.hw = Strobed(g.hw, d, ws)], {OKAY}>>
            ELSE <<[g EXCEPT !.lim = [Strobed(g.lim, d, ws) EXCEPT ![4] = 0]], {OKAY}>>)
        ELSE IF P.debug /\ Sel(a, 12) THEN <<g, {SLVERR}>>
        ELSE <<g, {DECERR}>>)
  ELSE IF Sel(a, 10) THEN
       (IF a % 16 < 3 THEN <<[g EXCEPT !.r[(a % 16) + 1] = Strobed(g.r[(a % 16) + 1], d, ws)], {OKAY}>>
        ELSE IF a % 16 < 12 THEN <<g, IF ws = 0 THEN {OKAY, SLVERR} ELSE {SLVERR}>>
        ELSE <<g, {OKAY, SLVERR, DECERR}>>)
  ELSE <<g, {DECERR}>>

(* what the registers drive *)
OutOf(P, g) == IF P.kind = "core" THEN g.hw \o SubSeq(g.lim, 1, 3) ELSE g.r[1] \o g.r[2] \o g.r[3]
(* live inputs: the debug counters count their enables *)
Tick(P, g, live) == IF P.kind = "core" /\ P.debug
                    THEN [g EXCEPT !.dbg = [k \in 1..8 |-> g.dbg[k] + (IF live[k] = 1 THEN 1 ELSE 0)]]
                    ELSE g

(* ---- the protocol ---- *)
A0(P, tab) == [rq |-> <<>>, wa |-> <<>>, wd |-> <<>>, wb |-> <<>>, regs |-> Regs0(P, tab), old |-> Regs0(P, tab),
               hold |-> <<>>, bhold |-> <<>>, rw |-> 0, ww |-> 0]
AReset(P, s) == LET g == AfterReset(P, s.regs) IN
                [rq |-> <<>>, wa |-> <<>>, wd |-> <<>>, wb |-> <<>>, regs |-> g, old |-> g,
                 hold |-> <<>>, bhold |-> <<>>, rw |-> 0, ww |-> 0]

Fits(ans, x) == \E v \in ans : /\ v[1] = AnyCode \/ v[1] = x.rresp
                               /\ v[2] = Free \/ v[2] = x.rd
(* answers of the oldest read including this cycle *)
Answers(P, s, x) == s.rq[1][2] \cup {ReadOf(P, s.regs, x.live, s.rq[1][1])}

AErr(P, s, x) ==
  IF s.hold # <<>> /\ ~(x.rv /\ <<x.rd, x.rresp>> = s.hold) THEN "read answer not held"
  ELSE IF s.bhold # <<>> /\ ~(x.bv /\ x.bresp = s.bhold[1]) THEN "write answer not held"
  ELSE IF x.rv /\ s.rq = <<>> THEN "answer to no read"
  ELSE IF x.rv /\ x.rr /\ ~Fits(Answers(P, s, x), x) THEN
       (IF \E v \in Answers(P, s, x) : v[1] = AnyCode \/ v[1] = x.rresp THEN "read answer has wrong data" ELSE "read answer has wrong code")
  ELSE IF x.bv /\ s.wb = <<>> THEN "answer to no write"
  ELSE IF x.bv /\ x.br /\ x.bresp \notin s.wb[1] THEN "write answer has wrong code"
  ELSE IF ~(x.out = <<>> \/ x.out = OutOf(P, s.regs) \/ x.out = OutOf(P, s.old)) THEN "register output wrong"
  ELSE IF s.rw > Bound THEN "read is never answered"
  ELSE IF s.ww > Bound THEN "write is never answered"
  ELSE "ok"

AEff(P, s, x) ==
  LET rdone == x.rv /\ x.rr
      wdone == x.bv /\ x.br
      (* reads *)
      r1 == [k \in 1..Len(s.rq) |-> <<s.rq[k][1], s.rq[k][2] \cup {ReadOf(P, s.regs, x.live, s.rq[k][1])}>>]
      r2 == IF rdone THEN Tail(r1) ELSE r1
      r3 == IF x.arv /\ x.arr THEN Append(r2, <<x.ara, {ReadOf(P, s.regs, x.live, x.ara)}>>) ELSE r2
      (* writes *)
      wa == IF x.awv /\ x.awr THEN Append(s.wa, x.awa) ELSE s.wa
      wd == IF x.wv /\ x.wr THEN Append(s.wd, <<x.wd, x.ws>>) ELSE s.wd
      go == wa # <<>> /\ wd # <<>>
      w == WriteOf(P, s.regs, wa[1], wd[1][1], wd[1][2])
      wb1 == IF wdone THEN Tail(s.wb) ELSE s.wb
      g == Tick(P, IF go THEN w[1] ELSE s.regs, x.live)
      inflight == s.wa # <<>> \/ s.wb # <<>>
      reading == x.arv \/ s.rq # <<>>
      writing == x.awv \/ inflight
      wcan == (x.wv \/ s.wd # <<>> \/ s.wb # <<>>) /\ x.br
  IN [rq |-> r3,
      wa |-> IF go THEN Tail(wa) ELSE wa,
      wd |-> IF go THEN Tail(wd) ELSE wd,
      wb |-> IF go THEN Append(wb1, w[2]) ELSE wb1,
      regs |-> g,
      old |-> IF go THEN s.regs ELSE IF wb1 = <<>> THEN g ELSE s.old,
      hold |-> IF x.rv /\ ~x.rr THEN <<x.rd, x.rresp>> ELSE <<>>,
      bhold |-> IF x.bv /\ ~x.br THEN <<x.bresp>> ELSE <<>>,
      rw |-> IF reading /\ x.rr /\ ~rdone /\ ~inflight THEN s.rw + 1 ELSE 0,
      ww |-> IF writing /\ wcan /\ ~wdone /\ (inflight \/ ~reading) THEN s.ww + 1 ELSE 0]

AFinal(s) == IF s.rq = <<>> /\ s.wa = <<>> /\ s.wd = <<>> /\ s.wb = <<>> THEN "ok" ELSE "request without an answer"
=============================================================================
