---------------------------- MODULE AxiLiteTrace ----------------------------
(* Recorded runs of a real AXI-lite slave against AxiLite.tla.               *)
(* D.traces[t] = [P, tab, rows]; row = <<flags, out, live, parts...>>: flags *)
(* 1 arvalid 2 arready 4 rvalid 8 rready 16 awvalid 32 awready 64 wvalid     *)
(* 128 wready 256 bvalid 512 bready, 1024 reset, 2048 end of the run; out    *)
(* and live index D.outs and D.lives; then, in this order and only if the    *)
(* valid flag is set: read address, read data and code, write address,       *)
(* write data and strobe, write code.                                        *)
EXTENDS AxiLite, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, e
F(row, n) == (row[1] \div n) % 2 = 1
N(b) == IF b THEN 1 ELSE 0
Cyc(row) ==
  LET p1 == 4
      p2 == p1 + N(F(row, 1))
      p3 == p2 + N(F(row, 4))
      p4 == p3 + N(F(row, 16))
      p5 == p4 + N(F(row, 64))
  IN [arv |-> F(row, 1), arr |-> F(row, 2), rv |-> F(row, 4), rr |-> F(row, 8), awv |-> F(row, 16), awr |-> F(row, 32),
      wv |-> F(row, 64), wr |-> F(row, 128), bv |-> F(row, 256), br |-> F(row, 512),
      ara |-> IF F(row, 1) THEN row[p1] ELSE 0,
      rd |-> IF F(row, 4) THEN SubSeq(row[p2], 1, 4) ELSE <<>>, rresp |-> IF F(row, 4) THEN row[p2][5] ELSE 0,
      awa |-> IF F(row, 16) THEN row[p3] ELSE 0,
      wd |-> IF F(row, 64) THEN SubSeq(row[p4], 1, 4) ELSE <<>>, ws |-> IF F(row, 64) THEN row[p4][5] ELSE 0,
      bresp |-> IF F(row, 256) THEN row[p5] ELSE 0,
      out |-> D.outs[row[2]], live |-> D.lives[row[3]]]
Init == t \in 1..Len(T) /\ i = 0 /\ s = A0(T[t].P, T[t].tab) /\ e = "ok"
Next ==
  /\ e = "ok"
  /\ i < Len(T[t].rows)
  /\ t' = t
  /\ i' = i + 1
  /\ LET row == T[t].rows[i + 1]
         P == T[t].P
     IN IF F(row, 1024) THEN s' = AReset(P, s) /\ e' = "ok"
        ELSE IF F(row, 2048) THEN s' = s /\ e' = AFinal(s)
        ELSE LET x == Cyc(row) IN e' = AErr(P, s, x) /\ s' = AEff(P, s, x)
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
