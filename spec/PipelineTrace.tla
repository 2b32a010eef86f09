--------------------------- MODULE PipelineTrace ---------------------------
(* Recorded runs of the real core against Pipeline.tla.                      *)
(* D.traces[t] = [cfg, px: the offered pixels in order, rows]; a row is      *)
(* <<flags, data byte 1, .., data byte n>>, flags = vin + 2*nready + 4*vout  *)
(* + 8*busy + 16*end + 32*reset + 64*(driver waits for everything here).     *)
EXTENDS Pipeline, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, base, e
vars == <<t, i, s, base, e>>

Bit(f, n) == (f \div Pow2(n)) % 2 = 1
Cycle(tr, st, b, row) ==
  LET f == row[1]
      c == tr.cfg
      o == b + st.acc
  IN [vin |-> Bit(f, 0), nready |-> Bit(f, 1), vout |-> Bit(f, 2), busy |-> Bit(f, 3), end |-> Bit(f, 4),
      px |-> IF Bit(f, 0) /\ o + c.ps <= Len(tr.px) THEN SubSeq(tr.px, o + 1, o + c.ps) ELSE [k \in 1..c.ps |-> 0],
      data |-> IF Bit(f, 2) THEN Tail(row) ELSE <<>>]

Init == t \in 1..Len(T) /\ i = 0 /\ s = New(T[t].cfg) /\ base = 0 /\ e = "ok"
Next ==
  /\ e = "ok"
  /\ i < Len(T[t].rows)
  /\ LET tr == T[t]
         row == tr.rows[i + 1]
     IN IF Bit(row[1], 5)       \* reset: the driver starts the next frame
        THEN s' = New(tr.cfg) /\ base' = base + s.acc /\ e' = "ok"
        ELSE IF Bit(row[1], 6)
        THEN s' = s /\ base' = base /\ e' = Final(tr.cfg, s)
        ELSE LET x == Cycle(tr, s, base, row)
             IN /\ e' = Err(tr.cfg, s, x)
                /\ s' = Eff(tr.cfg, s, x)
                /\ base' = base
  /\ i' = i + 1
  /\ t' = t
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
