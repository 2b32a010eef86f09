---------------------------- MODULE FramingTrace ----------------------------
(* Recorded runs of the real complete designs against Framing.tla.           *)
(* D.traces[t] = [frames, rows]; a frame is [cfg, px]; row = <<flags, high,  *)
(* low>> with flags vin + 2 nready + 4 vout + 8 busy + 16 end (word absent   *)
(* if vout = 0), 32: host reset (one cycle), 64: the driver has waited for   *)
(* everything.  After each reset the next frame of the list is current.      *)
EXTENDS Framing, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, f, e
Bit(x, n) == (x \div n) % 2 = 1
Fr(tr, k) == tr.frames[IF k <= Len(tr.frames) THEN k ELSE Len(tr.frames)]
Cycle(fr, st, row) ==
  LET fl == row[1]
      o == st.acc
      ps == fr.cfg.ps
  IN [vin |-> Bit(fl, 1), nready |-> Bit(fl, 2), vout |-> Bit(fl, 4), busy |-> Bit(fl, 8), end |-> Bit(fl, 16),
      px |-> IF o + ps <= Len(fr.px) THEN SubSeq(fr.px, o + 1, o + ps) ELSE [k \in 1..ps |-> 0],
      d |-> IF Len(row) = 3 THEN <<row[2], row[3]>> ELSE <<>>]
Init == t \in 1..Len(T) /\ i = 0 /\ s = FNew /\ f = 1 /\ e = "ok"
Next ==
  /\ e = "ok"
  /\ i < Len(T[t].rows)
  /\ t' = t
  /\ i' = i + 1
  /\ LET tr == T[t]
         row == tr.rows[i + 1]
         fr == Fr(tr, f)
     IN IF Bit(row[1], 32) THEN s' = FNew /\ f' = f + 1 /\ e' = "ok"
        ELSE IF Bit(row[1], 64) THEN s' = s /\ f' = f /\ e' = FFinal(s)
        ELSE LET x == Cycle(fr, s, row)
             IN /\ e' = FErr(fr.cfg, s, x)
                /\ s' = FEff(fr.cfg, s, x)
                /\ f' = IF PhaseOf(s, x) = "reset" THEN f + 1 ELSE f
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
