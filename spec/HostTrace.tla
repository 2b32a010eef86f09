----------------------------- MODULE HostTrace -----------------------------
(* Recorded call histories of the board software against HostRegs.tla.       *)
(* D.traces[t] = [s0, rows]; a row with op "env" replaces the device state.  *)
EXTENDS HostRegs, Json, IOUtils
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, e
St(x) == C0(x.bd, x.h, x.w, x.lim, D.tabs[x.tab])
Init == t \in 1..Len(T) /\ i = 0 /\ s = St(T[t].s0) /\ e = "ok"
Next ==
  /\ e = "ok"
  /\ i < Len(T[t].rows)
  /\ t' = t
  /\ i' = i + 1
  /\ LET c == T[t].rows[i + 1]
     IN IF c.op = "env" THEN s' = St(c.st) /\ e' = "ok"
        ELSE e' = CallErr(s, c) /\ s' = After(s, c)
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
