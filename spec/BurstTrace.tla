----------------------------- MODULE BurstTrace -----------------------------
(* Recorded runs of a real burst engine or address generator against         *)
(* Burst.tla.  D.traces[t] = [kind, B, rows]; a row is the cycle record, or  *)
(* [final |-> outstanding bursts must be 0].                                 *)
EXTENDS Burst, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, e
Init == t \in 1..Len(T) /\ i = 0 /\ s = Init0(T[t].kind) /\ e = "ok"
Final(k, z) == IF k = "reader" THEN z.out = 0 ELSE IF k = "writer" THEN z.act = 0 /\ z.unc = 0 ELSE TRUE
Next == /\ e = "ok"
        /\ i < Len(T[t].rows)
        /\ t' = t
        /\ i' = i + 1
        /\ LET x == T[t].rows[i + 1] IN
           IF "reset" \in DOMAIN x THEN s' = Init0(T[t].kind) /\ e' = "ok"
           ELSE IF "final" \in DOMAIN x THEN s' = s /\ e' = IF Final(T[t].kind, s) THEN "ok" ELSE "bursts left over"
           ELSE e' = Err(T[t].kind, T[t].B, s, x) /\ s' = Eff(T[t].kind, T[t].B, s, x)
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
