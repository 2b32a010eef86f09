----------------------------- MODULE BlockTrace -----------------------------
(* Recorded runs of the building blocks against Blocks.tla.                   *)
(* D.traces[t] = [kind, par, rows], a row [x, z] as there.                    *)
EXTENDS Blocks, Json, IOUtils
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, e
Init == t \in 1..Len(T) /\ i = 0 /\ e = "ok" /\ s = IF T[t].kind = "bridge" THEN Bridge0 ELSE Block0(T[t].kind)
Next ==
  /\ e = "ok"
  /\ i < Len(T[t].rows)
  /\ t' = t
  /\ i' = i + 1
  /\ LET tr == T[t]
         x == tr.rows[i + 1][1]
         z == tr.rows[i + 1][2]
     IN IF tr.kind = "bridge" THEN e' = BridgeErr(s, x, z) /\ s' = BridgeEff(s, x)
        ELSE e' = BlockErr(tr.kind, tr.par, s, x, z) /\ s' = BlockEff(tr.kind, tr.par, s, x)
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
