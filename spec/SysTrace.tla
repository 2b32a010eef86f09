----------------------------- MODULE SysTrace ------------------------------
(* Recorded processes of the board software against HostSys.tla. *)
EXTENDS HostSys, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, e
Init == t \in 1..Len(T) /\ i = 0 /\ s = SNew /\ e = "ok"
Next ==
  /\ e = "ok" /\ i < Len(T[t].rows) /\ t' = t /\ i' = i + 1
  /\ LET x == T[t].rows[i + 1] IN
       /\ e' = SErr(s, x, T[t].job)
       /\ s' = SEff(s, x)
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
