---------------------------- MODULE StreamTrace ----------------------------
(* Recorded runs of a real word-stream element against Stream.tla.           *)
(* D.traces[t] = [kind, par, rows]; row = <<in flags, in bytes, out flags,   *)
(* out bytes>>: in flags v + 2*e + 4*f, out flags o + 2*v + 4*e.             *)
EXTENDS Stream, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, e
Bt(f, n) == (f \div n) % 2
Init == t \in 1..Len(T) /\ i = 0 /\ s = Stream0 /\ e = "ok"
Next == /\ e = "ok"
        /\ i <= Len(T[t].rows)
        /\ t' = t
        /\ i' = i + 1
        /\ IF i < Len(T[t].rows)
           THEN LET r == T[t].rows[i + 1]
                    a == [v |-> Bt(r[1], 1), e |-> Bt(r[1], 2), f |-> Bt(r[1], 4), b |-> r[2]]
                    z == [o |-> Bt(r[3], 1), v |-> Bt(r[3], 2), e |-> Bt(r[3], 4), b |-> r[4]]
                IN /\ e' = StreamErr(T[t].kind, T[t].par, s, a, z)
                   /\ s' = IF e' = "ok" THEN StreamEff(T[t].kind, T[t].par, s, a, z) ELSE s
           ELSE /\ s' = s
                /\ e' = StreamFinal(T[t].kind, s)
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
