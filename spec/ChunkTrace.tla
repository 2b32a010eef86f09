----------------------------- MODULE ChunkTrace -----------------------------
(* Recorded runs of a real buffering element against Chunks.tla.              *)
(* D.traces[t] = [kind, par, rows]; row = <<environment, module>> records.    *)
EXTENDS Chunks, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, e
Init == t \in 1..Len(T) /\ i = 0 /\ s = Chunk0 /\ e = "ok"
Next == /\ e = "ok"
        /\ i <= Len(T[t].rows)
        /\ t' = t
        /\ i' = i + 1
        /\ IF i < Len(T[t].rows)
           THEN LET row == T[t].rows[i + 1]
                IN /\ e' = ChunkErr(T[t].kind, T[t].par, s, row[1], row[2])
                   /\ s' = IF e' = "ok" THEN ChunkEff(T[t].kind, T[t].par, s, row[1], row[2]) ELSE s
           ELSE \* the driver has waited: nothing may be left inside
                /\ s' = s
                /\ e' = IF T[t].kind = "pack" /\ s.run = 1 /\ ~s.over THEN "never ended"
                        ELSE IF T[t].kind # "pack" /\ s.q # <<>> THEN "items left inside" ELSE "ok"
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
