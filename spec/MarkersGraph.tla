---------------------------- MODULE MarkersGraph ----------------------------
(* Product of the framing stage's complete reachable state graph with         *)
(* Markers.tla.                                                              *)
EXTENDS Markers, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
VARIABLES n, k, s, e
Init == n = 1 /\ k = 0 /\ s = M0 /\ e = "ok"
Next == /\ e = "ok"
        /\ \E j \in 1..Len(D.nodes[n]) :
             LET row == D.nodes[n][j]
                 a == D.toks[row[1]]
                 z == D.outs[row[2]]
             IN /\ k' = row[1]
                /\ n' = row[3]
                /\ e' = MErr(s, a, z)
                /\ s' = IF e' = "ok" THEN MEff(s, a, z) ELSE s
OK == e = "ok"
View == <<n, s, e>>
=============================================================================
