---------------------------- MODULE StreamGraph ----------------------------
(* Product of the complete reachable state graph of a real word-stream       *)
(* element (under the tokens D.toks and a source that keeps an offered word) *)
(* with Stream.tla.                                                          *)
EXTENDS Stream, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
VARIABLES n, k, s, e
Init == n = 1 /\ k = 0 /\ s = Stream0 /\ e = "ok"
Next == /\ e = "ok"
        /\ \E j \in 1..Len(D.nodes[n]) :
             LET row == D.nodes[n][j]
                 a == D.toks[row[1]]
                 z == D.outs[row[2]]
             IN /\ k' = row[1]
                /\ n' = row[3]
                /\ e' = StreamErr(D.kind, D.par, s, a, z)
                /\ s' = IF e' = "ok" THEN StreamEff(D.kind, D.par, s, a, z) ELSE s
OK == e = "ok"
View == <<n, s, e>>
=============================================================================
