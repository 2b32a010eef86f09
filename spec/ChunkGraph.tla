----------------------------- MODULE ChunkGraph -----------------------------
(* Product of the complete reachable state graph of a real buffering element  *)
(* (under the input tokens of D.toks and a legal environment) with Chunks.tla.*)
(* D.nodes[n] = rows <<token, output, successor>>.                            *)
EXTENDS Chunks, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
VARIABLES n, k, s, e
Init == n = 1 /\ k = 0 /\ s = Chunk0 /\ e = "ok"
Next == /\ e = "ok"
        /\ \E j \in 1..Len(D.nodes[n]) :
             LET row == D.nodes[n][j]
                 a == D.toks[row[1]]
                 z == D.outs[row[2]]
             IN /\ k' = row[1]
                /\ n' = row[3]
                /\ e' = ChunkErr(D.kind, D.par, s, a, z)
                /\ s' = IF e' = "ok" THEN ChunkEff(D.kind, D.par, s, a, z) ELSE s
OK == e = "ok"
View == <<n, s, e>>
=============================================================================
