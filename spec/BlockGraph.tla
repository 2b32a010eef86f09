----------------------------- MODULE BlockGraph -----------------------------
(* Product of the complete state graph of a real building block with          *)
(* Blocks.tla: every input in every reachable state.                          *)
EXTENDS Blocks, Json, IOUtils
D == JsonDeserialize(IOEnv.VP_DATA)
VARIABLES n, k, s, e
Init == n = 1 /\ k = 0 /\ s = Block0(D.kind) /\ e = "ok"
Next == /\ e = "ok"
        /\ \E j \in 1..Len(D.nodes[n]) :
             LET row == D.nodes[n][j]
             IN /\ k' = row[1]
                /\ n' = row[3]
                /\ e' = BlockErr(D.kind, D.par, s, D.toks[row[1]], D.outs[row[2]])
                /\ s' = BlockEff(D.kind, D.par, s, D.toks[row[1]])
OK == e = "ok"
View == <<n, s, e>>
=============================================================================
