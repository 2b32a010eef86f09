----------------------------- MODULE BurstGraph -----------------------------
(* Product of the complete reachable state graph of a real burst engine      *)
(* with a legal AXI slave, buffer and address source, with Burst.tla.        *)
EXTENDS Burst, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
VARIABLES n, k, s, e
Init == n = 1 /\ k = 0 /\ s = Init0(D.kind) /\ e = "ok"
Next == /\ e = "ok"
        /\ \E j \in 1..Len(D.nodes[n]) :
             LET row == D.nodes[n][j]
                 x == D.toks[row[1]] @@ D.outs[row[2]]
             IN /\ k' = row[1]
                /\ n' = row[3]
                /\ e' = Err(D.kind, D.B, s, x)
                /\ s' = IF e' = "ok" THEN Eff(D.kind, D.B, s, x) ELSE s
OK == e = "ok"
View == <<n, s, e>>
=============================================================================
