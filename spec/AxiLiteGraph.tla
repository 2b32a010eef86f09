---------------------------- MODULE AxiLiteGraph ----------------------------
(* Product of the reachable state graph of a real AXI-lite slave with        *)
(* AxiLite.tla: every timing of a legal master over a small alphabet.        *)
(* D.nodes[n] = rows <<token, output, successor>>.                           *)
EXTENDS AxiLite, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
VARIABLES n, k, s, e
Init == n = 1 /\ k = 0 /\ s = A0(D.P, D.tab) /\ e = "ok"
Cyc(a, z) == [arv |-> a.arv, ara |-> a.ara, rr |-> a.rr, awv |-> a.awv, awa |-> a.awa, wv |-> a.wv, wd |-> a.wd, ws |-> a.ws,
              br |-> a.br, live |-> D.live,
              arr |-> z.arr, rv |-> z.rv, rd |-> z.rd, rresp |-> z.rresp, awr |-> z.awr, wr |-> z.wr, bv |-> z.bv,
              bresp |-> z.bresp, out |-> z.out]
Next == /\ e = "ok"
        /\ \E j \in 1..Len(D.nodes[n]) :
             LET row == D.nodes[n][j]
                 x == Cyc(D.toks[row[1]], D.outs[row[2]])
             IN /\ k' = row[1]
                /\ n' = row[3]
                /\ e' = AErr(D.P, s, x)
                /\ s' = IF e' = "ok" THEN AEff(D.P, s, x) ELSE s
OK == e = "ok"
View == <<n, s, e>>
=============================================================================
