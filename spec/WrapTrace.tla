----------------------------- MODULE WrapTrace -----------------------------
(* Recorded runs of the real wrappers against Wrappers.tla.                   *)
(* D.traces[t] = [kind, cfg, words, nframes, rows]; words: the words offered, *)
(* in order; row = <<flags, bytes of the word shown>> with flags              *)
(* sv + 2 sr + 4 mv + 8 mr + 16 ml; 64: the driver has waited for everything. *)
EXTENDS Wrappers, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, k, e
Bt(f, n) == (f \div n) % 2 = 1
Init == t \in 1..Len(T) /\ i = 0 /\ s = WNew /\ k = 1 /\ e = "ok"
Next ==
  /\ e = "ok"
  /\ i < Len(T[t].rows)
  /\ t' = t
  /\ i' = i + 1
  /\ LET tr == T[t]
         r == tr.rows[i + 1]
         x == [sv |-> Bt(r[1], 1), sr |-> Bt(r[1], 2), mv |-> Bt(r[1], 4), mr |-> Bt(r[1], 8),
               ml |-> IF Bt(r[1], 16) THEN 1 ELSE 0,
               b |-> IF Bt(r[1], 1) THEN tr.words[k] ELSE <<>>, d |-> Tail(r)]
     IN IF Bt(r[1], 64) THEN s' = s /\ k' = k /\ e' = WFinal(tr.kind, s, tr.nframes)
        ELSE /\ e' = WErr(tr.kind, tr.cfg, s, x)
             /\ s' = IF e' = "ok" THEN WEff(tr.kind, tr.cfg, s, x) ELSE s
             /\ k' = IF x.sv /\ x.sr THEN k + 1 ELSE k
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
