----------------------------- MODULE MemTrace ------------------------------
(* Recorded runs of the memory-to-memory design against Wrappers.tla: events  *)
(* <<1, n, bytes>> word n of the source fetched, <<2, n, bytes>> word n of    *)
(* the destination stored, <<64>> the driver has waited for everything.       *)
EXTENDS Wrappers, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, m, e
Init == t \in 1..Len(T) /\ i = 0 /\ s = WNew /\ m = [got |-> 0, put |-> 0] /\ e = "ok"
Next ==
  /\ e = "ok"
  /\ i < Len(T[t].rows)
  /\ t' = t
  /\ i' = i + 1
  /\ LET tr == T[t]
         r == tr.rows[i + 1]
         x == [get |-> r[1] = 1, i |-> r[2], d |-> SubSeq(r, 3, Len(r))]
     IN IF r[1] = 64 THEN s' = s /\ m' = m /\ e' = MFinal(s, m, tr.nframes, tr.nwords)
        ELSE /\ e' = MErr(tr.kind, s, m, x)
             /\ s' = IF e' = "ok" THEN MEff(tr.kind, tr.cfg, s, x) ELSE s
             /\ m' = IF x.get THEN [m EXCEPT !.got = @ + 1] ELSE [m EXCEPT !.put = @ + 1]
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
