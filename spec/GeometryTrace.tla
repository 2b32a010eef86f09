--------------------------- MODULE GeometryTrace ---------------------------
(* Runs recorded from the real geometry counters (module signals) and from    *)
(* full-size frames through the real core.                                    *)
(* D.frames[t] = [rg, h, runs, after] (after: flags seen while further groups *)
(*   were offered after the last one)                                         *)
(* D.big[t] = [pixels, accepted, words, odd, ends, endlast]: a half-scale     *)
(*   frame: every difference is 0, code 1110, so every word is 16#EEEE        *)
(* D.defaults = <<height, width, cycles>> of the register file                *)
EXTENDS Geometry, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
F == D.frames
VARIABLES t, i, nxt, e
Init == t \in 1..Len(F) /\ i = 0 /\ nxt = 0 /\ e = "ok"
Next == /\ e = "ok"
        /\ i <= Len(F[t].runs)
        /\ t' = t
        /\ i' = i + 1
        /\ IF i < Len(F[t].runs)
           THEN LET r == F[t].runs[i + 1]
                IN e' = RunErr(F[t].rg, F[t].h, nxt, r) /\ nxt' = r[2] + 1
           ELSE /\ nxt' = nxt
                /\ e' = IF nxt # F[t].rg * F[t].h THEN "frame not complete" ELSE "ok"
OK == e = "ok"
BigOK == \A k \in 1..Len(D.big) :
           LET b == D.big[k] IN
             /\ b.accepted = b.pixels
             /\ b.words = (b.pixels * 4) \div 16
             /\ b.odd = 0
             /\ b.ends = 1
             /\ b.endlast = 1
DefaultsOK == D.defaults = <<3072, 4096, 6666000>>
=============================================================================
