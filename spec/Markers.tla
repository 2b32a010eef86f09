------------------------------ MODULE Markers ------------------------------
(***************************************************************************)
(* The framing stage alone: a stream of 16-bit words with an end mark in,  *)
(* start marker + words + end marker out.  One step is one clock cycle:    *)
(*   a = [v, b, e: word offered; x: forced end requested; f: sink busy]    *)
(*   z = [o: busy; v, b, e: word shown]                                    *)
(* q: words accepted and not delivered.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences
MK == 8
M0 == [ph |-> "start", k |-> 0, q |-> <<>>, closed |-> FALSE, seen |-> FALSE, force |-> FALSE, idle |-> 0]
ONES == <<255, 255>>
CUT == <<255, 254>>
Taken(s, a, z) == a.v = 1 /\ z.o = 0 /\ ~s.closed
Given(a, z) == z.v = 1 /\ a.f = 0
(* the accepted words, with the one accepted in this very cycle *)
Q1(s, a, z) == IF Taken(s, a, z) THEN Append(s.q, a.b) ELSE s.q
Cl1(s, a, z) == s.closed \/ (Taken(s, a, z) /\ a.e = 1)

MErr(s, a, z) ==
  LET q == Q1(s, a, z)
      data == s.ph = "start" /\ s.k = MK
      any == s.seen \/ a.v = 1 \/ s.force \/ a.x = 1
  IN IF s.ph = "over" THEN "ok"
     ELSE IF s.idle > 6 THEN "stuck"
     ELSE IF s.ph \in {"end", "forced"} /\ Taken(s, a, z) THEN "takes a word in the end marker"
     ELSE IF ~Given(a, z) THEN
          (IF z.v = 1 /\ z.e = 1 /\ ~(s.ph \in {"end", "forced"} /\ s.k = MK - 1) THEN "end flag shown too early" ELSE "ok")
     ELSE IF s.ph = "start" /\ ~data THEN
          (IF ~any THEN "start marker without a frame"
           ELSE IF z.b # ONES THEN "start marker has a wrong word"
           ELSE IF z.e = 1 THEN "end flag in the start marker" ELSE "ok")
     ELSE IF s.ph \in {"data", "start"} THEN
          (IF z.e = 1 THEN "end flag before the last marker word"
           ELSE IF q # <<>> THEN (IF z.b = Head(q) THEN "ok"
                                  ELSE IF z.b = CUT /\ (s.force \/ a.x = 1) /\ ~s.closed THEN "ok"
                                  ELSE "wrong word")
           ELSE IF z.b = ONES /\ s.closed THEN "ok"
           ELSE IF z.b = CUT /\ s.force /\ ~s.closed THEN "ok"
           ELSE "word that was not accepted, or wrong marker")
     ELSE IF z.b # (IF s.ph = "end" THEN ONES ELSE CUT) THEN "end marker has a wrong word"
     ELSE IF (z.e = 1) # (s.k = MK - 1) THEN "end flag is not on the last word"
     ELSE "ok"

MEff(s, a, z) ==
  LET q == Q1(s, a, z)
      data == s.ph = "data" \/ (s.ph = "start" /\ s.k = MK)
      give == Given(a, z)
      s1 == [s EXCEPT !.q = q, !.closed = Cl1(s, a, z), !.seen = @ \/ a.v = 1, !.force = @ \/ a.x = 1]
      want == s.ph \in {"end", "forced"} \/ s.force \/ s.closed \/ q # <<>> \/ (a.v = 1 /\ ~s.closed)
      s2 == IF s.ph = "over" THEN s
            ELSE IF ~give THEN s1
            ELSE IF ~data /\ s.ph = "start" THEN [s1 EXCEPT !.k = @ + 1]
            ELSE IF data THEN
                   (IF q # <<>> /\ z.b = Head(q) THEN [s1 EXCEPT !.ph = "data", !.q = Tail(q)]
                    ELSE [s1 EXCEPT !.ph = IF z.b = ONES THEN "end" ELSE "forced", !.k = 1, !.q = <<>>])
            ELSE IF s.k = MK - 1 THEN [s1 EXCEPT !.ph = "over"] ELSE [s1 EXCEPT !.k = @ + 1]
  IN [s2 EXCEPT !.idle = IF a.f = 1 \/ give \/ s.ph = "over" \/ ~want THEN 0 ELSE @ + 1]
=============================================================================
