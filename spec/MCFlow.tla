------------------------------- MODULE MCFlow -------------------------------
(* Design model of the core's back pressure.  Items accepted while the core   *)
(* is ready travel through a pipeline of LAT stages that cannot be stopped    *)
(* into a FIFO of DEPTH entries; the core stops being ready one cycle after   *)
(* the FIFO level has reached DEPTH - SLACK.  Both ends are nondeterministic. *)
(* No write may ever meet a full FIFO, and a reader that keeps reading always *)
(* gets everything and makes the core ready again.                            *)
EXTENDS Integers, Sequences
CONSTANTS LAT, DEPTH, SLACK
VARIABLES pipe, lvl, full, lost
vars == <<pipe, lvl, full, lost>>
B2I(b) == IF b THEN 1 ELSE 0
Init == pipe = [k \in 1..LAT |-> FALSE] /\ lvl = 0 /\ full = FALSE /\ lost = FALSE
Cycle(v, r) ==
  LET acc == v /\ ~full
      we  == pipe[LAT]
      re  == r /\ lvl > 0
  IN /\ pipe' = [k \in 1..LAT |-> IF k = 1 THEN acc ELSE pipe[k - 1]]
     /\ lvl' = lvl + B2I(we /\ lvl < DEPTH) - B2I(re)
     /\ lost' = (lost \/ (we /\ lvl = DEPTH))
     /\ full' = (lvl >= DEPTH - SLACK)
Next == \E v, r \in BOOLEAN : Cycle(v, r)
Read == \E v \in BOOLEAN : Cycle(v, TRUE)
Spec == Init /\ [][Next]_vars
(* a sink that from some point on always reads *)
FairSpec == Spec /\ <>[][Read]_vars /\ WF_vars(Read)
NothingLost == ~lost
TypeOK == lvl \in 0..DEPTH /\ full \in BOOLEAN
ReadyAgain == []<>~full
Drains == [](lvl > 0 => <>(lvl = 0 \/ pipe # [k \in 1..LAT |-> FALSE]))
=============================================================================
