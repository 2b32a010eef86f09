------------------------------ MODULE MCBurst ------------------------------
(***************************************************************************)
(* Closed model: an engine obeying the burst rules of Burst.tla between a   *)
(* buffer of Depth words and a slave with arbitrary timing.  The only      *)
(* knowledge the engine has of the buffer is one look before each burst    *)
(* ("room/words for a whole burst"); no word is lost for lack of room, no  *)
(* burst starves in the middle, and everything drains.                     *)
(***************************************************************************)
EXTENDS Integers
CONSTANTS Side, B, Depth, MaxOut
ASSUME B <= Depth
VARIABLES level,    \* words in the buffer
          out,      \* bursts issued and unfinished
          beat,     \* beats done of the current burst (-1: none started)
          todo      \* bursts still to be issued
vars == <<level, out, beat, todo>>
Init == level \in (IF Side = "reader" THEN {0, Depth} ELSE {0}) /\ out = 0 /\ beat = -1 /\ todo = 2 * MaxOut
Issue == todo > 0 /\ out < MaxOut /\ todo' = todo - 1 /\ out' = out + 1 /\ UNCHANGED <<level, beat>>
(* the look before the burst *)
Start == out > 0 /\ beat = -1 /\ (IF Side = "reader" THEN Depth - level >= B ELSE level >= B)
         /\ beat' = 0 /\ UNCHANGED <<level, out, todo>>
Beat == /\ beat >= 0
        /\ level' = IF Side = "reader" THEN level + 1 ELSE level - 1
        /\ IF beat = B - 1 THEN beat' = -1 /\ out' = out - 1 ELSE beat' = beat + 1 /\ out' = out
        /\ todo' = todo
(* the other side of the buffer *)
Other == /\ IF Side = "reader" THEN level > 0 /\ level' = level - 1
            ELSE level < Depth /\ level' = level + 1
         /\ UNCHANGED <<out, beat, todo>>
Next == Issue \/ Start \/ Beat \/ Other
Fair == Init /\ [][Next]_vars /\ WF_vars(Issue) /\ WF_vars(Start) /\ WF_vars(Beat) /\ WF_vars(Other)
Safe == level >= 0 /\ level <= Depth /\ out <= MaxOut
        /\ (beat >= 0 => IF Side = "reader" THEN Depth - level >= B - beat ELSE level >= B - beat)
Drains == <>[](todo = 0 /\ out = 0)
=============================================================================
