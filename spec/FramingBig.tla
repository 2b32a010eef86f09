----------------------------- MODULE FramingBig -----------------------------
(* One frame of half-scale pixels of the built-in size through the           *)
(* unmodified design: every difference is 0, so the data words are constant. *)
(* D.runs: runs <<count, high, low, end>> of delivered words, D.groups: the   *)
(* number of accepted pixel groups.  Forced frames: D.cut = 1, see Forced.   *)
EXTENDS Framing, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
Expected == << <<8, 255, 255, 0>>,
               <<(D.w * D.h * D.bits) \div 16, D.hi, D.lo, 0>>,
               <<7, 255, 255, 0>>, <<1, 255, 255, 1>> >>
OK == D.groups * D.ps = D.w * D.h /\ D.runs = Expected
=============================================================================
