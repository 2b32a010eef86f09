----------------------------- MODULE Geometry -----------------------------
(* Where rows begin and frames end.  The unit is the accepted pixel group;   *)
(* group numbers n count from 0.  rg = groups per row, h = rows.             *)
(* RowStart(n): the row-start flag seen with group n; LastGroup(n): the      *)
(* end-of-frame flag seen with group n.                                      *)
EXTENDS Integers, Sequences
RowStart(rg, n) == n % rg = 0
LastGroup(rg, h, n) == n = rg * h - 1
(* the run a..b of groups contains no row start *)
NoRowStart(rg, a, b) == a \div rg = b \div rg /\ a % rg # 0

(* A run <<a, b, row, last>>: groups a..b were all accepted with these flags.
   Runs must be contiguous; the frame ends after group rg*h-1. *)
RunErr(rg, h, a, run) ==
  LET lo == run[1]
      hi == run[2]
      tot == rg * h
  IN IF lo # a \/ hi < lo THEN "run out of order"
     ELSE IF hi >= tot THEN "group after the last one"
     ELSE IF run[3] = 1 /\ ~(lo = hi /\ RowStart(rg, lo)) THEN "row start flagged inside a row"
     ELSE IF run[3] = 0 /\ ~NoRowStart(rg, lo, hi) THEN "row start not flagged"
     ELSE IF run[4] = 1 /\ ~(lo = hi /\ LastGroup(rg, h, lo)) THEN "end of frame flagged too early"
     ELSE IF run[4] = 0 /\ lo <= tot - 1 /\ tot - 1 <= hi THEN "last group not flagged"
     ELSE "ok"

(* the cycle limit: the forced end is raised after `limit` further cycles     *)
(* once the first pixel group has been accepted, and stays                    *)
ForcedAt(limit, first) == first + limit
=============================================================================
