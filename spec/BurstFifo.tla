----------------------------- MODULE BurstFifo -----------------------------
(* The DMA FIFO: 32 entries, plain readable/writable flags and thresholds for  *)
(* bursts of 16.  Whoever starts a burst because a threshold flag is true must *)
(* be able to read (write) 16 items in the following consecutive cycles.       *)
(* D.traces[t].rows = <<environment, module>>, see C14.py.                     *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
Cap == 32
VARIABLES t, i, q, age, e
(* age = cycles since the last write: a written item may take a cycle to show *)
Err(a, z) ==
  IF z.v # z.r THEN "valid and readable differ"
  ELSE IF z.v = 1 /\ q = <<>> THEN "shows an item that was not written"
  ELSE IF z.v = 1 /\ <<z.b, z.e>> # Head(q) THEN "shows a wrong item"
  ELSE IF z.v = 0 /\ q # <<>> /\ age > 2 THEN "item not shown"
  ELSE IF a.l = 1 /\ z.v = 0 THEN "nothing to read inside a promised burst"
  ELSE IF z.w = 1 /\ Len(q) >= Cap THEN "writable although full"
  ELSE IF a.v = 1 /\ z.w = 0 THEN "no room inside a promised burst"
  ELSE IF z.r16 = 1 /\ Len(q) < 16 THEN "readable16 with fewer than 16 items"
  ELSE IF z.w16 = 1 /\ Len(q) > Cap - 16 THEN "writable16 with less than 16 free"
  ELSE IF z.r16 = 0 /\ Len(q) >= 18 /\ age > 2 THEN "readable16 missing"
  ELSE IF z.w16 = 0 /\ q = <<>> /\ age > 2 THEN "writable16 missing"
  ELSE "ok"
Init == t \in 1..Len(T) /\ i = 0 /\ q = <<>> /\ age = 9 /\ e = "ok"
Next == /\ e = "ok"
        /\ i < Len(T[t].rows)
        /\ t' = t
        /\ i' = i + 1
        /\ LET a == T[t].rows[i + 1][1]
               z == T[t].rows[i + 1][2]
               q1 == IF a.l = 1 /\ q # <<>> THEN Tail(q) ELSE q
           IN /\ e' = Err(a, z)
              /\ q' = IF a.v = 1 THEN Append(q1, <<a.b, a.e>>) ELSE q1
              /\ age' = IF a.v = 1 \/ a.l = 1 THEN 0 ELSE IF age < 9 THEN age + 1 ELSE age
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
