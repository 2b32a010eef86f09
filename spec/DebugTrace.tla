----------------------------- MODULE DebugTrace -----------------------------
(* The debug counters of a complete design, from its ports alone.  From the  *)
(* cycle after pixels were first offered (per: in every frame anew; the      *)
(* other design: once) counters 1..8 count the cycles outside of the last    *)
(* word in which                                                             *)
(*   valid_in = 0, = 1, valid_out = 0, = 1, nready = 1, = 0, busy = 1, = 0   *)
(* D.traces[t] = [per, rows]; row = <<flags>> or, where a read of a counter  *)
(* completes, <<flags, counter, value, back, response>>: its address was     *)
(* taken `back` cycles ago, or <<flags, 0, n>>: n cycles like the row before *)
(* (the design does not move).  flags: valid_in + 2 nready + 4 valid_out +      *)
(* 8 busy + 16 end_out.  What a read returns may lag behind by a number of   *)
(* cycles, but always by the same number.                                    *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, c, old, on, rst, lag, e
Bt(f, n) == (f \div n) % 2 = 1
Depth == 24
Zero == <<0, 0, 0, 0, 0, 0, 0, 0>>
Init == t \in 1..Len(T) /\ i = 0 /\ c = Zero /\ old = [k \in 1..Depth |-> Zero] /\ on = FALSE /\ rst = FALSE /\ lag = 0..12 /\ e = "ok"
Next ==
  /\ e = "ok"
  /\ i < Len(T[t].rows)
  /\ t' = t
  /\ i' = i + 1
  /\ LET r == T[t].rows[i + 1]
         f == r[1]
         hot == on /\ ~Bt(f, 16) /\ ~(T[t].per = 1 /\ rst)
         cond == <<~Bt(f, 1), Bt(f, 1), ~Bt(f, 4), Bt(f, 4), Bt(f, 2), ~Bt(f, 2), Bt(f, 8), ~Bt(f, 8)>>
         m == IF Len(r) = 3 THEN r[3] ELSE 1
         more(x, n) == IF hot THEN [k \in 1..8 |-> IF cond[k] THEN x[k] + n ELSE x[k]] ELSE x
     IN /\ c' = more(c, m)
        /\ old' = IF m = 1 THEN <<c'>> \o SubSeq(old, 1, Depth - 1) ELSE [k \in 1..Depth |-> more(c, m + 1 - k)]
        /\ rst' = (Bt(f, 16) /\ Bt(f, 4) /\ ~Bt(f, 8))
        /\ on' = IF T[t].per = 1 /\ rst THEN FALSE ELSE on \/ Bt(f, 1)
        /\ IF Len(r) \in {1, 3} THEN lag' = lag /\ e' = "ok"
           ELSE /\ lag' = {a \in lag : old'[1 + a][r[2]] = r[3]}
                /\ e' = IF r[5] # 0 THEN "a read of a debug counter is refused"
                        ELSE IF r[4] > 40 THEN "a read takes too long"
                        ELSE IF lag' = {} THEN "wrong count" ELSE "ok"
OK == e = "ok"
View == <<t, i, e, lag>>
=============================================================================
