------------------------------ MODULE Chunks ------------------------------
(***************************************************************************)
(* The three buffering elements between the pipeline and the output.  The  *)
(* unit is a chunk: <<bits, end mark>>, bits a sequence of 0/1.            *)
(* One step is one clock cycle: a = what the environment drives, z = what  *)
(* the module shows in the same cycle.                                     *)
(*                                                                         *)
(*  split  a = [v, b, e: chunk offered;  f: downstream full]               *)
(*         z = [l: takes the offered chunk;  v, b, e: piece written]       *)
(*  pack   a = [v, b, e: chunk offered;  f: sink busy]                     *)
(*         z = [l: takes the offered chunk;  v, b, e: word shown]          *)
(*  fifo   a = [v, b, e: chunk written;  l: read]                          *)
(*         z = [v, b, e: head shown;  f: early full]                       *)
(*                                                                         *)
(* par = [conv: splitter piece / packer word width, slack, cap]            *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

MinC(x, y) == IF x < y THEN x ELSE y
PrefixC(p, b) == Len(p) <= Len(b) /\ SubSeq(b, 1, Len(p)) = p
Stuck == 12       \* cycles after which an element that could move must have moved

Chunk0 == [q |-> <<>>, run |-> 0, held |-> FALSE, shown |-> <<>>, over |-> FALSE, idle |-> 0]

-----------------------------------------------------------------------------
(* splitter: q = chunks taken and not yet completely written out *)
SplitErr(par, s, a, z) ==
  IF z.v = 1 /\ s.q = <<>> THEN "piece without an input"
  ELSE IF z.v = 1 /\ z.b = <<>> THEN "empty piece"
  ELSE IF z.v = 1 /\ ~PrefixC(z.b, Head(s.q)[1]) THEN "piece has wrong bits"
  ELSE IF z.v = 1 /\ Len(z.b) > par.conv THEN "piece wider than configured"
  ELSE IF z.v = 1 /\ Len(Head(s.q)[1]) <= par.conv /\ ~s.held /\ z.b # Head(s.q)[1] THEN "short chunk was split"
  ELSE IF z.v = 1 /\ z.e = 1 /\ ~(z.b = Head(s.q)[1] /\ Head(s.q)[2] = 1) THEN "end mark on a piece that is not the last"
  ELSE IF z.v = 1 /\ z.e = 0 /\ z.b = Head(s.q)[1] /\ Head(s.q)[2] = 1 THEN "end mark lost"
  ELSE IF z.v = 1 /\ a.f = 1 /\ s.run >= par.slack THEN "writes more than the reserved slack while full"
  ELSE IF s.idle > Stuck THEN "stuck"
  ELSE "ok"
SplitEff(par, s, a, z) ==
  LET h == Head(s.q)
      rest == SubSeq(h[1], Len(z.b) + 1, Len(h[1]))
      q1 == IF z.v = 0 THEN s.q
            ELSE IF rest = <<>> THEN Tail(s.q)
            ELSE <<(<<rest, h[2]>>)>> \o Tail(s.q)
      take == z.l = 1 /\ a.v = 1
      q2 == IF take THEN Append(q1, <<a.b, a.e>>) ELSE q1
  IN [s EXCEPT !.q = q2,
               !.held = z.v = 1 /\ rest # <<>>,      \* in the middle of a chunk
               !.run = IF a.f = 0 THEN 0 ELSE IF z.v = 1 THEN @ + 1 ELSE @,
               !.idle = IF a.f = 1 \/ z.v = 1 \/ (s.q = <<>> /\ (take \/ a.v = 0)) THEN 0 ELSE @ + 1]

-----------------------------------------------------------------------------
(* packer: q = <<bits>> taken and not yet delivered as words; shown.. *)
NextWord(s, W, closed) == LET b == s.q IN
  [i \in 1..W |-> IF i <= Len(b) THEN b[i] ELSE 0]
PackErr(par, s, a, z) ==
  LET W == par.conv
      closed == s.run = 1
      full == Len(s.q) >= W
  IN IF s.over THEN (IF z.l = 1 /\ a.v = 1 THEN "takes input after the end" ELSE "ok")
     ELSE IF s.held /\ z.v = 0 THEN "withdraws a word before it is taken"
     ELSE IF s.held /\ z.b # s.shown THEN "changes a word before it is taken"
     ELSE IF z.v = 1 /\ ~full /\ ~(closed /\ s.q # <<>>) THEN "word before its bits are there"
     ELSE IF z.v = 1 /\ z.b # NextWord(s, W, closed) THEN "word has wrong bits"
     ELSE IF z.v = 1 /\ z.e = 1 /\ ~(closed /\ Len(s.q) <= W) THEN "end mark on a word that is not the last"
     ELSE IF z.v = 1 /\ z.e = 0 /\ closed /\ Len(s.q) <= W THEN "end mark missing"
     ELSE IF z.l = 1 /\ a.v = 1 /\ closed THEN "takes a chunk after the end-marked one"
     ELSE IF s.idle > Stuck THEN "stuck"
     ELSE "ok"
PackEff(par, s, a, z) ==
  LET W == par.conv
      closed == s.run = 1
      del == z.v = 1 /\ a.f = 0 /\ ~s.over
      last == closed /\ Len(s.q) <= W
      q1 == IF del THEN SubSeq(s.q, W + 1, Len(s.q)) ELSE s.q
      take == z.l = 1 /\ a.v = 1 /\ ~s.over
      q2 == IF take THEN q1 \o a.b ELSE q1
      ready == Len(q2) >= W \/ (closed /\ q2 # <<>>)
  IN [s EXCEPT !.q = q2,
               !.run = IF take /\ a.e = 1 THEN 1 ELSE @,
               !.held = z.v = 1 /\ a.f = 1 /\ ~s.over,
               !.shown = IF z.v = 1 /\ a.f = 1 /\ ~s.over THEN z.b ELSE <<>>,
               !.over = s.over \/ (del /\ last),
               !.idle = IF a.f = 1 \/ del \/ take \/ s.over \/ (~ready /\ a.v = 0) THEN 0 ELSE @ + 1]

-----------------------------------------------------------------------------
(* FIFO with early-full flag.  A producer behind a pipeline of par.slack cycles   *)
(* may still write for that long after the flag was last down: that is the legal  *)
(* environment, and nothing it writes may be lost.                                *)
(* run = cycles since the flag was last seen down.                                *)
FifoLegal(par, s, a, z) == a.v = 1 => (z.f = 0 \/ s.run < par.slack)
FifoErr(par, s, a, z) ==
  IF z.v = 1 /\ s.q = <<>> THEN "shows an item that was not written"
  ELSE IF z.v = 1 /\ <<z.b, z.e>> # Head(s.q) THEN "shows a wrong item"
  ELSE IF s.held /\ z.v = 0 THEN "item withdrawn without a read"
  ELSE IF s.idle > 4 THEN "item not delivered"
  ELSE IF z.f = 1 /\ s.q = <<>> /\ s.run > par.slack + 4 THEN "full although drained"
  ELSE IF ~FifoLegal(par, s, a, z) THEN "HARNESS: illegal write"
  ELSE "ok"
FifoEff(par, s, a, z) ==
  LET q1 == IF z.v = 1 /\ a.l = 1 THEN Tail(s.q) ELSE s.q
      q2 == IF a.v = 1 THEN Append(q1, <<a.b, a.e>>) ELSE q1
  IN [s EXCEPT !.q = q2,
               !.held = z.v = 1 /\ a.l = 0,
               !.run = IF z.f = 0 THEN 0 ELSE IF @ < 64 THEN @ + 1 ELSE @,
               !.idle = IF z.v = 1 \/ s.q = <<>> THEN 0 ELSE @ + 1]

-----------------------------------------------------------------------------
ChunkErr(kind, par, s, a, z) ==
  CASE kind = "split" -> SplitErr(par, s, a, z)
    [] kind = "pack" -> PackErr(par, s, a, z)
    [] kind = "fifo" -> FifoErr(par, s, a, z)
ChunkEff(kind, par, s, a, z) ==
  CASE kind = "split" -> SplitEff(par, s, a, z)
    [] kind = "pack" -> PackEff(par, s, a, z)
    [] kind = "fifo" -> FifoEff(par, s, a, z)
=============================================================================
