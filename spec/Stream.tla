------------------------------- MODULE Stream -------------------------------
(***************************************************************************)
(* The word-stream elements behind the encoder core: byte stuffing (two    *)
(* stages and their chain) and the bus width converters.  The unit is the  *)
(* byte.  One step is one clock cycle:                                     *)
(*   a = [v, b, e: word offered (b its bytes, first byte first);           *)
(*        f: the sink is busy]                                             *)
(*   z = [o: the element is busy;  v, b, e: word shown]                    *)
(* A word is accepted when it is offered while the element is not busy and *)
(* delivered when it is shown while the sink is not busy.                  *)
(*                                                                         *)
(* Kinds:                                                                  *)
(*   "fix1"  16-bit word -> the same bytes, a zero after each 255          *)
(*   "fix2"  2..4 byte groups -> 16-bit words, zero padded after the end   *)
(*   "chain" fix1 followed by fix2                                         *)
(*   "pass"  words unchanged                                               *)
(*   "repack" W-byte words, no end; incomplete words stay inside           *)
(*   "split" words of W bytes each cut from the accepted word              *)
(*   "top"   b64_b32_2: the first six bytes, as two 3-byte words           *)
(* par = [w: output word bytes, endlag: see EndErr]                        *)
(***************************************************************************)
EXTENDS Codec

StuckS == 16
Stream0 == [q |-> <<>>, rem |-> <<>>, closed |-> FALSE, over |-> FALSE, held |-> FALSE, hv |-> <<>>,
            idle |-> 0, lastend |-> 0, moved |-> 0, flag |-> 0]

RECURSIVE CutBytes(_, _)
CutBytes(b, W) == IF Len(b) < W THEN <<>> ELSE <<SubSeq(b, 1, W)>> \o CutBytes(SubSeq(b, W + 1, Len(b)), W)
RestBytes(b, W) == SubSeq(b, (Len(b) \div W) * W + 1, Len(b))
PadBytes(b, W) == [i \in 1..W |-> IF i <= Len(b) THEN b[i] ELSE 0]
HasEnd(kind) == kind \in {"fix1", "fix2", "chain", "pass"}

(* the words that come out for bytes b after the incomplete word rem: <<words, new rem>> *)
Push(kind, par, rem, b, e) ==
  CASE kind = "fix1" -> <<(<<Stuff(b)>>), <<>>>>
    [] kind = "pass" -> <<(<<b>>), <<>>>>
    [] kind \in {"fix2", "chain"} ->
         LET x == rem \o (IF kind = "chain" THEN Stuff(b) ELSE b)
             r == RestBytes(x, par.w)
         IN IF e = 1 /\ r # <<>> THEN <<Append(CutBytes(x, par.w), PadBytes(r, par.w)), <<>>>>
            ELSE <<CutBytes(x, par.w), r>>
    [] kind = "repack" -> <<CutBytes(rem \o b, par.w), RestBytes(rem \o b, par.w)>>
    [] kind = "split" -> <<CutBytes(b, par.w), <<>>>>
    [] kind = "top" -> <<(<<SubSeq(b, 1, 3), SubSeq(b, 4, 6)>>), <<>>>>

StreamErr(kind, par, s, a, z) ==
  LET last == s.closed /\ Len(s.q) = 1
  IN IF s.over THEN "ok"
     ELSE IF s.held /\ z.v = 0 THEN "withdraws a word before it is taken"
     ELSE IF s.held /\ (z.b # s.hv[1] \/ (HasEnd(kind) /\ z.e # s.hv[2])) THEN "changes a word before it is taken"
     ELSE IF z.v = 1 /\ s.q = <<>> THEN "word before its bytes were accepted"
     ELSE IF z.v = 1 /\ z.b # Head(s.q) THEN "word has wrong bytes"
     ELSE IF HasEnd(kind) /\ z.v = 1 /\ z.e = 1 /\ ~last THEN "end mark on a word that is not the last"
     ELSE IF HasEnd(kind) /\ z.v = 1 /\ z.e = 0 /\ last THEN "end mark missing"
     ELSE IF kind = "repack" /\ z.e # s.flag THEN "end flag is not where it belongs"
     ELSE IF s.closed /\ a.v = 1 /\ z.o = 0 THEN "HARNESS: word offered after the end"
     ELSE IF s.idle > StuckS THEN "stuck"
     ELSE "ok"

StreamEff(kind, par, s, a, z) ==
  LET acc == a.v = 1 /\ z.o = 0 /\ ~s.closed
      del == z.v = 1 /\ a.f = 0 /\ ~s.over
      p == IF acc THEN Push(kind, par, s.rem, a.b, a.e) ELSE <<(<<>>), s.rem>>
      q1 == IF del THEN Tail(s.q) ELSE s.q
      q2 == q1 \o p[1]
  IN [q |-> q2, rem |-> p[2],
      closed |-> s.closed \/ (acc /\ a.e = 1 /\ HasEnd(kind)),
      over |-> s.over \/ (del /\ s.closed /\ Len(s.q) = 1),
      held |-> z.v = 1 /\ a.f = 1 /\ ~s.over,
      hv |-> IF z.v = 1 /\ a.f = 1 /\ ~s.over THEN <<z.b, z.e>> ELSE <<>>,
      idle |-> IF a.f = 1 \/ acc \/ del \/ s.over \/ (q2 = <<>> /\ (a.v = 0 \/ s.closed)) THEN 0 ELSE s.idle + 1,
      (* b16_b64: the end flag rises after seven deliveries that follow an end-marked word, and stays *)
      lastend |-> IF kind = "repack" /\ acc THEN a.e ELSE s.lastend,
      moved |-> IF kind = "repack" /\ s.lastend = 1 /\ del THEN (s.moved + 1) % 8 ELSE s.moved,
      flag |-> IF kind = "repack" /\ s.lastend = 1 /\ s.moved = 7 THEN 1 ELSE s.flag]

StreamFinal(kind, s) ==
  IF s.over THEN "ok"
  ELSE IF s.q # <<>> THEN "words left inside"
  ELSE IF s.closed THEN "never ended"
  ELSE "ok"
=============================================================================
