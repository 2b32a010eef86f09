-------------------------------- MODULE MCLj --------------------------------
(* Closed model of lossless JPEG files: all pictures of W x H pixels with NC  *)
(* components and samples from Vals, every predictor, for each of the given   *)
(* code tables.  Reading what was written gives the picture.                  *)
EXTENDS Lj92
CONSTANTS W, H, NC, BD, Vals, Preds, Pads
VARIABLES s, pred, pad
vars == <<s, pred, pad>>
(* a table with unequal lengths, one with codes of 16 bits *)
Cnts == << <<0, 1, 3, 3, 2, 2, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0>>, <<1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 3>> >>
ValsOf(c) == IF c = 1 THEN [k \in 1..17 |-> k - 1] ELSE [k \in 1..17 |-> (k * 5) % 17]
P(c) == [w |-> W, h |-> H, nc |-> NC, bd |-> BD, pred |-> pred, cnt |-> Cnts[c], vals |-> ValsOf(c), s |-> s,
         pad |-> pad, mid |-> (IF c = 1 THEN <<>> ELSE Seg(254, <<255, 196, 1>>)), order |-> c - 1, eoi |-> 1]
Init == s = <<>> /\ pred \in Preds /\ pad \in Pads
Next == Len(s) < W * H * NC /\ \E v \in Vals : s' = Append(s, v) /\ UNCHANGED <<pred, pad>>
Full == Len(s) = W * H * NC
Back(f) ==
  LET hd == Parse(f)
      t == Canon(hd.cnt, hd.vals)
      b == ScanData(f, hd.at)
      n == hd.w * hd.h * hd.nc
  IN FoldLeft(LAMBDA a, i :
       LET r == ReadDiff(t, b, a.pos)
           g(k) == a.s[k]
       IN [s |-> Append(a.s, (Predicted(hd, i, g) + r[1]) % 65536), pos |-> r[2]],
       [s |-> <<>>, pos |-> 0], [i \in 1..n |-> i])
RoundTrip ==
  Full => \A c \in 1..Len(Cnts) :
    LET f == File(P(c))
        hd == Parse(f)
        d == Back(f)
        b == ScanData(f, hd.at)
    IN /\ hd.ok /\ hd.w = W /\ hd.h = H /\ hd.nc = NC /\ hd.bd = BD /\ hd.pred = pred
       /\ d.s = s
       /\ d.pos <= 8 * Len(b) /\ 8 * Len(b) - d.pos < 8
ASSUME \A c \in 1..Len(Cnts) : TableOk(Cnts[c], ValsOf(c))
(* tiles: cells of different samples differ, and a row of len samples is contiguous *)
ASSUME \A len \in 1..4, skip \in 0..3 : \A i, j \in 1..12 :
          /\ i < j => Cell(i, len, skip) < Cell(j, len, skip)
          /\ (i - 1) \div len = (j - 1) \div len => Cell(j, len, skip) - Cell(i, len, skip) = j - i
ASSUME \A len \in 1..4, skip \in 0..3, n \in 0..9 :
         {k \in 1..60 : CellUsed(k, n, len, skip)} = {Cell(i, len, skip) : i \in 1..n}
=============================================================================
