-------------------------------- MODULE Lj92 --------------------------------
(***************************************************************************)
(* Lossless JPEG files (ITU-T T.81, process 14) for the software library:  *)
(* segments, canonical Huffman tables, all seven predictors, one or more   *)
(* interleaved components, as writer (File) and reader (Parse, Step).      *)
(* Samples of a picture: one sequence, row by row, pixel by pixel,         *)
(* component by component.                                                 *)
(***************************************************************************)
EXTENDS Codec

Hi(v) == v \div 256
Lo(v) == v % 256

-----------------------------------------------------------------------------
(* Huffman tables: cnt[l] codes of length l = 1..16, vals in order; result: entries <<code, length, category>> *)
Canon(cnt, vals) ==
  LET st == FoldLeft(LAMBDA a, l :
              LET n == cnt[l]
                  new == [j \in 1..n |-> <<a.code + j - 1, l, vals[Len(a.t) + j]>>]
              IN [t |-> a.t \o new, code |-> (a.code + n) * 2],
            [t |-> <<>>, code |-> 0], [l \in 1..16 |-> l])
  IN st.t
SumSeq(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
(* no more codes than fit, and the all-ones code unused *)
Kraft(cnt) == SumSeq([l \in 1..16 |-> cnt[l] * Pow2(16 - l)])
TableOk(cnt, vals) ==
  /\ Len(vals) = SumSeq(cnt)
  /\ Kraft(cnt) < 65536
  /\ \A i, j \in 1..Len(vals) : i # j => vals[i] # vals[j]
  /\ \A i \in 1..Len(vals) : vals[i] <= MaxCat
CodeOf(t, k) == LET e == CHOOSE x \in {t[i] : i \in 1..Len(t)} : x[3] = k IN <<e[1], e[2]>>

-----------------------------------------------------------------------------
(* prediction: ra left, rb above, rc above left of the same component *)
Pred(p, ra, rb, rc) ==
  CASE p = 1 -> ra [] p = 2 -> rb [] p = 3 -> rc
    [] p = 4 -> ra + rb - rc
    [] p = 5 -> ra + ((rb - rc) \div 2)      \* \div rounds down: an arithmetic shift
    [] p = 6 -> rb + ((ra - rc) \div 2)
    [] p = 7 -> (ra + rb) \div 2
(* sample i (from 1) of rows of w pixels with nc components; s(k): sample k *)
Predicted(hd, i, s(_)) ==
  LET px == (i - 1) \div hd.nc
      c == px % hd.w
      r == px \div hd.w
      ra == s(i - hd.nc)
      rb == s(i - hd.nc * hd.w)
      rc == s(i - hd.nc * hd.w - hd.nc)
  IN IF r = 0 THEN (IF c = 0 THEN Half(hd.bd) ELSE ra)
     ELSE IF c = 0 THEN rb
     ELSE Pred(hd.pred, ra, rb, rc)

-----------------------------------------------------------------------------
(* writer.  p = [w, h, nc, bd, pred, cnt, vals, s: samples, pad: fill bits (0 or 1), mid: segments to insert *)
(* (complete byte sequences) before the table, order: 0 table first, 1 frame header first, eoi]              *)
Seg(m, body) == <<255, m, Hi(Len(body) + 2), Lo(Len(body) + 2)>> \o body
SegDHT(p) == Seg(196, <<0>> \o p.cnt \o p.vals)
SegSOF(p) == Seg(195, <<p.bd, Hi(p.h), Lo(p.h), Hi(p.w), Lo(p.w), p.nc>> \o FlattenSeq([c \in 1..p.nc |-> <<c, 17, 0>>]))
SegSOS(p) == Seg(218, <<p.nc>> \o FlattenSeq([c \in 1..p.nc |-> <<c, 0>>]) \o <<p.pred, 0, 0>>)
PicBits(p) ==
  LET t == Canon(p.cnt, p.vals)
      s(k) == p.s[k]
      one(i) == LET d == Wrap16(p.s[i] - Predicted(p, i, s))
                    k == Category(d)
                    e == CodeOf(t, k)
                IN Bits(e[1], e[2]) \o Bits(Extra(d, k), ExtraLen(k))
  IN Flat([i \in 1..Len(p.s) |-> one(i)])
FillTo8(b, x) == b \o [i \in 1..((8 - (Len(b) % 8)) % 8) |-> x]
File(p) ==
  <<255, 216>> \o p.mid \o (IF p.order = 0 THEN SegDHT(p) \o SegSOF(p) ELSE SegSOF(p) \o SegDHT(p)) \o SegSOS(p)
  \o Stuff(ToBytes(FillTo8(PicBits(p), p.pad))) \o (IF p.eoi = 1 THEN <<255, 217>> ELSE <<>>)

-----------------------------------------------------------------------------
(* reader: header record with ok, and data = the unstuffed entropy coded bytes *)
NoHd == [ok |-> FALSE, w |-> 0, h |-> 0, nc |-> 0, bd |-> 0, pred |-> 0, cnt |-> <<>>, vals |-> <<>>, at |-> 0, ids |-> <<>>, std |-> TRUE]
(* std: every field of the headers has the value the standard asks for (one table, one scan, no subsampling) *)
SumTo(c) == FoldLeft(LAMBDA a, x : a + x, 0, c)
U16(f, i) == f[i] * 256 + f[i + 1]
At(f, i) == IF i \in 1..Len(f) THEN f[i] ELSE -1
Part(f, a, b) == [k \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> At(f, a + k - 1)]
RECURSIVE Segments(_, _, _)
Segments(f, i, hd) ==
  IF i + 3 > Len(f) \/ f[i] # 255 THEN NoHd
  ELSE LET m == f[i + 1]
           n == U16(f, i + 2)
           q == i + 4         \* first byte of the body
           b(k) == At(f, q + k)
       IN IF i + 1 + n > Len(f) THEN NoHd
          ELSE IF m = 196 THEN
            LET cnt == Part(f, q + 1, q + 16) IN
            Segments(f, i + 2 + n, [hd EXCEPT !.std = hd.std /\ b(0) = 0 /\ n >= 19 /\ hd.cnt = <<>> /\ n = 19 + SumTo(cnt),
                                              !.cnt = cnt, !.vals = Part(f, q + 17, i + 1 + n)])
          ELSE IF m = 195 THEN
            LET nc == b(5) IN
            Segments(f, i + 2 + n, [hd EXCEPT !.std = hd.std /\ hd.nc = 0 /\ n = 8 + 3 * nc /\ b(0) \in 2..16 /\ \A c \in 1..nc : b(4 + 3 * c) = 17,
                                              !.ids = [c \in 1..nc |-> b(3 + 3 * c)],
                                              !.bd = b(0), !.h = b(1) * 256 + b(2), !.w = b(3) * 256 + b(4), !.nc = nc])
          ELSE IF m = 218 THEN
            LET ns == b(0)
                p == b(1 + 2 * ns) IN
            [hd EXCEPT !.std = hd.std /\ hd.cnt # <<>> /\ ns = hd.nc /\ n = 6 + 2 * ns /\ p \in 1..7
                                /\ Cardinality(ToSet(hd.ids)) = ns
                                /\ \A c \in 1..ns : b(2 * c - 1) = hd.ids[c] /\ b(2 * c) = 0
                                /\ b(2 + 2 * ns) = 0 /\ b(3 + 2 * ns) = 0,
                       !.ok = hd.cnt # <<>> /\ hd.w > 0, !.pred = p, !.at = i + 2 + n]
          ELSE IF n < 2 \/ m < 192 \/ m \in (193..194) \cup (197..217) THEN NoHd     \* no segment of a lossless Huffman file
          ELSE Segments(f, i + 2 + n, hd)
Parse(f) == IF Len(f) < 4 \/ f[1] # 255 \/ f[2] # 216 THEN NoHd ELSE Segments(f, 3, NoHd)
(* the entropy coded bytes from at to the next marker; end: position of that marker *)
MarkerAt(f, i) ==
  LET ms == {k \in i..(Len(f) - 1) : f[k] = 255 /\ f[k + 1] # 0} IN IF ms = {} THEN Len(f) + 1 ELSE Min(ms)
(* every 255 before the marker is followed by a stuffed zero *)
ScanData(f, at) ==
  LET n == MarkerAt(f, at) - at
      kept == SelectSeq([k \in 1..n |-> at + k - 1], LAMBDA k : k = at \/ f[k - 1] # 255)
  IN <<>> \o [k \in 1..Len(kept) |-> f[kept[k]]]     \* (\o: evaluated once, for TLC)

(* 16 bits of the byte sequence b from bit pos (0-based); ones after the end *)
ByteAt(b, k) == IF k <= Len(b) THEN b[k] ELSE 255
W16(b, pos) == LET k == pos \div 8 + 1 IN
  ((ByteAt(b, k) * 65536 + ByteAt(b, k + 1) * 256 + ByteAt(b, k + 2)) \div Pow2(8 - (pos % 8))) % 65536
(* one difference: <<difference, next position>>, position -1: no such code *)
ReadDiff(t, b, pos) ==
  LET w == W16(b, pos)
      hit == {i \in 1..Len(t) : w \div Pow2(16 - t[i][2]) = t[i][1]}
  IN IF hit = {} THEN <<0, -1>>
     ELSE LET e == t[CHOOSE i \in hit : TRUE]
              n == ExtraLen(e[3])
              v == W16(b, pos + e[2]) \div Pow2(16 - n)
          IN <<Extend(v, e[3]), pos + e[2] + n>>

-----------------------------------------------------------------------------
(* picture memory: len samples, then skip cells left alone, and so on; cell of sample i (from 1) *)
Cell(i, len, skip) == i + ((i - 1) \div len) * skip
CellUsed(k, n, len, skip) ==
  LET b == (k - 1) \div (len + skip) o == (k - 1) % (len + skip) IN o < len /\ b * len + o < n
=============================================================================
