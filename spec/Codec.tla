------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* The meaning of the data: lossless JPEG (ITU-T T.81 annex H) as this     *)
(* core uses it - four interleaved components, predictor 1, one Huffman    *)
(* table - stated as pure operators on sequences, plus the inverse.        *)
(* Everything about *when* things happen is in the other modules.          *)
(*                                                                         *)
(* A bit string is a sequence of 0/1, most significant (first sent) first. *)
(* A Huffman table is a sequence: entry k+1 = <<code, length>> of category *)
(* k.  A frame is the sequence of its pixels in raster order.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets

Pow2(n) == 2^n
AbsV(x) == IF x < 0 THEN -x ELSE x
MinV(a, b) == IF a < b THEN a ELSE b
MaxV(a, b) == IF a < b THEN b ELSE a
CeilDiv(a, b) == (a + b - 1) \div b

-----------------------------------------------------------------------------
(* bits *)
Bits(v, n) == [i \in 1..n |-> (v \div Pow2(n - i)) % 2]
Val(b) == FoldLeft(LAMBDA acc, x: 2 * acc + x, 0, b)
PadRight(b, n) == [i \in 1..n |-> IF i <= Len(b) THEN b[i] ELSE 0]

(* FlattenSeq for long sequences *)
RECURSIVE FlatPart(_, _, _)
FlatPart(s, a, b) == IF b < a THEN <<>> ELSE IF a = b THEN s[a]
                     ELSE LET m == (a + b) \div 2 IN FlatPart(s, a, m) \o FlatPart(s, m + 1, b)
Flat(s) == FlatPart(s, 1, Len(s))

(* words of W bits, the last one padded with zeros on the right *)
NWords(len, W) == CeilDiv(len, W)
Word(b, W, k) == Val(PadRight(SubSeq(b, (k - 1) * W + 1, MinV(k * W, Len(b))), W))
ToBytes(b) == [k \in 1..NWords(Len(b), 8) |-> Word(b, 8, k)]
FromBytes(s) == Flat([k \in 1..Len(s) |-> Bits(s[k], 8)])

-----------------------------------------------------------------------------
(* categories *)
MaxCat == 16
(* differences are taken modulo 2^16, represented in -32767..32768 *)
Wrap16(d) == ((d + 32767) % 65536) - 32767
RECURSIVE BitLen(_)
BitLen(a) == IF a = 0 THEN 0 ELSE 1 + BitLen(a \div 2)
(* number of bits of the magnitude: the k with 2^(k-1) <= |d| < 2^k (0 for 0) *)
Category(d) == BitLen(AbsV(d))
ExtraLen(k) == IF k = 16 THEN 0 ELSE k
Extra(d, k) == IF k = 16 THEN 0 ELSE IF d >= 0 THEN d ELSE d + Pow2(k) - 1
(* inverse: difference from category and additional bits *)
Extend(v, k) == IF k = 0 THEN 0
                ELSE IF k = 16 THEN 32768
                ELSE IF v < Pow2(k - 1) THEN v - Pow2(k) + 1 ELSE v

-----------------------------------------------------------------------------
(* prediction: w = row length, bd = bit depth, i counts from 1 *)
NComp == 4
Half(bd) == Pow2(bd - 1)
Predict(px, i, w, bd) ==
  LET c == (i - 1) % w IN
    IF c >= NComp THEN px[i - NComp]
    ELSE IF i > w THEN px[i - w]
    ELSE Half(bd)

Diff(p, q) == Wrap16(p - q)

-----------------------------------------------------------------------------
(* the code *)
DefaultTable ==
  << <<14, 4>>, <<0, 3>>, <<1, 3>>, <<2, 3>>, <<3, 3>>, <<4, 3>>, <<5, 3>>, <<6, 3>>,
     <<30, 5>>, <<62, 6>>, <<126, 7>>, <<254, 8>>, <<510, 9>>, <<1022, 10>>,
     <<2046, 11>>, <<4094, 12>>, <<8190, 13>> >>

CodeBits(tab, d) ==
  LET k == Category(d)
      e == tab[k + 1]
  IN Bits(e[1], e[2]) \o Bits(Extra(d, k), ExtraLen(k))

PixelBits(tab, px, i, w, bd) == CodeBits(tab, Diff(px[i], Predict(px, i, w, bd)))
EncodeSeq(tab, px, w, bd) == [i \in 1..Len(px) |-> PixelBits(tab, px, i, w, bd)]
Encode(tab, px, w, bd) == Flat(EncodeSeq(tab, px, w, bd))

IsPrefixOf(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
PrefixFree(tab, ks) == \A i, j \in ks : i # j =>
                          ~IsPrefixOf(Bits(tab[i + 1][1], tab[i + 1][2]), Bits(tab[j + 1][1], tab[j + 1][2]))

-----------------------------------------------------------------------------
(* the decoder: one pixel from bit position pos (1-based); <<difference, next position>> *)
DecodeOne(tab, b, pos, ncat) ==
  LET fits(k) == LET e == tab[k + 1] IN
                   /\ pos + e[2] - 1 + ExtraLen(k) <= Len(b)
                   /\ SubSeq(b, pos, pos + e[2] - 1) = Bits(e[1], e[2])
  IN IF \E k \in 0..ncat : fits(k)
     THEN LET k == CHOOSE k \in 0..ncat : fits(k)
              p == pos + tab[k + 1][2]
              v == Val(SubSeq(b, p, p + ExtraLen(k) - 1))
          IN <<Extend(v, k), p + ExtraLen(k)>>
     ELSE <<0, 0>>

(* n pixels of rows of w; result [px, pos], pos = 0 if the bits ran out *)
Decode(tab, b, n, w, bd) ==
  FoldLeft(LAMBDA s, i :
             IF s.pos = 0 THEN s
             ELSE LET r == DecodeOne(tab, b, s.pos, bd)
                      c == (i - 1) % w
                      q == IF c >= NComp THEN s.px[i - NComp] ELSE IF i > w THEN s.px[i - w] ELSE Half(bd)
                  IN [px |-> Append(s.px, (q + r[1]) % 65536), pos |-> r[2]],
           [px |-> <<>>, pos |-> 1], [i \in 1..n |-> i])

-----------------------------------------------------------------------------
(* byte stuffing *)
StuffByte(x) == IF x = 255 THEN <<255, 0>> ELSE <<x>>
Stuff(s) == Flat([i \in 1..Len(s) |-> StuffByte(s[i])])
(* remove the zero after each 255; "bad" if something else follows *)
Unstuff(s) ==
  FoldLeft(LAMBDA a, x : IF a.ff THEN [a EXCEPT !.ff = FALSE, !.bad = a.bad \/ x # 0]
                         ELSE [s |-> Append(a.s, x), ff |-> x = 255, bad |-> a.bad],
           [s |-> <<>>, ff |-> FALSE, bad |-> FALSE], s).s
=============================================================================
