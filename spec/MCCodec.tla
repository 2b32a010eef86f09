------------------------------ MODULE MCCodec ------------------------------
(* Closed model of the codec: all frames of W x H pixels with values from    *)
(* Vals (bit depth BD), grown pixel by pixel as the core does.  The streamed *)
(* code is the frame's code, and the complete code - cut into words, padded, *)
(* byte-stuffed - gives back exactly the frame.                              *)
EXTENDS Codec
CONSTANTS BD, W, H, Vals
VARIABLES px, b
vars == <<px, b>>
Init == px = <<>> /\ b = <<>>
Next == /\ Len(px) < W * H
        /\ \E v \in Vals :
             LET q == Append(px, v) IN
               /\ px' = q
               /\ b' = b \o PixelBits(DefaultTable, q, Len(q), W, BD)
Full == Len(px) = W * H
Streamed == Full => b = Encode(DefaultTable, px, W, BD)
RoundTrip ==
  Full => LET bytes == ToBytes(b)
              wire  == Stuff(bytes)
              back  == FromBytes(Unstuff(wire))
              d     == Decode(DefaultTable, back, W * H, W, BD)
          IN /\ d.px = px
             /\ d.pos = Len(b) + 1
             /\ Len(back) - Len(b) < 8
             /\ \A i \in (Len(b) + 1)..Len(back) : back[i] = 0
(* a marker (255 followed by something else than 0) can never appear inside the data *)
NoMarker == Full => LET wire == Stuff(ToBytes(b)) IN
              \A i \in 1..Len(wire) : wire[i] = 255 => i < Len(wire) /\ wire[i + 1] = 0
ASSUME PrefixFree(DefaultTable, 0..16)
ASSUME \A d \in -32767..32768 : LET k == Category(d) IN
          /\ AbsV(d) < Pow2(k) /\ (k > 0 => AbsV(d) >= Pow2(k - 1))
          /\ Extend(Extra(d, k), k) = d
          /\ Extra(d, k) \in 0..(Pow2(ExtraLen(k)) - 1)
=============================================================================
