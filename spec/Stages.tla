------------------------------ MODULE Stages ------------------------------
(***************************************************************************)
(* The arithmetic stages of the encoder pipeline.  Each is a fixed delay:  *)
(* what enters (with valid) at cycle n leaves at cycle n + latency, and    *)
(* nothing else ever leaves.  Expect gives the value that must leave and   *)
(* the stage's next memory (only the predictor has one).                   *)
(*                                                                         *)
(*  predict: pixels            -> <<pixels, predictions>>                  *)
(*  diff:    pixels, preds     -> differences d (and d - 1)                *)
(*  norm:    d (and d - 1)     -> <<category, additional bits>>            *)
(*  encode:  <<category, bits>> -> <<code word, length>>                   *)
(*  merge:   <<code, length>>..-> the concatenation                        *)
(***************************************************************************)
EXTENDS Codec

(* predictor: hist = the last w pixels of the frame, acc = how many there were *)
PredictOne(st, p) ==
  LET c == st.acc % st.w
      n == Len(st.hist)
      q == IF c >= NComp THEN st.hist[n - NComp + 1]
           ELSE IF st.acc >= st.w THEN st.hist[n - st.w + 1]
           ELSE Half(st.bd)
      h == Append(st.hist, p)
  IN [st EXCEPT !.acc = @ + 1, !.hist = IF Len(h) > st.w THEN Tail(h) ELSE h, !.out = Append(@, q)]
PredictGroup(st, g) == FoldLeft(PredictOne, [st EXCEPT !.out = <<>>], g)

(* difference: exact, at 16 bits modulo 65536 (both representatives of 32768 are fine) *)
DiffOK(bd, p, q, d) == IF bd < 16 THEN d = p - q
                       ELSE (d - (p - q)) % 65536 = 0 /\ d \in -32768..32768

(* normalisation: category 16 carries no additional bits *)
NormOK(d, k, v) == LET c == Category(d) IN k = c /\ (c = 16 \/ v = Extra(d, c))

(* coding: the word as an integer (up to 31 bits) and its length *)
CodeWord(tab, k, v) == tab[k + 1][1] * Pow2(ExtraLen(k)) + (IF k = 16 THEN 0 ELSE v)
CodeLen(tab, k) == tab[k + 1][2] + ExtraLen(k)

(* merging: bit strings in lane order *)
Merged(lanes) == FlattenSeq(lanes)
=============================================================================
