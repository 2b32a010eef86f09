------------------------------ MODULE Framing ------------------------------
(***************************************************************************)
(* The complete encoder designs: pixels in, framed 16-bit words out.       *)
(* A frame leaves as eight 16#FFFF words, the stuffed data words, and      *)
(* eight 16#FFFF words, the last one flagged; a frame that is not closed   *)
(* in time is cut and ends with eight 16#FFFE words instead.  Then the     *)
(* design resets itself for one cycle and starts over.                     *)
(*                                                                         *)
(* cfg = [ps, bd, w, h, tab, limit]; one step is one clock cycle           *)
(*   x = [vin, px, nready, busy, vout, end, d: <<high byte, low byte>>]    *)
(*                                                                         *)
(* ph  "start" "data" "end" "forced" "reset" (the cycle after the frame)   *)
(* k   marker words already delivered                                      *)
(* bq  stuffed bytes of the frame not yet delivered (zero padded to a      *)
(*     whole word when the frame is closed)                                *)
(* dead cycles since the first accepted pixel, -1 before it                *)
(***************************************************************************)
EXTENDS Pipeline

MarkLen == 8
FFFF == <<255, 255>>
FFFE == <<255, 254>>
Early == 0      \* the forced end may not be seen before limit + Early cycles
Late == 8       \* and no data word is delivered after limit + Late cycles
IdleF == 200

FNew == [acc |-> 0, hist |-> <<>>, rem |-> <<>>, bq |-> <<>>, ph |-> "start", k |-> 0, dead |-> -1,
         fresh |-> TRUE, idle |-> 0, started |-> FALSE]
FTotal(cfg) == cfg.w * cfg.h
FClosed(cfg, s) == s.acc >= FTotal(cfg)

(* accepted group -> bits -> 16-bit words -> stuffed bytes *)
FAccept(cfg, s, g) ==
  LET a == FoldLeft(LAMBDA z, p : Take(cfg, z, p), s, g)
      c == Cut(a.rem, <<>>, 16, a.acc >= FTotal(cfg))
      b == a.bq \o Stuff(FlattenSeq(c[2]))
  IN [a EXCEPT !.rem = c[1],
               !.bq = b]
(* what the data phase may show next: a word, or nothing *)
Avail(cfg, s) == IF Len(s.bq) >= 2 THEN SubSeq(s.bq, 1, 2)
                 ELSE IF FClosed(cfg, s) /\ Len(s.bq) = 1 THEN <<s.bq[1], 0>>
                 ELSE <<>>
Done(cfg, s) == FClosed(cfg, s) /\ s.bq = <<>>
TimeUp(cfg, s) == s.dead >= 0 /\ s.dead >= cfg.limit + Early
TooLate(cfg, s) == s.dead >= 0 /\ s.dead > cfg.limit + Late

Accepts2(x)  == x.vin /\ ~x.nready
Delivers2(x) == x.vout /\ ~x.busy

(* the phase in which a shown word is read: after a complete start marker the word itself decides *)
PhaseOf(s, x) == IF s.ph = "start" /\ s.k = MarkLen THEN "data" ELSE s.ph

FErr(cfg, s, x) ==
  LET ph == PhaseOf(s, x) IN
  IF ph = "reset" THEN
       (IF x.vout THEN "word in the reset cycle"
        ELSE IF Accepts2(x) /\ FClosed(cfg, s) THEN "accepts a pixel after the last one" ELSE "ok")
  ELSE IF Accepts2(x) /\ s.fresh THEN "accepts pixels directly after reset"
  ELSE IF Accepts2(x) /\ FClosed(cfg, s) THEN "accepts a pixel after the last one"
  ELSE IF s.idle > IdleF THEN
       (IF ph \in {"end", "forced"} \/ Done(cfg, s) THEN "end marker is not completed"
        ELSE IF TooLate(cfg, s) THEN "forced end never comes"
        ELSE IF s.started THEN "stops delivering" ELSE "never starts")
  ELSE IF ~Delivers2(x) THEN "ok"
  ELSE IF ph = "start" THEN
       (IF x.d # FFFF THEN "start marker has a wrong word"
        ELSE IF x.end THEN "end flag inside the start marker"
        ELSE IF s.acc = 0 /\ s.k = 0 THEN "start marker before any pixel" ELSE "ok")
  ELSE IF ph = "data" THEN
       (IF x.end THEN "end flag before the last marker word"
        ELSE IF x.d = FFFF THEN (IF Done(cfg, s) THEN "ok" ELSE "end marker before all data words")
        ELSE IF x.d = FFFE THEN (IF ~TimeUp(cfg, s) THEN "forced end marker before the time is up"
                                 ELSE IF Done(cfg, s) THEN "forced end marker on a frame that was complete" ELSE "ok")
        ELSE IF TooLate(cfg, s) THEN "data word after the time is up"
        ELSE IF Avail(cfg, s) = <<>> THEN "word that belongs to no accepted pixel"
        ELSE IF x.d # Avail(cfg, s) THEN "wrong data word"
        ELSE "ok")
  ELSE LET m == IF ph = "end" THEN FFFF ELSE FFFE IN
       IF x.d # m THEN "end marker has a wrong word"
       ELSE IF x.end /\ s.k # MarkLen - 1 THEN "end flag inside the end marker"
       ELSE IF ~x.end /\ s.k = MarkLen - 1 THEN "last marker word without end flag"
       ELSE "ok"

FEff(cfg, s, x) ==
  LET ph == PhaseOf(s, x) IN
  IF ph = "reset" THEN FNew
  ELSE
  LET a == IF Accepts2(x) /\ ~FClosed(cfg, s) THEN FAccept(cfg, s, x.px) ELSE s
      del == Delivers2(x)
      d == IF ~del THEN a
           ELSE IF ph = "start" THEN [a EXCEPT !.k = @ + 1, !.started = TRUE]
           ELSE IF ph = "data" THEN
                  (IF x.d = FFFF THEN [a EXCEPT !.ph = "end", !.k = 1]
                   ELSE IF x.d = FFFE THEN [a EXCEPT !.ph = "forced", !.k = 1]
                   ELSE [a EXCEPT !.ph = "data", !.bq = SubSeq(@, 3, Len(@))])
           ELSE IF s.k = MarkLen - 1 THEN [a EXCEPT !.ph = "reset"]
           ELSE [a EXCEPT !.k = @ + 1]
      p2 == PhaseOf(d, x)
      want == p2 \in {"end", "forced"} \/ Done(cfg, d) \/ TooLate(cfg, d) \/ Avail(cfg, d) # <<>> \/ (x.vin /\ ~FClosed(cfg, d))
              \/ (d.started /\ p2 = "start")
  IN [d EXCEPT !.fresh = FALSE,
               !.dead = IF s.dead >= 0 THEN s.dead + 1 ELSE IF Accepts2(x) THEN 1 ELSE -1,
               !.idle = IF x.busy \/ del \/ Accepts2(x) \/ ~want THEN 0 ELSE @ + 1]

FFinal(s) == IF s.ph = "reset" \/ (s.ph = "start" /\ s.k = 0 /\ s.acc = 0) THEN "ok" ELSE "frame never finished"
=============================================================================
