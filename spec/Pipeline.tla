----------------------------- MODULE Pipeline -----------------------------
(***************************************************************************)
(* The encoder core (pixels -> packed code words) as a state machine.      *)
(*                                                                         *)
(* A configuration is a record cfg:                                        *)
(*   ps  pixels per cycle     bd  bit depth      w, h  frame geometry      *)
(*   ob  output word width (a multiple of 8)     tab  the Huffman table    *)
(*   atreset  the run starts in the very first cycle after reset           *)
(* The state s of a frame:                                                 *)
(*   acc   pixels accepted so far                                          *)
(*   hist  the last w accepted pixels                                      *)
(*   rem   code bits not yet filling a word                                *)
(*   wq    complete words (byte tuples) not yet delivered                  *)
(*   held  a word was presented while the sink was busy                    *)
(*   over  the end-marked word has been taken                              *)
(*   fresh the first cycle after reset                                     *)
(*   idle  consecutive cycles in which the sink was free and nothing moved *)
(* One step is one clock cycle x: vin, px (offered group), busy are the    *)
(* environment's, nready, vout, end, data the core's.                      *)
(***************************************************************************)
EXTENDS Codec

New(cfg) == [acc |-> 0, hist |-> <<>>, rem |-> <<>>, wq |-> <<>>,
             held |-> FALSE, over |-> FALSE, fresh |-> TRUE, idle |-> 0]
Total(cfg) == cfg.w * cfg.h
Closed(cfg, s) == s.acc >= Total(cfg)

-----------------------------------------------------------------------------
(* accepting pixels *)
PredictH(cfg, acc, hist) ==
  LET c == acc % cfg.w
      n == Len(hist)
  IN IF c >= NComp THEN hist[n - NComp + 1]
     ELSE IF acc >= cfg.w THEN hist[n - cfg.w + 1]
     ELSE Half(cfg.bd)

Take(cfg, s, p) ==
  LET q == PredictH(cfg, s.acc, s.hist)
      h == Append(s.hist, p)
  IN [s EXCEPT !.acc = @ + 1,
               !.hist = IF Len(h) > cfg.w THEN Tail(h) ELSE h,
               !.rem = @ \o CodeBits(cfg.tab, Diff(p, q))]

(* move complete words from rem to wq; flush: also a padded incomplete one *)
BytesOf(b, W) == [k \in 1..(W \div 8) |-> Val(SubSeq(b, 8 * k - 7, 8 * k))]
RECURSIVE Cut(_, _, _, _)
Cut(rem, wq, W, flush) ==
  IF Len(rem) >= W THEN Cut(SubSeq(rem, W + 1, Len(rem)), Append(wq, BytesOf(rem, W)), W, flush)
  ELSE IF flush /\ rem # <<>> THEN <<(<<>>), Append(wq, BytesOf(PadRight(rem, W), W))>>
  ELSE <<rem, wq>>

Accept(cfg, s, g) ==
  LET a == FoldLeft(LAMBDA z, p : Take(cfg, z, p), s, g)
      c == Cut(a.rem, a.wq, cfg.ob, a.acc >= Total(cfg))
  IN [a EXCEPT !.rem = c[1], !.wq = c[2]]

-----------------------------------------------------------------------------
(* the cycle *)
IdleLimit == 160      \* generous: every internal queue moves at least one item per cycle

Accepts(x)  == x.vin /\ ~x.nready
Delivers(x) == x.vout /\ ~x.busy

Err(cfg, s, x) ==
  IF s.over THEN (IF Accepts(x) THEN "accepts pixels after the end of the frame" ELSE "ok")
  ELSE IF Accepts(x) /\ s.fresh /\ cfg.atreset THEN "accepts pixels directly after reset"
  ELSE IF Accepts(x) /\ Closed(cfg, s) THEN "accepts a pixel after the last one"
  ELSE IF s.held /\ ~x.vout THEN "withdraws a word before it is taken"
  ELSE IF x.vout /\ s.wq = <<>> THEN
         (IF Closed(cfg, s) THEN "word after the last one" ELSE "word before its bits were accepted")
  ELSE IF x.vout /\ x.data # Head(s.wq) THEN "wrong word"
  ELSE IF x.vout /\ x.end /\ ~(Closed(cfg, s) /\ Len(s.wq) = 1) THEN "end flag before the last word"
  ELSE IF x.vout /\ ~x.end /\ Closed(cfg, s) /\ Len(s.wq) = 1 THEN "last word without end flag"
  ELSE IF s.idle > IdleLimit THEN
         (IF s.wq # <<>> THEN "complete words are never delivered" ELSE "never ready again")
  ELSE "ok"

Eff(cfg, s, x) ==
  LET d == IF Delivers(x) /\ ~s.over /\ s.wq # <<>>
           THEN [s EXCEPT !.wq = Tail(@), !.over = Closed(cfg, s) /\ Len(s.wq) = 1]
           ELSE s
      a == IF Accepts(x) /\ ~Closed(cfg, s) THEN Accept(cfg, d, x.px) ELSE d
      want == a.wq # <<>> \/ (x.vin /\ ~Closed(cfg, a))
  IN [a EXCEPT !.fresh = FALSE, !.held = x.vout /\ x.busy /\ ~a.over,
               !.idle = IF x.busy \/ Delivers(x) \/ Accepts(x) \/ ~want \/ a.over THEN 0 ELSE @ + 1]

(* nothing may be missing once the driver has waited long enough *)
Final(cfg, s) ==
  IF s.over THEN "ok"
  ELSE IF s.wq # <<>> THEN "words missing at the end"
  ELSE IF Closed(cfg, s) THEN "frame never ended"
  ELSE "ok"
=============================================================================
