------------------------------ MODULE Wrappers ------------------------------
(***************************************************************************)
(* The bus-side wrappers around the encoder designs.  Bus words come in    *)
(* over a valid/ready stream; each carries pixels at documented positions; *)
(* the encoder's output leaves over a valid/ready/last stream.             *)
(*                                                                         *)
(* Kinds                input word       pixels        output word  last   *)
(*   "beta_axis"        32 bits          [20:32][8:20]  16 bits      yes   *)
(*   "micro_axis"       32 bits          [0:12]         16 bits      yes   *)
(*   "beta_fifo_axis"   64 bits          [52:64][40:52][28:40][16:28]      *)
(*                                                      16 bits      yes   *)
(*   "beta_fifo_lvds"   as before                       40 bits      no    *)
(*   "i3_axis"          64 bits          [0:12][12:24][24:36][36:48]       *)
(*                                       bare core      32 bits      yes   *)
(*   "beta_fullaxi"     64 bits in memory [32:44][44:56][0:12][12:24]      *)
(*                                       64 bits to memory, whole bursts   *)
(* Words are byte sequences, most significant byte first.                  *)
(*                                                                         *)
(* The wrapper is a function from the accepted words to the delivered      *)
(* ones: it may lag (buffering is not specified) but it may not run ahead, *)
(* lose, repeat, reorder or alter anything.  One step is one clock cycle   *)
(*   x = [sv, sr: input valid, ready;  b: the word offered;                *)
(*        mv, mr: output valid, ready;  ml: last;  d: the word shown]      *)
(*                                                                         *)
(* pq   pixels taken from accepted words, not yet in a group               *)
(* e    the encoder: [acc, hist, rem, bq] of the current frame             *)
(* out  words <<bytes, last>> that may be delivered;  part: bytes that do  *)
(*      not fill an output word yet                                        *)
(***************************************************************************)
EXTENDS Pipeline

IdleW == 240
MarkW == 8
Framed(kind) == kind # "i3_axis"
OutBytes(kind) == CASE kind = "beta_fifo_lvds" -> 5 [] kind = "beta_fullaxi" -> 8 [] kind = "i3_axis" -> 4 [] OTHER -> 2

(* value of w bits of the word, from bit lo *)
RECURSIVE WordBits(_)
WordBits(b) == IF b = <<>> THEN <<>> ELSE Bits(Head(b), 8) \o WordBits(Tail(b))
Field(bits, lo, w) == LET n == Len(bits) IN Val(SubSeq(bits, n - lo - w + 1, n - lo))
Lanes(kind, b) ==
  LET q == WordBits(b) IN
  CASE kind = "beta_axis" -> <<Field(q, 20, 12), Field(q, 8, 12)>>
    [] kind = "micro_axis" -> <<Field(q, 0, 12)>>
    [] kind \in {"beta_fifo_axis", "beta_fifo_lvds"} -> <<Field(q, 52, 12), Field(q, 40, 12), Field(q, 28, 12), Field(q, 16, 12)>>
    [] kind = "beta_fullaxi" -> <<Field(q, 32, 12), Field(q, 44, 12), Field(q, 0, 12), Field(q, 12, 12)>>
    [] kind = "i3_axis" -> <<Field(q, 0, 12), Field(q, 12, 12), Field(q, 24, 12), Field(q, 36, 12)>>

E0 == [acc |-> 0, hist |-> <<>>, rem |-> <<>>, bq |-> <<>>]
WNew == [pq |-> <<>>, e |-> E0, part |-> <<>>, out |-> <<>>, held |-> FALSE, idle |-> 0, ended |-> FALSE, frames |-> 0]
Mark(last) == [k \in 1..MarkW |-> <<(<<255, 255>>), IF last /\ k = MarkW THEN 1 ELSE 0>>]

RECURSIVE Pairs(_)
Pairs(b) == IF Len(b) < 2 THEN <<>> ELSE <<(<<SubSeq(b, 1, 2), 0>>)>> \o Pairs(SubSeq(b, 3, Len(b)))

(* one group into the encoder; result <<encoder, words>> *)
Group(kind, cfg, e, g) ==
  LET a == FoldLeft(LAMBDA z, p : Take(cfg, z, p), e, g)
      closed == a.acc >= cfg.w * cfg.h
      c == Cut(a.rem, <<>>, IF Framed(kind) THEN 16 ELSE 32, closed)
  IN IF Framed(kind)
     THEN LET b == a.bq \o Stuff(FlattenSeq(c[2]))
              p == IF closed /\ Len(b) % 2 = 1 THEN Append(b, 0) ELSE b
              n == (Len(p) \div 2) * 2
              ws == (IF e.acc = 0 THEN Mark(FALSE) ELSE <<>>) \o Pairs(p)
          IN IF closed THEN <<E0, ws \o Mark(TRUE)>>
             ELSE <<[a EXCEPT !.rem = c[1], !.bq = SubSeq(p, n + 1, Len(p))], ws>>
     ELSE <<[a EXCEPT !.rem = c[1]],
            [k \in 1..Len(c[2]) |-> <<c[2][k], IF closed /\ k = Len(c[2]) THEN 1 ELSE 0>>]>>

RECURSIVE Feed(_, _, _)
Feed(kind, cfg, s) ==
  IF Len(s.pq) < cfg.ps \/ s.ended THEN s
  ELSE LET r == Group(kind, cfg, s.e, SubSeq(s.pq, 1, cfg.ps))
           done == IF Framed(kind) THEN r[1].acc = 0 ELSE r[1].acc >= cfg.w * cfg.h
       IN Feed(kind, cfg, [s EXCEPT !.pq = SubSeq(@, cfg.ps + 1, Len(@)), !.e = r[1], !.out = @ \o r[2],
                                      !.frames = IF done THEN @ + 1 ELSE @, !.ended = done /\ ~Framed(kind)])

RECURSIVE CutN(_, _)
CutN(b, n) == IF Len(b) < n THEN <<>> ELSE <<(<<SubSeq(b, 1, n), 0>>)>> \o CutN(SubSeq(b, n + 1, Len(b)), n)
(* LVDS, memory: the encoder's words become wider words without a last flag *)
Packs(kind) == kind \in {"beta_fifo_lvds", "beta_fullaxi"}
Packed(kind, s, old) ==
  IF ~Packs(kind) THEN s
  ELSE LET new == SubSeq(s.out, Len(old) + 1, Len(s.out))
           b == s.part \o FlattenSeq([k \in 1..Len(new) |-> new[k][1]])
           n == (Len(b) \div OutBytes(kind)) * OutBytes(kind)
       IN [s EXCEPT !.out = old \o CutN(b, OutBytes(kind)), !.part = SubSeq(b, n + 1, Len(b))]

(* The marker stage answers to ready within the cycle: what it shows while the sink is not ready is not a  *)
(* promise (a transfer is valid and ready together).  Behind the 40-bit packer and the bare core it is.     *)
Holds(kind) == kind \in {"beta_fifo_lvds", "i3_axis"}

WErr(kind, cfg, s, x) ==
  LET y == x.mv /\ (x.mr \/ Holds(kind)) IN
  IF s.ended /\ s.out = <<>> THEN   \* the bare core stays on its last word until it is reset
       (IF x.sv /\ x.sr THEN "accepts a word after the end" ELSE "ok")
  ELSE IF Holds(kind) /\ s.held /\ ~x.mv THEN "withdraws a word before it is taken"
  ELSE IF x.sv /\ x.sr /\ s.ended THEN "accepts a word after the end"
  ELSE IF y /\ s.out = <<>> THEN "word that belongs to no accepted pixel"
  ELSE IF y /\ x.d # Head(s.out)[1] THEN "wrong word"
  ELSE IF y /\ x.ml # Head(s.out)[2] THEN (IF x.ml = 1 THEN "last flag before the last word" ELSE "last word without last flag")
  ELSE IF s.idle > IdleW THEN "stuck"
  ELSE "ok"

WEff(kind, cfg, s, x) ==
  LET acc == x.sv /\ x.sr
      del == x.mv /\ x.mr /\ s.out # <<>>
      d == IF del THEN [s EXCEPT !.out = Tail(@)] ELSE s
      a == IF acc THEN Packed(kind, Feed(kind, cfg, [d EXCEPT !.pq = @ \o Lanes(kind, x.b)]), d.out) ELSE d
  IN [a EXCEPT !.held = x.mv /\ ~x.mr,
               !.idle = IF ~x.mr \/ acc \/ del \/ (a.out = <<>> /\ (~x.sv \/ a.ended)) THEN 0 ELSE @ + 1]

(* The memory-to-memory design: m counts the words fetched and stored.  Words are fetched once each from   *)
(* consecutive addresses and stored at consecutive addresses; the words of an incomplete burst stay inside. *)
BurstWords == 16
MErr(kind, s, m, x) ==
  IF x.get THEN (IF x.i = m.got THEN "ok" ELSE "fetches the wrong word")
  ELSE IF x.i # m.put THEN "stores to the wrong place"
  ELSE IF s.out = <<>> THEN "word that belongs to no fetched pixel"
  ELSE IF x.d # Head(s.out)[1] THEN "wrong word"
  ELSE "ok"
MEff(kind, cfg, s, x) ==
  IF x.get THEN Packed(kind, Feed(kind, cfg, [s EXCEPT !.pq = @ \o Lanes(kind, x.d)]), s.out) ELSE [s EXCEPT !.out = Tail(@)]
MFinal(s, m, nframes, nwords) ==
  IF m.got # nwords THEN "words not fetched"
  ELSE IF s.frames # nframes THEN "words not accepted"
  ELSE IF m.put % BurstWords # 0 THEN "incomplete burst"
  ELSE IF Len(s.out) >= BurstWords THEN "words left inside"
  ELSE "ok"

WFinal(kind, s, nframes) ==
  IF s.out # <<>> THEN "words left inside"
  ELSE IF s.frames # nframes THEN "words not accepted"
  ELSE "ok"
=============================================================================
