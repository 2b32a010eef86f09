------------------------------- MODULE Burst -------------------------------
(***************************************************************************)
(* The two AXI burst engines and the address generator, seen from outside. *)
(* One step is one clock cycle; B = beats of a burst.                      *)
(*                                                                         *)
(* Reader  x = [en, full, av, aa, arr, rv, rd, rl, resp,          inputs   *)
(*              arvalid, araddr, ar: <<len, burst, size, id, prot>>, take, *)
(*              rready, put, out, err, idle, active]              outputs  *)
(* full = FALSE promises room for one whole burst, av: an address is       *)
(* offered, take: it is consumed, put: a word enters the buffer.           *)
(*                                                                         *)
(* Writer  x = [en, av, aa, avail, di, strb, awr, wr, bv, resp,            *)
(*              awvalid, awaddr, aw, take, wvalid, wdata, wlast, wstrb,    *)
(*              get, bready, err, idle, active, unconf]                    *)
(* avail promises the words of one whole burst.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences

MaxOut == 8
MaxUnconf == 15
Wait == 8
Fixed(B) == <<B - 1, 1, 3, 0, 0>>     \* length, incrementing, 8 bytes, id 0, unprivileged data

(* ---- read engine ----
   out   bursts issued and not finished       beat  beats of the current one
   pend  an address is shown, not yet taken   en    enable in the last cycle
   room  the buffer has had room for a burst since the last beat
   ws    cycles in which the engine could have issued / read but did not *)
R0 == [out |-> 0, beat |-> 0, pend |-> FALSE, en |-> FALSE, room |-> FALSE, wi |-> 0, wr |-> 0]
RBeat(x) == x.rv /\ x.rready
RTake(x) == x.arvalid /\ x.arr
RErr(B, s, x) ==
  IF s.pend /\ ~x.arvalid THEN "address withdrawn"
  ELSE IF x.arvalid /\ ~x.av THEN "burst without an address"
  ELSE IF x.arvalid /\ ~s.pend /\ ~(s.en \/ x.en) THEN "burst although disabled"
  ELSE IF x.arvalid /\ s.out >= MaxOut THEN "more than eight bursts outstanding"
  ELSE IF x.arvalid /\ x.araddr # x.aa THEN "wrong address"
  ELSE IF x.arvalid /\ x.ar # Fixed(B) THEN "wrong burst parameters"
  ELSE IF x.take # RTake(x) THEN "address taken without being issued or the reverse"
  ELSE IF RBeat(x) /\ s.beat = 0 /\ ~s.room THEN "beat accepted without room for the burst"
  ELSE IF x.put # RBeat(x) THEN "beat lost or delivered twice"
  ELSE IF x.put /\ x.out # x.rd THEN "wrong data"
  ELSE IF x.err # (RBeat(x) /\ x.resp # 0) THEN "error flag wrong"
  ELSE IF x.idle # (s.out = 0) THEN "idle flag wrong"
  ELSE IF x.active # s.out THEN "number of bursts wrong"
  ELSE IF s.wi > Wait THEN "address is not issued"
  ELSE IF s.wr > Wait THEN "data is not accepted"
  ELSE "ok"
REff(B, s, x) ==
  LET fin == RBeat(x) /\ x.rl IN
  [out |-> s.out + (IF RTake(x) THEN 1 ELSE 0) - (IF fin THEN 1 ELSE 0),
   beat |-> IF RBeat(x) THEN (IF fin THEN 0 ELSE s.beat + 1) ELSE s.beat,
   pend |-> x.arvalid /\ ~x.arr,
   en |-> x.en,
   room |-> IF RBeat(x) THEN FALSE ELSE ~x.full \/ s.room,
   wi |-> IF x.en /\ x.av /\ ~x.arvalid /\ s.out < MaxOut THEN s.wi + 1 ELSE 0,
   wr |-> IF s.out > 0 /\ ~x.rready /\ (s.room \/ ~x.full) THEN s.wr + 1 ELSE 0]

(* ---- write engine ----
   act  bursts issued whose data is not complete   unc  bursts not confirmed *)
W0 == [act |-> 0, unc |-> 0, beat |-> 0, pend |-> FALSE, en |-> FALSE, words |-> FALSE, wp |-> FALSE, wi |-> 0, wr |-> 0, wb |-> 0]
WBeat(x) == x.wvalid /\ x.wr
WTake(x) == x.awvalid /\ x.awr
WResp(x) == x.bv /\ x.bready
WErr(B, s, x) ==
  IF s.pend /\ ~x.awvalid THEN "address withdrawn"
  ELSE IF x.awvalid /\ ~x.av THEN "burst without an address"
  ELSE IF x.awvalid /\ ~s.pend /\ ~(s.en \/ x.en) THEN "burst although disabled"
  ELSE IF x.awvalid /\ s.act >= MaxOut THEN "more than eight bursts outstanding"
  ELSE IF x.awvalid /\ x.awaddr # x.aa THEN "wrong address"
  ELSE IF x.awvalid /\ x.aw # Fixed(B) THEN "wrong burst parameters"
  ELSE IF x.take # WTake(x) THEN "address taken without being issued or the reverse"
  ELSE IF s.wp /\ ~x.wvalid THEN "data withdrawn"
  ELSE IF x.wvalid /\ s.act = 0 THEN "data without a burst"
  ELSE IF x.wvalid /\ s.beat = 0 /\ ~s.words THEN "data although the buffer has no complete burst"
  ELSE IF x.wvalid /\ x.wdata # x.di THEN "wrong data"
  ELSE IF x.wvalid /\ x.wstrb # x.strb THEN "wrong strobes"
  ELSE IF x.wvalid /\ x.wlast # (s.beat = B - 1) THEN "last flag wrong"
  ELSE IF x.get # WBeat(x) THEN "word lost or written twice"
  ELSE IF x.err # (WResp(x) /\ x.resp # 0) THEN "error flag wrong"
  ELSE IF x.idle # (s.act = 0 /\ s.unc = 0) THEN "idle flag wrong"
  ELSE IF x.active # s.act THEN "number of bursts wrong"
  ELSE IF x.unconf # s.unc THEN "number of unconfirmed bursts wrong"
  ELSE IF s.wi > Wait THEN "address is not issued"
  ELSE IF s.wr > Wait THEN "data is not written"
  ELSE IF s.wb > Wait THEN "confirmation is not accepted"
  ELSE "ok"
WEff(B, s, x) ==
  LET fin == WBeat(x) /\ s.beat = B - 1 IN
  [act |-> s.act + (IF WTake(x) THEN 1 ELSE 0) - (IF fin THEN 1 ELSE 0),
   unc |-> s.unc + (IF WTake(x) THEN 1 ELSE 0) - (IF WResp(x) THEN 1 ELSE 0),
   beat |-> IF WBeat(x) THEN (IF fin THEN 0 ELSE s.beat + 1) ELSE s.beat,
   pend |-> x.awvalid /\ ~x.awr,
   en |-> x.en,
   words |-> IF WBeat(x) THEN FALSE ELSE x.avail \/ s.words,
   wp |-> x.wvalid /\ ~x.wr,
   wi |-> IF x.en /\ x.av /\ ~x.awvalid /\ s.act < MaxOut /\ s.unc < MaxUnconf THEN s.wi + 1 ELSE 0,
   wr |-> IF s.act > 0 /\ ~x.wvalid /\ (s.words \/ x.avail) THEN s.wr + 1 ELSE 0,
   wb |-> IF x.bv /\ ~x.bready THEN s.wb + 1 ELSE 0]

(* ---- address generator: x = [take, start, valid, addr], addresses <<high 16 bits, low 16 bits>> ---- *)
AddA(a, n) == LET l == a[2] + n IN <<(a[1] + l \div 65536) % 65536, l % 65536>>
G0 == [k |-> 0, first |-> TRUE, start |-> <<0, 0>>, next |-> <<0, 0>>, wait |-> 0]
GErr(step, s, x) ==
  IF s.wait > Wait THEN "no address"
  ELSE IF ~x.valid THEN (IF s.first /\ s.k = 0 THEN "ok" ELSE "address withdrawn")
  ELSE IF s.k = 0 /\ x.addr # s.start THEN "first address is not the start address"
  ELSE IF s.k > 0 /\ x.addr # s.next THEN "address skipped or repeated"
  ELSE "ok"
GEff(step, s, x) ==
  LET t == x.take /\ x.valid IN
  [k |-> IF t THEN 1 ELSE s.k,
   first |-> s.first /\ ~x.valid,
   start |-> x.start,
   next |-> IF t THEN AddA(x.addr, step) ELSE s.next,
   wait |-> IF x.valid THEN 0 ELSE s.wait + 1]

Err(kind, B, s, x) == CASE kind = "reader" -> RErr(B, s, x) [] kind = "writer" -> WErr(B, s, x) [] OTHER -> GErr(B, s, x)
Eff(kind, B, s, x) == CASE kind = "reader" -> REff(B, s, x) [] kind = "writer" -> WEff(B, s, x) [] OTHER -> GEff(B, s, x)
Init0(kind) == CASE kind = "reader" -> R0 [] kind = "writer" -> W0 [] OTHER -> G0
=============================================================================
