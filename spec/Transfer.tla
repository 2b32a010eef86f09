------------------------------ MODULE Transfer -----------------------------
(***************************************************************************)
(* The memory-to-memory design as a bus master: which bursts it asks for,  *)
(* when, and what its status registers say about it.  The state counts the *)
(* bursts requested, the words moved and the responses taken.              *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS ReadLimit, WriteLimit, Burst, MaxActive, MaxUnconf

(* on: 0 not started, 1 running, 2 stopped again; late: bursts requested since it was stopped (one address may   *)
(* have been shown already); val: the start register                                                            *)
TNew == [on |-> 0, ar |-> 0, aw |-> 0, rb |-> 0, wb |-> 0, b |-> 0, late |-> <<0, 0>>, val |-> <<0, 0>>]
RAct(s) == s.ar - s.rb \div Burst          \* read bursts without all their data
WAct(s) == s.aw - s.wb \div Burst          \* write bursts without all their data
Unc(s) == s.aw - s.b                       \* write bursts without a response

(* events: <<"ar", k>>, <<"aw", k>> burst number k requested; <<"r", last>>, <<"w", last, strobe>> a word moved; *)
(* <<"b">> a response taken; <<"start", v>> the host has written v, as two halves of 16 bits                     *)
TErr(s, x, limited) ==
  CASE x[1] = "ar" ->
         IF s.on = 0 THEN "reads before it is started"
         ELSE IF s.on = 2 /\ s.late[1] >= 1 THEN "reads after it is stopped"
         ELSE IF x[2] # s.ar THEN "read burst at the wrong address or of the wrong length"
         ELSE IF limited /\ s.ar >= ReadLimit THEN "reads beyond the frame"
         ELSE IF RAct(s) >= MaxActive THEN "too many read bursts at once"
         ELSE "ok"
    [] x[1] = "aw" ->
         IF s.on = 0 THEN "writes before it is started"
         ELSE IF s.on = 2 /\ s.late[2] >= 1 THEN "writes after it is stopped"
         ELSE IF x[2] # s.aw THEN "write burst at the wrong address or of the wrong length"
         ELSE IF s.aw >= WriteLimit THEN "writes beyond the window"
         ELSE IF WAct(s) >= MaxActive THEN "too many write bursts at once"
         ELSE IF Unc(s) >= MaxUnconf THEN "too many unconfirmed bursts"
         ELSE "ok"
    [] x[1] = "r" -> IF s.rb >= s.ar * Burst THEN "takes words nobody asked for" ELSE "ok"
    [] x[1] = "w" ->
         IF s.wb >= s.aw * Burst THEN "data before its address"
         ELSE IF (x[2] = 1) # ((s.wb + 1) % Burst = 0) THEN "last flag on the wrong word"
         ELSE IF x[3] # 255 THEN "bytes not strobed"
         ELSE "ok"
    [] OTHER -> "ok"
TEff(s, x) ==
  CASE x[1] = "ar" -> [s EXCEPT !.ar = @ + 1, !.late[1] = IF s.on = 2 THEN @ + 1 ELSE 0]
    [] x[1] = "aw" -> [s EXCEPT !.aw = @ + 1, !.late[2] = IF s.on = 2 THEN @ + 1 ELSE 0]
    [] x[1] = "r" -> [s EXCEPT !.rb = @ + 1]
    [] x[1] = "w" -> [s EXCEPT !.wb = @ + 1]
    [] x[1] = "b" -> [s EXCEPT !.b = @ + 1]
    [] x[1] = "start" -> [s EXCEPT !.on = IF x[2] = <<65535, 65535>> THEN 1 ELSE IF s.on = 1 THEN 2 ELSE s.on,
                                    !.late = <<0, 0>>, !.val = x[2]]
    [] OTHER -> s

(* the status registers: a value read between the states p and q (p before q), as two halves of 16 bits *)
Bit(h, k) == (h \div 2^k) % 2
Field(v, k, n) == LET at(j) == IF k + j < 16 THEN Bit(v[2], k + j) ELSE Bit(v[1], k + j - 16)
                  IN (IF n > 0 THEN at(0) ELSE 0) + (IF n > 1 THEN 2 * at(1) ELSE 0)
                     + (IF n > 2 THEN 4 * at(2) ELSE 0) + (IF n > 3 THEN 8 * at(3) ELSE 0)
MinT(a, b) == IF a < b THEN a ELSE b
MaxT(a, b) == IF a > b THEN a ELSE b
(* an address base + 128 * k, k in lo..hi *)
AddrIn(v, base, lo, hi) == \E k \in lo..hi :
  LET l == base[2] + (k % 512) * 128
  IN v[2] = l % 65536 /\ v[1] = (base[1] + k \div 512 + l \div 65536) % 65536
CountIn(v, lo, hi) == \E k \in lo..hi : v = <<k \div 65536, k % 65536>>
RegErr(reg, v, p, q, cfg) ==
  CASE reg = 0 -> IF v # cfg.src THEN "read address register" ELSE "ok"
    [] reg = 1 -> IF v # cfg.dst THEN "write address register" ELSE "ok"
    [] reg = 2 -> IF v # q.val THEN "start register" ELSE "ok"
    [] reg = 3 ->
         LET wact == Field(v, 11, 4)
             ract == Field(v, 15, 4)
             unc == Field(v, 19, 4)
         IN IF ~(ract \in MaxT(0, p.ar - q.rb \div Burst)..(q.ar - p.rb \div Burst)) THEN "number of read bursts under way"
            ELSE IF ~(wact \in MaxT(0, p.aw - q.wb \div Burst)..(q.aw - p.wb \div Burst)) THEN "number of write bursts under way"
            ELSE IF ~(unc \in MaxT(0, p.aw - q.b)..(q.aw - p.b)) THEN "number of unconfirmed bursts"
            ELSE IF Bit(v[2], 7) # (IF ract = 0 THEN 1 ELSE 0) THEN "reader inactive flag"
            ELSE IF Bit(v[2], 8) # (IF wact = 0 /\ unc = 0 THEN 1 ELSE 0) THEN "writer inactive flag"
            ELSE IF Bit(v[2], 9) # 0 THEN "writer error flag"
            ELSE IF Bit(v[2], 10) # 0 THEN "reader error flag"
            ELSE IF q.aw < WriteLimit /\ Bit(v[2], 6) # 0 THEN "write end flag too early"
            ELSE IF p.aw >= WriteLimit /\ Bit(v[2], 6) # 1 THEN "write end flag missing"
            ELSE IF q.ar < ReadLimit /\ Bit(v[2], 5) # 0 THEN "read end flag too early"
            ELSE "ok"
    [] reg = 4 -> IF ~AddrIn(v, cfg.src, p.ar, q.ar) THEN "current read address" ELSE "ok"
    [] reg = 5 -> IF ~AddrIn(v, cfg.dst, p.aw, q.aw) THEN "current write address" ELSE "ok"
    [] reg = 6 -> IF ~CountIn(v, MinT(p.ar, ReadLimit), MinT(q.ar, ReadLimit)) THEN "number of read bursts" ELSE "ok"
    [] reg = 7 -> IF ~CountIn(v, MinT(p.aw, WriteLimit), MinT(q.aw, WriteLimit)) THEN "number of write bursts" ELSE "ok"
    [] OTHER -> "ok"
=============================================================================
