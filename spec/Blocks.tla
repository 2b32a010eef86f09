------------------------------- MODULE Blocks -------------------------------
(***************************************************************************)
(* Stand-alone building blocks.                                            *)
(*                                                                         *)
(* Bridge     AXI3 of the processor to an AXI-lite slave: requests, data   *)
(*            and answers pass unchanged in the same cycle; every answer   *)
(*            is the last beat and carries the id of the request (one      *)
(*            transaction at a time, answered two cycles after it was      *)
(*            raised or later).                                            *)
(*   x = [arv, ara, arid, rr, awv, awa, awid, wv, wd, br: from the master; *)
(*        sarr, srv, srd, sawr, swr, sbv, sbd: from the slave]             *)
(*   z = [arr, rv, rd, rid, rl, awr, wr, bv, bd, bid: to the master;       *)
(*        sarv, sara, srr, sawv, sawa, swv, swd, sbr: to the slave]        *)
(*   (payloads are strings: only equality matters)                         *)
(* AutoReset  raises reset in the cycle after a transfer (both handshakes) *)
(*            of an end-marked word, and keeps it until it is reset        *)
(* Delayer    raises its output a fixed number of cycles after the first   *)
(*            cycle with the input up, and keeps it until it is reset      *)
(* Counters   eight counters; each counts the cycles its enable was up     *)
(* Reverser   shows the bits in reverse order, in the same or next cycle   *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt

Bridge0 == [rid |-> "", wid |-> ""]
BridgeErr(s, x, z) ==
  LET rid == IF x.arv THEN x.arid ELSE s.rid
      wid == IF x.awv THEN x.awid ELSE s.wid
  IN IF z.sarv # x.arv \/ (x.arv /\ z.sara # x.ara) THEN "read request"
     ELSE IF z.sawv # x.awv \/ (x.awv /\ z.sawa # x.awa) THEN "write request"
     ELSE IF z.swv # x.wv \/ (x.wv /\ z.swd # x.wd) THEN "write data"
     ELSE IF z.srr # x.rr \/ z.sbr # x.br THEN "ready for an answer"
     ELSE IF z.arr # x.sarr \/ z.awr # x.sawr \/ z.wr # x.swr THEN "ready for a request"
     ELSE IF z.rv # x.srv \/ (x.srv /\ (z.rd # x.srd \/ ~z.rl)) THEN "read answer"
     ELSE IF z.bv # x.sbv \/ (x.sbv /\ z.bd # x.sbd) THEN "write answer"
     ELSE IF x.srv /\ z.rid # rid THEN "read answer with a wrong id"
     ELSE IF x.sbv /\ z.bid # wid THEN "write answer with a wrong id"
     ELSE "ok"
BridgeEff(s, x) == [rid |-> IF x.arv THEN x.arid ELSE s.rid, wid |-> IF x.awv THEN x.awid ELSE s.wid]

(* x = [rst, a: inputs], z: output *)
Auto0 == FALSE
AutoEff(s, x) == IF x.rst THEN FALSE ELSE s \/ x.a = <<1, 1, 1>>
Delay0 == 0
DelayEff(s, x, par) == IF x.rst THEN 0 ELSE IF s > 0 THEN (IF s < par THEN s + 1 ELSE s) ELSE IF x.a = <<1>> THEN 1 ELSE 0
BlockErr(kind, par, s, x, z) ==
  CASE kind = "auto" -> IF z = <<IF s THEN 1 ELSE 0>> THEN "ok" ELSE "reset"
    [] kind = "delay" -> IF z = <<IF s = par THEN 1 ELSE 0>> THEN "ok" ELSE "delay"
    [] kind = "count" -> IF z = s THEN "ok" ELSE "count"
    [] kind = "rev" -> IF z = Reverse(x.a) THEN "ok" ELSE "order"
    [] kind = "revsync" -> IF s = <<>> \/ z = Reverse(s) THEN "ok" ELSE "order"
BlockEff(kind, par, s, x) ==
  CASE kind = "auto" -> AutoEff(s, x)
    [] kind = "delay" -> DelayEff(s, x, par)
    [] kind = "count" -> [k \in 1..8 |-> IF x.rst THEN 0 ELSE s[k] + x.a[k]]
    [] kind = "revsync" -> IF x.rst THEN <<>> ELSE x.a
    [] OTHER -> s
Block0(kind) == CASE kind = "auto" -> Auto0 [] kind = "delay" -> Delay0
                      [] kind = "count" -> [k \in 1..8 |-> 0] [] OTHER -> <<>>
=============================================================================
