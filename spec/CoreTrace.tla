----------------------------- MODULE CoreTrace -----------------------------
(***************************************************************************)
(* The encoder below its word packer, as stand-alone designs.              *)
(*                                                                         *)
(*  core1 (integration_1): no handshake; a group of pixels entering in     *)
(*        cycle n leaves as one code word - the concatenated codes of the  *)
(*        group - in cycle n + lat, and nothing else ever leaves; the last *)
(*        group of the frame carries the end flag.                         *)
(*  core2 (integration_2): accepts a group when it is offered and nready   *)
(*        is low, hands out the code bits in pieces that the reader takes  *)
(*        with latch; a piece stays until it is taken, pieces come in      *)
(*        order, nothing is lost or invented, the one with the frame's     *)
(*        last bits carries the end flag.                                  *)
(*                                                                         *)
(* D.traces[t] = [kind, cfg, lat, rows];                                   *)
(* row = <<vin, group, nready, vout, end, bits, latch>>                    *)
(***************************************************************************)
EXTENDS Pipeline, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, e
None == [v |-> FALSE, end |-> FALSE, bits |-> <<>>]
(* acc, hist as in Pipeline; rem: code bits not handed out; line: what is under way (core1); shown: an untaken piece (core2) *)
S0(tr) == [acc |-> 0, hist |-> <<>>, rem |-> <<>>, line |-> [k \in 1..tr.lat |-> None], shown |-> None]
TakeAll(cfg, z, g) == FoldLeft(LAMBDA a, p : Take(cfg, a, p), z, g)

Match1(z, row) ==
  LET x == Head(z.line)
  IN IF ~x.v THEN (IF row[4] = 0 THEN "ok" ELSE "output although nothing was put in")
     ELSE IF row[4] = 0 THEN "output missing"
     ELSE IF row[6] # x.bits THEN "wrong code"
     ELSE IF (row[5] = 1) # x.end THEN "end flag wrong" ELSE "ok"
Step1(tr, z, row) ==
  IF row[1] = 0 \/ z.acc >= Total(tr.cfg) THEN [z EXCEPT !.line = Append(Tail(@), None)]
  ELSE LET a == TakeAll(tr.cfg, [z EXCEPT !.rem = <<>>], row[2])
       IN [a EXCEPT !.line = Append(Tail(@), [v |-> TRUE, end |-> a.acc >= Total(tr.cfg), bits |-> a.rem])]

Match2(tr, z, row) ==
  LET closed == z.acc >= Total(tr.cfg)
      b == row[6]
  IN IF row[1] = 1 /\ row[3] = 0 /\ closed THEN "accepts a pixel after the last one"
     ELSE IF z.shown.v /\ (row[4] = 0 \/ row[6] # z.shown.bits \/ (row[5] = 1) # z.shown.end) THEN "withdraws a piece"
     ELSE IF row[4] = 0 THEN "ok"
     ELSE IF Len(b) = 0 \/ Len(b) > tr.cfg.conv THEN "length of a piece"
     ELSE IF ~IsPrefixOf(b, z.rem) THEN "wrong code"
     ELSE IF (row[5] = 1) # (closed /\ Len(b) = Len(z.rem)) THEN "end flag wrong" ELSE "ok"
Step2(tr, z, row) ==
  LET out == IF row[4] = 0 THEN [z EXCEPT !.shown = None]
             ELSE IF row[7] = 1 THEN [z EXCEPT !.rem = SubSeq(@, Len(row[6]) + 1, Len(@)), !.shown = None]
             ELSE [z EXCEPT !.shown = [v |-> TRUE, end |-> row[5] = 1, bits |-> row[6]]]
  IN IF row[1] = 1 /\ row[3] = 0 THEN TakeAll(tr.cfg, out, row[2]) ELSE out

Init == t \in 1..Len(T) /\ i = 0 /\ s = S0(T[t]) /\ e = "ok"
Next == /\ e = "ok"
        /\ i <= Len(T[t].rows)
        /\ t' = t
        /\ i' = i + 1
        /\ LET tr == T[t]
           IN IF i < Len(tr.rows)
              THEN LET row == tr.rows[i + 1]
                       m == IF tr.kind = "core1" THEN Match1(s, row) ELSE Match2(tr, s, row)
                   IN /\ e' = m
                      /\ s' = IF m # "ok" THEN s ELSE IF tr.kind = "core1" THEN Step1(tr, s, row) ELSE Step2(tr, s, row)
              ELSE /\ s' = s
                   /\ e' = IF tr.kind = "core2" /\ s.rem # <<>> THEN "code bits left inside"
                           ELSE IF s.acc < Len(tr.px) THEN "pixels never accepted" ELSE "ok"
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
