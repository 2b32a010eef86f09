---------------------------- MODULE StageTrace ----------------------------
(* Recorded runs of one real stage against Stages.tla.                       *)
(* D.traces[t] = [kind, bd, w, lat, tab, rows]; row =                        *)
(*   <<vin, ein, input lanes, vout, eout, output lanes>>                     *)
(* A delay line of `lat` entries holds what must leave.                      *)
EXTENDS Stages, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, line, mem, e

None == <<>>
Mem0(tr) == [acc |-> 0, w |-> tr.w, bd |-> tr.bd, hist |-> <<>>, out |-> <<>>]

(* what enters the delay line: <<end flag, input lanes, predictions>> *)
Enter(tr, m, row) == IF row[1] = 1 THEN <<row[2], row[3], m.out>> ELSE None

LaneOK(tr, x, p, y) ==
  CASE tr.kind = "predict" -> y[1] = x /\ y[2] = p
    [] tr.kind = "diff"    -> /\ DiffOK(tr.bd, x[1], x[2], y[1])
                              /\ (y[2] - (y[1] - 1)) % Pow2(tr.bd + 1) = 0
    [] tr.kind = "norm"    -> NormOK(x, y[1], y[2])
    [] tr.kind = "encode"  -> y[1] = CodeWord(tr.tab, x[1], x[2]) /\ y[2] = CodeLen(tr.tab, x[1])

Match(tr, exp, row) ==
  IF exp = None THEN (IF row[4] = 0 THEN "ok" ELSE "output although nothing was put in")
  ELSE IF row[4] = 0 THEN "output missing"
  ELSE IF row[5] # exp[1] THEN "end flag wrong"
  ELSE IF tr.kind = "merge"
       THEN (IF row[6] = Merged(exp[2]) THEN "ok" ELSE "merged code wrong")
  ELSE IF \A k \in 1..Len(exp[2]) : LaneOK(tr, exp[2][k], IF tr.kind = "predict" THEN exp[3][k] ELSE 0, row[6][k])
       THEN "ok" ELSE tr.kind \o " value wrong"

Init == /\ t \in 1..Len(T)
        /\ i = 0
        /\ line = [k \in 1..T[t].lat |-> None]
        /\ mem = Mem0(T[t])
        /\ e = "ok"
Next == /\ e = "ok"
        /\ i < Len(T[t].rows)
        /\ t' = t
        /\ i' = i + 1
        /\ LET tr == T[t]
               row == tr.rows[i + 1]
               m == IF tr.kind = "predict" /\ row[1] = 1 THEN PredictGroup(mem, row[3]) ELSE mem
           IN /\ e' = Match(tr, Head(line), row)
              /\ mem' = m
              /\ line' = Append(Tail(line), Enter(tr, m, row))
OK == e = "ok"
View == <<t, i, e>>
=============================================================================
