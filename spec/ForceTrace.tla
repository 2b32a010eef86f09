---------------------------- MODULE ForceTrace ----------------------------
(* The frame timer: D.rows = <<limit, cycle of the first accepted pixel,    *)
(* cycle in which the forced end is first seen (-1: never), 1 if it was     *)
(* ever withdrawn, cycles observed>>.                                       *)
(* D.cut: a frame cut on the unmodified design: [limit, first, at: cycle of  *)
(* the first forced marker word, groups, runs of delivered words].          *)
EXTENDS Geometry, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
VARIABLES i, e
Lag == 3
RowErr(r) == LET at == ForcedAt(r[1], r[2]) IN
  IF r[3] >= 0 /\ r[3] < at THEN "forced end too early"
  ELSE IF r[3] > at + Lag THEN "forced end too late"
  ELSE IF r[3] < 0 /\ r[5] > at + Lag THEN "forced end missing"
  ELSE IF r[4] # 0 THEN "forced end withdrawn"
  ELSE "ok"
Init == i = 0 /\ e = "ok"
Next == i < Len(D.rows) /\ e = "ok" /\ i' = i + 1 /\ e' = RowErr(D.rows[i + 1])
OK == e = "ok"
CutOK == \A k \in 1..Len(D.cut) :
  LET c == D.cut[k] IN
    /\ c.at >= ForcedAt(c.limit, c.first) /\ c.at <= ForcedAt(c.limit, c.first) + Lag + 6
    /\ c.runs = << <<8, 255, 255, 0>>, <<(c.groups * c.ps * 4) \div 16, 238, 238, 0>>,
                   <<7, 255, 254, 0>>, <<1, 255, 254, 1>> >>
=============================================================================
