----------------------------- MODULE BoardTrace -----------------------------
(* Recorded calls and runs of the board test program against BoardProgram.tla; e is the set of what is wrong *)
EXTENDS BoardProgram, Json, IOUtils
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, e
RunErr(x) ==
  CASE x.op = "raw" -> IF x.bad = 0 /\ Shows(Kind(x.bits), x.bits \div 8, x.mem, x.raw) THEN {} ELSE {"picture"}
    [] x.op = "swap" -> IF SubSeq(x.mem, 1, Len(Even(x.file))) = Swap(x.file) THEN {} ELSE {"reference"}
    [] x.op = "check" -> Wrong(x.says, x.mem, x.file)
    [] OTHER -> Whole(x.cfg, x.mem, x.file, x.events, x.early)
Init == t \in 1..Len(T) /\ i = 0 /\ e = {}
Next == i = 0 /\ i' = 1 /\ t' = t /\ e' = RunErr(T[t])
ForcedEndMarker == "forced-end-marker" \notin e
OddLastByte == "odd-last-byte" \notin e
OK == e \subseteq {"forced-end-marker", "odd-last-byte"}
=============================================================================
