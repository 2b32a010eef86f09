----------------------------- MODULE MCFraming -----------------------------
(* The framing as a protocol: a sender that emits frames as the design does  *)
(* and a receiver that knows only the marker words.  Data words come from a  *)
(* byte-stuffed stream, so the byte after a 255 is 0.  Checked: the receiver *)
(* always knows exactly where it is and which frames were cut.               *)
EXTENDS Integers, Sequences
CONSTANTS Bytes, MaxWords, MaxFrames
VARIABLES ph, k, n, last, fr, rph, rk, rn, log, rlog
vars == <<ph, k, n, last, fr, rph, rk, rn, log, rlog>>
ONE == <<255, 255>>
CUT == <<255, 254>>
(* words a stuffed stream can contain after a byte `last` *)
DataWords(l) == {w \in Bytes \X Bytes : (l = 255 => w[1] = 0) /\ (w[1] = 255 => w[2] = 0)}
Init == /\ ph = "start" /\ k = 0 /\ n = 0 /\ last = 0 /\ fr = 0
        /\ rph = "start" /\ rk = 0 /\ rn = 0 /\ log = <<>> /\ rlog = <<>>
(* the receiver's reaction to word w with end flag f *)
Recv(w, f) ==
  CASE rph = "start" -> /\ rk' = IF rk = 7 THEN 0 ELSE rk + 1
                        /\ rph' = IF rk = 7 THEN "data" ELSE "start"
                        /\ rn' = 0 /\ rlog' = rlog
    [] rph = "data" -> /\ rph' = IF w = ONE THEN "end" ELSE IF w = CUT THEN "forced" ELSE "data"
                       /\ rk' = IF w \in {ONE, CUT} THEN 1 ELSE 0
                       /\ rn' = IF w \in {ONE, CUT} THEN rn ELSE rn + 1
                       /\ rlog' = rlog
    [] OTHER -> /\ rk' = IF rk = 7 THEN 0 ELSE rk + 1
                /\ rph' = IF rk = 7 THEN "start" ELSE rph
                /\ rn' = rn
                /\ rlog' = IF rk = 7 THEN Append(rlog, <<rn, rph, f>>) ELSE rlog
Send(w, f) == Recv(w, f)
Start == ph = "start" /\ fr < MaxFrames /\ Send(ONE, FALSE) /\ k' = (k + 1) % 8
         /\ ph' = (IF k = 7 THEN "data" ELSE "start") /\ n' = 0 /\ last' = 0 /\ UNCHANGED <<fr, log>>
Data == ph = "data" /\ n < MaxWords /\ \E w \in DataWords(last) : Send(w, FALSE) /\ last' = w[2]
        /\ n' = n + 1 /\ UNCHANGED <<ph, k, fr, log>>
(* a complete frame is closed only when its last stuffed byte is out *)
End(m) == ph = "data" /\ (m = "end" => last # 255) /\ Send(IF m = "end" THEN ONE ELSE CUT, FALSE)
          /\ ph' = m /\ k' = 1 /\ UNCHANGED <<n, last, fr, log>>
Tail8 == ph \in {"end", "forced"} /\ Send(IF ph = "end" THEN ONE ELSE CUT, k = 7)
         /\ (IF k = 7 THEN ph' = "start" /\ k' = 0 /\ fr' = fr + 1 /\ log' = Append(log, <<n, ph, TRUE>>)
             ELSE ph' = ph /\ k' = k + 1 /\ UNCHANGED <<fr, log>>)
         /\ UNCHANGED <<n, last>>
Next == Start \/ Data \/ End("end") \/ End("forced") \/ Tail8
Synchronised == ph = rph /\ k = rk /\ (ph \in {"data", "end", "forced"} => n = rn)
SameFrames == log = rlog
=============================================================================
