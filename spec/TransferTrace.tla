--------------------------- MODULE TransferTrace ---------------------------
(* Recorded runs of the memory-to-memory design against Transfer.tla.  Events as numbers:                    *)
(* <<1, k>> ar, <<2, k>> aw, <<3, last>> r, <<4, last, strobe>> w, <<5>> b, <<6, high, low>> start,                  *)
(* <<7>> the host asks for a register, <<8, register, high, low>> its value, <<9>> everything has come to rest *)
EXTENDS Transfer, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, s, p, e
Init == t \in 1..Len(T) /\ i = 0 /\ s = TNew /\ p = TNew /\ e = "ok"
LInit == t = 0 /\ i = 0 /\ s = TNew /\ p = TNew /\ e = "ok"
Name(r) == CASE r[1] = 1 -> <<"ar", r[2]>> [] r[1] = 2 -> <<"aw", r[2]>> [] r[1] = 3 -> <<"r", r[2]>>
             [] r[1] = 4 -> <<"w", r[2], r[3]>> [] r[1] = 5 -> <<"b">> [] r[1] = 6 -> <<"start", <<r[2], r[3]>>>> [] OTHER -> <<"none">>
(* at rest everything asked for has been moved as far as there is data, and what is running asks for more *)
RestErr(tr) ==
  IF tr.wait = 1 THEN "ok"
  ELSE IF s.rb # s.ar * Burst THEN "stuck with requested words"
  ELSE IF s.b # s.wb \div Burst THEN "responses not taken"
  ELSE IF s.wb % Burst # 0 THEN "stuck within a burst"
  ELSE "ok"
Next ==
  /\ e = "ok" /\ t > 0 /\ i < Len(T[t].rows) /\ t' = t /\ i' = i + 1
  /\ LET tr == T[t]
         r == tr.rows[i + 1]
         x == Name(r)
     IN /\ s' = TEff(s, x)
        /\ p' = IF r[1] = 7 THEN s ELSE p
        /\ e' = CASE r[1] = 8 -> RegErr(r[2], <<r[3], r[4]>>, p, s, [src |-> tr.src, dst |-> tr.dst])
                  [] r[1] = 9 -> RestErr(tr)
                  [] OTHER -> TErr(s, x, TRUE)
OK == e = "ok"
View == <<t, i, e>>

(* long runs, as counts: an always ready memory until nothing moves any more (or n cycles) *)
Regs(b, k) == <<b.regs[k + 1][1], b.regs[k + 1][2]>>
State(b) == [TNew EXCEPT !.on = 1, !.val = <<65535, 65535>>, !.ar = b.ar, !.aw = b.aw, !.rb = b.rbeats, !.wb = b.wbeats, !.b = b.b]
LongOK == \A j \in 1..Len(D.long) :
  LET b == D.long[j] IN
    /\ b.bad = 0                                    \* addresses, lengths, strobes and last flags
    /\ b.aw <= WriteLimit
    /\ b.full = 1 => b.aw = WriteLimit /\ b.wbeats = WriteLimit * Burst /\ b.b = WriteLimit
    /\ \A k \in 0..7 : (k = 6 \/ b.ar <= ReadLimit \/ k = 3) =>
          RegErr(k, Regs(b, k), State(b), State(b), [src |-> b.src, dst |-> b.dst]) = "ok"
ReadsOK == \A j \in 1..Len(D.long) : D.long[j].ar <= ReadLimit
=============================================================================
