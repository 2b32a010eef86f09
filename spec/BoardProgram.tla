---------------------------- MODULE BoardProgram ----------------------------
(***************************************************************************)
(* The board test program: it lays a packed 12-bit picture out for the     *)
(* core, programs core and DMA, waits, and compares what the core          *)
(* delivered with a reference file.                                        *)
(*                                                                         *)
(* Memory is byte addressed, little endian; the core delivers 16-bit words *)
(* and the DMA stores them in order: the first byte of the coded stream is *)
(* the upper half of the first word.                                       *)
(***************************************************************************)
EXTENDS Wrappers

(* ------------------------------------------------------------ the picture *)
Raw12(b) == <<b[1] * 16 + b[2] \div 16, (b[2] % 16) * 256 + b[3]>>
RECURSIVE Pixels(_)
Pixels(b) == IF b = <<>> THEN <<>> ELSE Raw12(b) \o Pixels(SubSeq(b, 4, Len(b)))
RECURSIVE Cells(_, _)
Cells(m, n) == IF m = <<>> THEN <<>> ELSE <<Reverse(SubSeq(m, 1, n))>> \o Cells(SubSeq(m, n + 1, Len(m)), n)
(* a memory image shows the wrapper of that kind the picture's pixels *)
Shows(kind, n, mem, raw) == FlattenSeq([k \in 1..(Len(mem) \div n) |-> Lanes(kind, Cells(mem, n)[k])]) = Pixels(raw)
Kind(bits) == IF bits = 64 THEN "beta_fifo_axis" ELSE "beta_axis"

(* -------------------------------------------------------------- the output *)
Even(b) == IF Len(b) % 2 = 1 THEN Append(b, 0) ELSE b
Swap(b) == [i \in 1..Len(Even(b)) |-> Even(b)[IF i % 2 = 1 THEN i + 1 ELSE i - 1]]
Eight(w) == FlattenSeq([k \in 1..8 |-> w])
FF == <<255, 255>>
FE == <<255, 254>>
(* what the memory holds after a frame: header, coded bytes, end marker *)
Delivered(body, end) == Swap(Eight(FF) \o Even(body) \o Eight(end))

At(m, i) == IF i + 1 \in DOMAIN m THEN m[i + 1] ELSE 0      \* zeros beyond
Word4(m, i) == <<At(m, i), At(m, i + 1), At(m, i + 2), At(m, i + 3)>>
IsFF(x) == x = <<255, 255, 255, 255>>
IsFE(x) == x = <<254, 255, 254, 255>>
(* known finding "forced-end-marker": the program looks for the forced marker with its bytes swapped *)
IsFESwapped(x) == x = <<255, 254, 255, 254>>
FirstSays(m) == IF \A i \in 0..15 : At(m, i) = 255 THEN <<"marker found.">> ELSE <<"No marker found.">>
(* the end marker is searched from where the coded bytes end *)
LastSaysWith(m, n, Forced(_)) ==
  LET hits == {k \in 0..127 : IsFF(Word4(m, n + 16 + k)) \/ Forced(Word4(m, n + 16 + k))}
      k == IF hits = {} THEN 128 ELSE CHOOSE x \in hits : \A y \in hits : x <= y
      at == n + 16 + k
      all == \A j \in 0..3 : IsFF(Word4(m, at + 4 * j)) \/ Forced(Word4(m, at + 4 * j))
  IN IF ~all THEN <<"No marker found.">>
     ELSE <<(IF IsFF(Word4(m, at)) THEN "normal" ELSE "force") \o " marker found - offset is " \o ToString(k) \o ".">>
LastSays(m, n) == LastSaysWith(m, n, IsFE)
(* equal up to the last byte of the file (the padding byte of an odd file is the core's own) *)
Compare(m, f, at) == LET bad == {i \in at : At(m, 16 + i) # f[i + 1]}
                       i == CHOOSE x \in bad : \A y \in bad : x <= y
                   IN IF bad = {} THEN {<<"Validation succeeded.">>}
                      ELSE {<<"Validation failed at word: " \o ToString(i \div 4)>>, <<"Validation failed at byte: " \o ToString(i)>>}
Odd(file) == Len(file) % 2 = 1
ValidateSays(m, file) ==
  LET r == Compare(m, Swap(file), (0..(Len(Even(file)) - 1)) \ (IF Odd(file) THEN {Len(file) - 1} ELSE {}))
  IN IF r = {<<"Validation succeeded.">>} /\ Odd(file) /\ At(m, 16 + Len(file) - 1) # 0 THEN {} ELSE r
(* known finding "odd-last-byte": the last coded byte of an odd file (behind the padding byte, as its word is stored *)
(* swapped) is never compared                                                                                       *)
ValidateSkips(m, file) == IF Odd(file) THEN Compare(m, Swap(file), 0..(Len(file) - 1)) ELSE {}
Verdicts == {"marker found.", "No marker found."}
(* Lines 1..3 of the output are the verdicts; with a wrong padding byte alone validation may say either.  The result is  *)
(* what is wrong with them: a set of names, {} if nothing.                                                              *)
Wrong(says, m, file) ==
  IF Len(says) # 3 \/ SubSeq(says, 1, 1) # FirstSays(m) THEN {"verdicts"}
  ELSE LET l2 == SubSeq(says, 2, 2)
           l3 == SubSeq(says, 3, 3)
           v == ValidateSays(m, file)
       IN (IF l2 = LastSays(m, Len(file)) THEN {}
           ELSE IF l2 = LastSaysWith(m, Len(file), IsFESwapped) THEN {"forced-end-marker"} ELSE {"verdicts"})
          \cup (IF v = {} \/ l3 \in v THEN {} ELSE IF l3 \in ValidateSkips(m, file) THEN {"odd-last-byte"} ELSE {"verdicts"})

(* ------------------------------------------------------- the whole program *)
(* events [k, d, a, v, n, s]: "w"/"r" a register (d = 0 core, 1 DMA; word a; bytes v), "m" a mapping (base v, length n),  *)
(* "h" the source region (bytes v, n words not repeating it), "z" n bytes of the destination not zero, "s" a verdict s    *)
B0 == [core |-> <<>>, dma |-> <<>>, maps |-> <<>>, src |-> FALSE, zero |-> FALSE, len |-> <<FALSE, FALSE>>, done |-> <<FALSE, FALSE>>,
       says |-> <<>>, e |-> "ok"]
Reg(f, a) == IF a \in DOMAIN f THEN f[a] ELSE <<0, 0, 0, 0>>
BitOf(x, b) == (x[b \div 8 + 1] \div (2 ^ (b % 8))) % 2 = 1
Complete(x) == BitOf(x, 12) /\ BitOf(x, 1)
(* <<control, status, address, length>> of memory-to-core and core-to-memory *)
Ch == <<<<0, 1, 6, 10>>, <<12, 13, 18, 22>>>>
Bytes24(x) == x[1] + 256 * x[2] + 65536 * x[3]
Picture == 4096 * 3072 * 2
MapOf(b, base) == {n \in 1..Len(b.maps) : b.maps[n][1] = base}
Length(cfg, b, ch, v) ==
  IF ~BitOf(Reg(b.dma, Ch[ch][1]), 0) THEN "not running"
  ELSE IF Reg(b.dma, Ch[ch][3]) # (IF ch = 1 THEN cfg.src ELSE cfg.dst) THEN "address"
  ELSE IF MapOf(b, IF ch = 1 THEN cfg.src ELSE cfg.dst) = {} THEN "not mapped"
  ELSE IF ch = 1 /\ ~(v[4] = 1 /\ Bytes24(v) = Picture - 16777216) THEN "picture length"
  ELSE IF ch = 1 /\ ~b.src THEN "picture"
  ELSE IF ch = 2 /\ ~(v[4] = 0 /\ v[1] % 4 = 0 /\ Bytes24(v) >= cfg.n + 33) THEN "room"
  ELSE IF ~b.zero THEN "destination not cleared"
  ELSE IF cfg.axi /\ ~(Reg(b.core, 2048) = <<0, 12, 0, 16>> /\ SubSeq(Reg(b.core, 2049), 1, 3) = <<255, 255, 255>>) THEN "core not set up"
  ELSE "ok"
Event(cfg, b, x) ==
  IF b.e # "ok" THEN b
  ELSE CASE x.k = "m" -> [b EXCEPT !.maps = Append(@, <<x.v, x.n>>)]
    [] x.k = "h" -> [b EXCEPT !.src = x.n = 0 /\ Shows(Kind(cfg.bits), cfg.bits \div 8, x.v, cfg.raw)]
    [] x.k = "z" -> [b EXCEPT !.zero = x.n = 0]
    [] x.k = "s" -> IF b.done = <<TRUE, TRUE>> THEN [b EXCEPT !.says = Append(@, x.s)] ELSE [b EXCEPT !.e = "verdict before the end"]
    [] x.k = "r" /\ x.d = 1 -> IF \E ch \in 1..2 : x.a = Ch[ch][2] /\ b.len[ch] /\ Complete(x.v)
                               THEN [b EXCEPT !.done[CHOOSE ch \in 1..2 : x.a = Ch[ch][2]] = TRUE] ELSE b
    [] x.k = "w" /\ x.d = 0 -> IF ~cfg.axi THEN [b EXCEPT !.e = "no such device"]
                               ELSE IF b.len # <<FALSE, FALSE>> THEN [b EXCEPT !.e = "core changed while running"]
                               ELSE [b EXCEPT !.core = (x.a :> x.v) @@ @]
    [] x.k = "r" /\ x.d = 0 -> IF ~cfg.axi THEN [b EXCEPT !.e = "no such device"] ELSE b
    [] x.k = "w" /\ x.d = 1 ->
         IF \E ch \in 1..2 : x.a = Ch[ch][4]
         THEN LET ch == CHOOSE c \in 1..2 : x.a = Ch[c][4]
                  l == Length(cfg, b, ch, x.v)
              IN IF b.len[ch] THEN [b EXCEPT !.e = "started twice"] ELSE [b EXCEPT !.e = l, !.len[ch] = TRUE]
         ELSE IF b.len # <<FALSE, FALSE>> THEN [b EXCEPT !.e = "DMA changed while running"]
         ELSE IF x.a \in {0, 12} /\ BitOf(x.v, 2) THEN [b EXCEPT !.dma = [a \in DOMAIN @ \ (IF x.a = 0 THEN 0..10 ELSE 12..22) |-> @[a]]]
         ELSE [b EXCEPT !.dma = (x.a :> x.v) @@ @]
    [] OTHER -> b
Whole(cfg, m, file, events, early) ==
  LET b == FoldLeft(LAMBDA z, x : Event(cfg, z, x), B0, events)
  IN IF b.e # "ok" THEN {b.e}
     ELSE IF early THEN {"read before the end"}
     ELSE IF b.done # <<TRUE, TRUE>> THEN {"not run"}
     ELSE Wrong(b.says, m, file)
=============================================================================
