------------------------------ MODULE BigWrap ------------------------------
(* Frames of the built-in size through unmodified wrappers: every pixel is   *)
(* half scale, so every difference is 0 and every data byte the same.        *)
(* D.runs[k] = [kind, ps, bits, size, limit, segs, runs]:                    *)
(*   size  groups of a frame;  bits: code bits of a pixel;  byte: data byte  *)
(*   segs  what was fed, in order: <<groups, how, wait>>, how: "full" a whole *)
(*         frame, "cut" the source stopped and the cycle limit passed (wait: *)
(*         cycles from the first accepted word of the frame to the first     *)
(*         forced word), "part" the source stopped at the end of the run     *)
(*   runs  <<count, bytes of the word, last>>                                *)
EXTENDS Wrappers, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
VARIABLE k

OutW(r) == IF Framed(r.kind) THEN 2 ELSE OutBytes(r.kind)
Data(r, n) == (n * r.ps * r.bits) \div (8 * OutW(r))
Same(n, b) == [j \in 1..n |-> b]
(* the encoder's words of one segment: runs <<count, word, last>> *)
Seg(r, g) ==
  LET d == <<Data(r, g[1]), Same(OutW(r), r.byte), 0>>
      mark(lo) == << <<MarkW - 1, <<255, lo>>, 0>>, <<1, <<255, lo>>, 1>> >>
  IN IF ~Framed(r.kind) THEN << <<d[1] - 1, d[2], 0>>, <<1, d[2], 1>> >>
     ELSE IF g[2] = "part" /\ d[1] = 0 THEN <<>>     \* the start marker comes with the first data word
     ELSE << <<MarkW, <<255, 255>>, 0>>, d >> \o
          (CASE g[2] = "full" -> mark(255) [] g[2] = "cut" -> mark(254) [] OTHER -> <<>>)
Words(r) == FlattenSeq([j \in 1..Len(r.segs) |-> Seg(r, r.segs[j])])

(* the same bytes as words of n bytes without last flag *)
RECURSIVE Rep(_, _)
Rep(b, n) == IF n <= 0 THEN <<>> ELSE b \o Rep(b, n - 1)
RECURSIVE Recut(_, _, _)
Recut(part, ws, n) ==     \* part: fewer than n bytes
  IF ws = <<>> THEN <<>>
  ELSE LET c == Head(ws)[1]
           b == Head(ws)[2]
           \* n words of the run make Len(b) whole output words again with the same part: 2n words at a time, then word by word
           full == c \div n
           first == Rep(b, n)
           cyc == part \o first
           out == [j \in 1..Len(b) |-> <<SubSeq(cyc, (j - 1) * n + 1, j * n), 0>>]
           rest == SubSeq(cyc, Len(b) * n + 1, Len(cyc))
           b1 == part \o b
           one == IF Len(b1) >= n THEN <<(<<1, SubSeq(b1, 1, n), 0>>)>> ELSE <<>>
           left == IF Len(b1) >= n THEN SubSeq(b1, n + 1, Len(b1)) ELSE b1
       IN IF c = 0 THEN Recut(part, Tail(ws), n)
          ELSE IF full > 0 /\ rest = part /\ (\A j \in 1..Len(b) : out[j] = out[1])
               THEN <<(<<full * Len(b), out[1][1], 0>>)>> \o Recut(part, <<(<<c % n, b, 0>>)>> \o Tail(ws), n)
          ELSE one \o Recut(left, <<(<<c - 1, b, 0>>)>> \o Tail(ws), n)
RECURSIVE Merge(_)
Merge(ws) ==
  IF ws = <<>> THEN <<>>
  ELSE IF ws[1][1] = 0 THEN Merge(Tail(ws))
  ELSE IF Len(ws) > 1 /\ ws[1][2] = ws[2][2] /\ ws[1][3] = ws[2][3]
       THEN Merge(<<(<<ws[1][1] + ws[2][1], ws[1][2], ws[1][3]>>)>> \o SubSeq(ws, 3, Len(ws)))
  ELSE <<ws[1]>> \o Merge(Tail(ws))
Expected(r) == IF Packs(r.kind) THEN Merge(Recut(<<>>, Words(r), OutBytes(r.kind))) ELSE Merge(Words(r))

Lag == 40           \* cycles through the wrapper
Timed(r, g) == g[2] # "cut" \/ (g[3] >= r.limit /\ g[3] <= r.limit + Lag)
BErr(r) ==
  IF \E j \in 1..Len(r.segs) : r.segs[j][2] = "full" /\ r.segs[j][1] # r.size THEN "a whole frame has another number of groups"
  ELSE IF \E j \in 1..Len(r.segs) : ~Timed(r, r.segs[j]) THEN "forced end at the wrong time"
  ELSE IF r.runs # Expected(r) THEN "wrong words"
  ELSE "ok"
Init == k = 0
Next == k < Len(D.runs) /\ k' = k + 1
OK == k = 0 \/ BErr(D.runs[k]) = "ok"
=============================================================================
