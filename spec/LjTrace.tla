------------------------------ MODULE LjTrace -------------------------------
(* Calls of the real library against Lj92.tla, one decoded sample per step.   *)
(* D.traces[t] = [file: the bytes given to (or produced by) the library,      *)
(*   hd: <<width, height, bit depth, components>> the library reported,       *)
(*   mem: target memory after lj92_decode, canary: its initial contents,      *)
(*   wl, skip: writeLength and skipLength, lin: linearization (or <<>>),      *)
(*   src: <<>> or <<[mem, rl, skip, delin]>>: what lj92_encode was given,     *)
(*   want: <<>> or the samples the stream must carry, ret: decode's status,   *)
(*   live: blocks of memory the calls did not release]                        *)
(* The samples before the current one are those of src or want (a stream that *)
(* carries others is an error at once); without both, hist keeps the last row.*)
EXTENDS Lj92, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, h, tab, data, pos, hist, e
vars == <<t, i, h, tab, data, pos, hist, e>>

HeadErr(tr, hd) ==
  IF ~hd.ok THEN "not a lossless JPEG file"
  ELSE IF ~TableOk(hd.cnt, hd.vals) THEN "invalid code table in the file"
  ELSE IF tr.hd # <<hd.w, hd.h, hd.bd, hd.nc>> THEN "wrong width, height, depth or components reported"
  ELSE IF Len(tr.src) > 0 /\ <<hd.w, hd.h, hd.bd, hd.nc>> # tr.src[1].hd THEN "file has other dimensions than the picture"
  ELSE IF Len(tr.src) > 0 /\ ~hd.std THEN "header fields are not what the standard asks for"
  ELSE IF tr.live # 0 THEN "memory is not released"
  ELSE "ok"

Init == /\ t \in 1..Len(T)
        /\ i = 0
        /\ h = Parse(T[t].file)
        /\ e = HeadErr(T[t], h)
        /\ tab = IF e = "ok" THEN Canon(h.cnt, h.vals) ELSE <<>>
        /\ data = IF e = "ok" THEN ScanData(T[t].file, h.at) ELSE <<>>
        /\ pos = 0
        /\ hist = <<>>

N == h.w * h.h * h.nc
Keep == (h.w + 1) * h.nc
Lin(tr, v) == IF Len(tr.lin) = 0 THEN v ELSE IF v < Len(tr.lin) THEN tr.lin[v + 1] ELSE -1
(* a sample outside the linearization table: the library has to report a corrupt file *)
Outside(tr, v) == Len(tr.lin) > 0 /\ v >= Len(tr.lin)
SrcVal(s, k) == LET x == s.mem[Cell(k, s.rl, s.skip)] IN IF Len(s.delin) = 0 THEN x ELSE s.delin[x + 1]

Next ==
  /\ e = "ok" /\ t' = t /\ h' = h /\ tab' = tab /\ data' = data
  /\ i' = i + 1
  /\ IF i < N
     THEN LET tr == T[t]
              r == ReadDiff(tab, data, pos)
              off == i - Len(hist)                         \* hist[k] is sample off + k
              s(k) == IF Len(tr.src) > 0 THEN SrcVal(tr.src[1], k) ELSE IF Len(tr.want) > 0 THEN tr.want[k] ELSE hist[k - off]
              v == (Predicted(h, i + 1, s) + r[1]) % 65536
              g == tr.mem[Cell(i + 1, tr.wl, tr.skip)]
              q == Append(hist, v)
          IN /\ pos' = r[2]
             /\ hist' = IF Len(tr.src) > 0 \/ Len(tr.want) > 0 THEN <<>> ELSE IF Len(q) > Keep THEN Tail(q) ELSE q
             /\ e' = IF r[2] < 0 THEN "no such code in the data"
                     ELSE IF r[2] > 8 * Len(data) THEN "data ends too early"
                     ELSE IF Len(tr.src) > 0 /\ v # SrcVal(tr.src[1], i + 1) THEN "the file does not carry the picture"
                     ELSE IF Len(tr.want) > 0 /\ v # tr.want[i + 1] THEN "the file does not carry the wanted samples"
                     ELSE IF Outside(tr, v) THEN (IF tr.ret = 0 THEN "sample outside the table is not reported" ELSE "reported")
                     ELSE IF tr.ret = 0 /\ g # Lin(tr, v) THEN "wrong sample"
                     ELSE "ok"
     ELSE /\ pos' = pos /\ hist' = hist
          /\ LET tr == T[t] IN
             e' = IF tr.ret # 0 THEN "a valid file is refused"
                  ELSE IF Len(tr.src) > 0 /\ 8 * Len(data) - pos >= 8 THEN "file has superfluous data"
                  ELSE IF Len(tr.src) > 0 /\ (Len(tr.file) < 2 \/ SubSeq(tr.file, Len(tr.file) - 1, Len(tr.file)) # <<255, 217>>)
                       THEN "file is not closed"
                  ELSE IF \E k \in 1..Len(tr.mem) : ~CellUsed(k, N, tr.wl, tr.skip) /\ tr.mem[k] # tr.canary THEN "writes outside the tile"
                  ELSE "done"
OK == e \in {"ok", "done", "reported"}
View == <<t, i, e>>
(* what a counterexample shows *)
Shown == [t |-> t, i |-> i, pos |-> pos, e |-> e]
=============================================================================
