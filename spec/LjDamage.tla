------------------------------ MODULE LjDamage ------------------------------
(* Damaged files given to the real library.  Whatever the bytes are, memory   *)
(* is released (accesses out of bounds and calls that do not return are seen  *)
(* by the driver); what the specification can still read and decode must be   *)
(* decoded to the same samples; unknown codes and missing data are reported.  *)
(* D.traces[t] = [file, open: status of lj92_open, hd, ret: of lj92_decode    *)
(* (-100: not called), mem: the samples, live: blocks not released]           *)
EXTENDS Lj92, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
T == D.traces
VARIABLES t, i, h, tab, data, pos, hist, e
N(hd) == hd.w * hd.h * hd.nc
Readable(hd) == hd.ok /\ hd.std /\ hd.h > 0 /\ hd.nc > 0 /\ TableOk(hd.cnt, hd.vals) /\ N(hd) <= 4096
HeadErr(tr, hd) ==
  IF tr.live # 0 THEN "memory is not released"
  ELSE IF ~Readable(hd) THEN "free"
  ELSE IF tr.open # 0 THEN "readable headers are refused"
  ELSE IF tr.hd # <<hd.w, hd.h, hd.bd, hd.nc>> THEN "wrong width, height, depth or components reported"
  ELSE "ok"
Cut(f, at) == MarkerAt(f, at) > Len(f)
Init == /\ t \in 1..Len(T)
        /\ i = 0
        /\ h = Parse(T[t].file)
        /\ e = HeadErr(T[t], h)
        /\ tab = IF e = "ok" THEN Canon(h.cnt, h.vals) ELSE <<>>
        /\ data = IF e = "ok" THEN ScanData(T[t].file, h.at) ELSE <<>>
        /\ pos = 0
        /\ hist = <<>>
Keep == (h.w + 1) * h.nc
Next ==
  /\ e = "ok" /\ t' = t /\ h' = h /\ tab' = tab /\ data' = data
  /\ i' = i + 1
  /\ LET tr == T[t] IN
     IF i < N(h)
     THEN LET r == ReadDiff(tab, data, pos)
              off == i - Len(hist)
              s(k) == hist[k - off]
              v == (Predicted(h, i + 1, s) + r[1]) % 65536
              q == Append(hist, v)
              ends == r[2] < 0 \/ r[2] > 8 * Len(data)
          IN /\ pos' = r[2]
             /\ hist' = IF Len(q) > Keep THEN Tail(q) ELSE q
             /\ e' = IF r[2] > 8 * Len(data) /\ Cut(tr.file, h.at) /\ Last(tr.file) # 255 /\ tr.ret = 0
                     THEN "data that ends too early is not reported"
                     ELSE IF r[2] < 0 /\ pos + 16 <= 8 * Len(data) /\ tr.ret = 0 THEN "a code that is not in the table is not reported"
                     ELSE IF ends THEN "free"
                     ELSE IF tr.ret = 0 /\ tr.mem[i + 1] # v THEN "wrong sample"
                     ELSE "ok"
     ELSE /\ pos' = pos /\ hist' = hist
          /\ e' = IF tr.ret # 0 /\ ~(Cut(tr.file, h.at) /\ Last(tr.file) = 255) THEN "a decodable file is refused" ELSE "done"
OK == e \in {"ok", "done", "free"}
View == <<t, i, e>>
Shown == [t |-> t, i |-> i, pos |-> pos, e |-> e]
=============================================================================
