------------------------------- MODULE LjGen --------------------------------
(* Writes the files of the pictures D.cases with the specification's writer. *)
EXTENDS Lj92, Json, IOUtils, TLC
D == JsonDeserialize(IOEnv.VP_DATA)
VARIABLE x
Init == x = 0
Next == x < Len(D.cases) /\ x' = x + 1
(* a case with a field core: the delivered bytes of one frame of an encoder design, with its markers *)
CoreFile(p) ==
  LET n == Len(p.core) IN
  <<255, 216>> \o SegDHT(p) \o SegSOF(p) \o SegSOS(p) \o SubSeq(p.core, 17, n - 16) \o <<255, 217>>
Out(p) == IF "core" \in DOMAIN p THEN CoreFile(p) ELSE File(p)
Emit == x = 0 \/ (/\ TableOk(D.cases[x].cnt, D.cases[x].vals)
                  /\ JsonSerialize(IOEnv.VP_OUT \o "." \o ToString(x), Out(D.cases[x])))
=============================================================================
