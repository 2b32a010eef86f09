------------------------------ MODULE HostRegs ------------------------------
(* What the board software may do to the mapped registers, call by call.     *)
(* Words are sequences of four bytes, least significant first; offsets count *)
(* 32-bit words.  The device's registers are owned either by the host (frame *)
(* size, cycle limit, code table, DMA control/address/length) or by the      *)
(* device (debug counters, DMA status): reading the latter may return        *)
(* anything, the former must return what is in them.                         *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
A == INSTANCE AxiLite

SSSS == 1024
HW == 2048
LIM == 2049
DEBUG == 4096
MMCtrl == 0
MMStatus == 1
MMAddr == 6
MMLen == 10
S2Ctrl == 12
S2Status == 13
S2Addr == 18
S2Len == 22

Bit(w, k) == (w[(k \div 8) + 1] \div (2 ^ (k % 8))) % 2
B4(n) == <<n % 256, n \div 256, 0, 0>>             \* n < 65536
(* decimal digits of an unsigned 32-bit word, without exceeding 31 bits on the way *)
Dec(w) == LET lo == w[1] + 256 * w[2]
              hi == w[3] + 256 * w[4]
              q == hi * 6 + (hi * 5536 + lo) \div 10000
              r == (hi * 5536 + lo) % 10000
              z == IF r < 10 THEN "000" ELSE IF r < 100 THEN "00" ELSE IF r < 1000 THEN "0" ELSE ""
          IN IF q = 0 THEN ToString(r) ELSE ToString(q) \o z \o ToString(r)

(* the core: bd, h and w (two bytes each), lim (three bytes), tab (category k at k+1: <<code, length>>) *)
C0(bd, h, w, lim, tab) == [bd |-> bd, h |-> h, w |-> w, lim |-> lim, tab |-> tab]
TabWords(s) == {SSSS + k : k \in 0..(2 * s.bd + 1)}
DbgWords == {DEBUG + k : k \in 0..7}
TabWord(s, k) == [j \in 1..4 |-> A!EntryByte(s.bd, s.tab, k \div 2, 4 * (k % 2) + j - 1)]
CoreWord(s, off) == IF off = HW THEN s.h \o s.w
                    ELSE IF off = LIM THEN s.lim \o <<0>>
                    ELSE TabWord(s, off - SSSS)
CoreOwned(s) == {HW, LIM} \cup TabWords(s)

(* registers a call may read, and the value of the registers it may write afterwards *)
Readable(s, c) ==
  CASE c.op \in {"geth", "getw", "seth", "setw"} -> {HW}
    [] c.op \in {"getl", "setl"} -> {LIM}
    [] c.op = "ssss" -> TabWords(s)
    [] c.op = "debug" -> DbgWords
    [] c.op \in {"statr", "syncr"} -> {MMStatus}
    [] c.op \in {"statw", "syncw"} -> {S2Status}
    [] OTHER -> {}
Target(s, c) ==
  CASE c.op = "seth" -> (HW :> (SubSeq(c.a, 1, 2) \o s.w))
    [] c.op = "setw" -> (HW :> (s.h \o SubSeq(c.a, 1, 2)))
    [] c.op = "setl" -> (LIM :> c.a)
    [] c.op = "reset" -> (S2Ctrl :> B4(4)) @@ (MMCtrl :> B4(4))
    [] c.op = "halt" -> (S2Ctrl :> B4(0)) @@ (MMCtrl :> B4(0))
    [] c.op = "start" -> (S2Ctrl :> B4(61441)) @@ (MMCtrl :> B4(61441))
    [] c.op = "addr" -> (MMAddr :> c.a) @@ (S2Addr :> c.b)
    [] c.op = "len" -> (S2Len :> c.a) @@ (MMLen :> c.b)
    [] OTHER -> <<>>
Dma(c) == c.op \in {"reset", "halt", "start", "addr", "len", "statr", "statw", "syncr", "syncw"}

(* accesses: <<0 read or 1 write, word, strobes of the four lanes, four bytes>> *)
Lane(a, j) == (a[3] \div (2 ^ (j - 1))) % 2 = 1
Val(a) == SubSeq(a, 4, 7)
SelLast(seq, off) == LET I == {n \in 1..Len(seq) : seq[n][2] = off} IN seq[CHOOSE n \in I : \A k \in I : k <= n]

LegalAcc(s, c, a) ==
  IF a[1] = 0 THEN /\ a[2] \in Readable(s, c)
                   /\ a[2] \in CoreOwned(s) /\ ~Dma(c) =>
                        LET w == CoreWord(s, a[2]) IN \A j \in 1..4 : Lane(a, j) => a[3 + j] = w[j]
  ELSE /\ a[2] \in DOMAIN Target(s, c)
       /\ \A j \in 1..4 : Lane(a, j) => a[3 + j] = Target(s, c)[a[2]][j]
(* the state after the call: every target is in place *)
After(s, c) ==
  CASE c.op = "seth" -> [s EXCEPT !.h = SubSeq(c.a, 1, 2)]
    [] c.op = "setw" -> [s EXCEPT !.w = SubSeq(c.a, 1, 2)]
    [] c.op = "setl" -> [s EXCEPT !.lim = SubSeq(c.a, 1, 3)]
    [] OTHER -> s
Written(c, off, j) == \E n \in 1..Len(c.acc) : c.acc[n][1] = 1 /\ c.acc[n][2] = off /\ Lane(c.acc[n], j)
Effective(s, c) ==
  IF Dma(c) THEN  \* control and length registers act when written: once each, as whole words
    /\ \A off \in DOMAIN Target(s, c) : Cardinality({n \in 1..Len(c.acc) : c.acc[n][1] = 1 /\ c.acc[n][2] = off}) = 1
    /\ \A n \in 1..Len(c.acc) : c.acc[n][1] = 1 => c.acc[n][3] = 15
  ELSE \A off \in DOMAIN Target(s, c) : \A j \in 1..4 :
         Written(c, off, j) \/ (off = LIM /\ j = 4) \/ CoreWord(s, off)[j] = Target(s, c)[off][j]

(* -------------------------------------------------------------- results *)
Code(s, k) == "" \o ToString(k) \o " - SSSS_CODE: " \o ToString(s.tab[k + 1][1]) \o " - LENGTH: " \o ToString(s.tab[k + 1][2])
Explain == <<"valid_in: DMA have valid data for the core", "valid_out: Core have valid data for the DMA",
             "nready: Core don't have valid data for the DMA", "busy_in: DMA can't accept new data from the core">>
Ident == <<"valid_in=0", "valid_in=1", "valid_out=0", "valid_out=1", "nready=1", "nready=0", "busy_in=1", "busy_in=0">>
Flags == <<<<1, "idle">>, <<3, "SGIncld">>, <<4, "DMAIntErr">>, <<5, "DMASlvErr">>, <<6, "DMADecErr">>, <<8, "SGIntErr">>,
           <<9, "SGSlvErr">>, <<10, "SGDecErr">>, <<12, "IOC_Irq">>, <<13, "Dly_Irq">>, <<14, "Err_Irq">>>>
Status(w) == <<IF Bit(w, 0) = 1 THEN "halted" ELSE "running">>
             \o [k \in 1..Len(SelectSeq(Flags, LAMBDA f : Bit(w, f[1]) = 1)) |-> SelectSeq(Flags, LAMBDA f : Bit(w, f[1]) = 1)[k][2]]
Done(w) == Bit(w, 12) = 1 /\ Bit(w, 1) = 1
StatusReg(c) == IF c.op \in {"statr", "syncr"} THEN MMStatus ELSE S2Status
RightResult(s, c) ==
  CASE c.op = "geth" -> c.n = s.h \o <<0, 0>>
    [] c.op = "getw" -> c.n = s.w \o <<0, 0>>
    [] c.op = "getl" -> c.n = s.lim \o <<0>>
    [] c.op = "ssss" -> c.s = [k \in 1..(s.bd + 1) |-> Code(s, k - 1)]
    [] c.op = "debug" -> /\ \A off \in DbgWords : \E n \in 1..Len(c.acc) : c.acc[n][2] = off
                         /\ c.s = Explain \o [k \in 1..8 |-> Ident[k] \o " : " \o Dec(Val(SelLast(c.acc, DEBUG + k - 1)))]
    [] c.op \in {"statr", "statw"} -> c.acc # <<>> /\ c.s = Status(Val(Last(c.acc)))
    [] c.op \in {"syncr", "syncw"} -> /\ c.acc # <<>>
                                      /\ \A n \in 1..(Len(c.acc) - 1) : ~Done(Val(c.acc[n]))
                                      /\ Done(Val(Last(c.acc)))
    [] OTHER -> c.n = <<>> /\ c.s = <<>>
(* construction: the right base, a window over all registers, nothing accessed; other bit depths end the program *)
LegalNew(c) == IF c.op = "newc" /\ ~(c.b[1] \in 2..16 /\ SubSeq(c.b, 2, 4) = <<0, 0, 0>>)
               THEN c.code # 0 /\ c.maps = <<>> /\ c.acc = <<>>
               ELSE /\ c.code = 0 /\ c.acc = <<>> /\ Len(c.maps) = 1 /\ c.maps[1][1] = c.a
                    /\ LET l == c.maps[1][2] IN l[3] + l[4] > 0 \/ l[1] + 256 * l[2] >= IF c.op = "newc" THEN 4 * (DEBUG + 8) ELSE 4 * (S2Len + 1)
CallErr(s, c) ==
  IF c.op \in {"newc", "newd"} THEN IF LegalNew(c) THEN "ok" ELSE "construction"
  ELSE IF c.code # 0 THEN "ended"
  ELSE IF c.maps # <<>> THEN "mapped again"
  ELSE IF \E n \in 1..Len(c.acc) : ~LegalAcc(s, c, c.acc[n]) THEN "access"
  ELSE IF ~Effective(s, c) THEN "not in effect"
  ELSE IF ~RightResult(s, c) THEN "result"
  ELSE IF c.dev # <<>> /\ c.dev # After(s, c).h \o After(s, c).w \o After(s, c).lim THEN "device"
  ELSE "ok"
=============================================================================
