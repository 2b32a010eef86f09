------------------------------- MODULE MCHost -------------------------------
(***************************************************************************)
(* Closed model: the calls of HostRegs.tla, broken up into their loads and  *)
(* stores, against the devices.                                            *)
(* - Frame size: both halves share one word, so a call loads and stores;    *)
(*   after any sequence of calls each half is the one last set.            *)
(* - Board program: reset, addresses, run, lengths, then the two waits of   *)
(*   HostRegs (Done: complete and idle).  The engines move words memory ->  *)
(*   core -> memory with any timing; when both waits have returned, every   *)
(*   word is in memory, and they do return.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Vals, MaxCalls
VARIABLES h, w, gh, gw, load, calls,       \* frame size: register halves, last set values, a call in progress
          pc, mm, s2, fifo                 \* board program and the engines
vars == <<h, w, gh, gw, load, calls, pc, mm, s2, fifo>>
Len0 == 3                                  \* words of a transfer
Halted == [run |-> FALSE, left |-> 0, idle |-> FALSE, ioc |-> FALSE]
Init == /\ h = 0 /\ w = 0 /\ gh = 0 /\ gw = 0 /\ load = <<>> /\ calls = 0
        /\ pc = "reset" /\ mm = Halted /\ s2 = Halted /\ fifo = 0
(* one call at a time: load the other half, then store both *)
Set(half, v) == /\ load = <<>> /\ calls < MaxCalls
                /\ load' = <<half, v, IF half = "h" THEN w ELSE h>>
                /\ UNCHANGED <<h, w, gh, gw, calls>>
Store == /\ load # <<>> /\ load' = <<>> /\ calls' = calls + 1
         /\ IF load[1] = "h" THEN h' = load[2] /\ w' = load[3] /\ gh' = load[2] /\ gw' = gw
            ELSE h' = load[3] /\ w' = load[2] /\ gw' = load[2] /\ gh' = gh
Size == ((\E half \in {"h", "w"}, v \in Vals : Set(half, v)) \/ Store) /\ UNCHANGED <<pc, mm, s2, fifo>>
Done(x) == x.ioc /\ x.idle
(* the program starts once the sizes are set *)
Prog == /\ load = <<>> /\ calls = MaxCalls
        /\ CASE pc = "reset" -> pc' = "run" /\ mm' = Halted /\ s2' = Halted
             [] pc = "run" -> pc' = "len1" /\ mm' = [mm EXCEPT !.run = TRUE] /\ s2' = [s2 EXCEPT !.run = TRUE]
             [] pc = "len1" -> pc' = "len2" /\ s2' = [s2 EXCEPT !.left = Len0, !.idle = FALSE] /\ mm' = mm
             [] pc = "len2" -> pc' = "wait1" /\ mm' = [mm EXCEPT !.left = Len0, !.idle = FALSE] /\ s2' = s2
             [] pc = "wait1" -> Done(mm) /\ pc' = "wait2" /\ UNCHANGED <<mm, s2>>
             [] pc = "wait2" -> Done(s2) /\ pc' = "end" /\ UNCHANGED <<mm, s2>>
             [] OTHER -> FALSE
        /\ UNCHANGED <<h, w, gh, gw, load, calls, fifo>>
(* a word leaves memory; the last one raises the completion flag, the idle flag follows *)
Send == /\ mm.run /\ mm.left > 0 /\ fifo < 2
        /\ mm' = [mm EXCEPT !.left = @ - 1, !.ioc = (mm.left = 1) \/ @]
        /\ fifo' = fifo + 1 /\ s2' = s2
Recv == /\ s2.run /\ s2.left > 0 /\ fifo > 0
        /\ s2' = [s2 EXCEPT !.left = @ - 1, !.ioc = (s2.left = 1) \/ @]
        /\ fifo' = fifo - 1 /\ mm' = mm
Idle == \/ mm.run /\ mm.left = 0 /\ mm.ioc /\ ~mm.idle /\ mm' = [mm EXCEPT !.idle = TRUE] /\ s2' = s2 /\ fifo' = fifo
        \/ s2.run /\ s2.left = 0 /\ s2.ioc /\ ~s2.idle /\ s2' = [s2 EXCEPT !.idle = TRUE] /\ mm' = mm /\ fifo' = fifo
Dev == (Send \/ Recv \/ Idle) /\ UNCHANGED <<h, w, gh, gw, load, calls, pc>>
Next == Size \/ Prog \/ Dev
Fair == Init /\ [][Next]_vars /\ WF_vars(Size) /\ WF_vars(Prog) /\ WF_vars(Dev)
LastWins == load = <<>> => h = gh /\ w = gw
SyncMeansDone == pc = "end" => mm.left = 0 /\ s2.left = 0 /\ fifo = 0
SyncReturns == <>(pc = "end")
=============================================================================
