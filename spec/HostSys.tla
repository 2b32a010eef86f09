------------------------------ MODULE HostSys ------------------------------
(***************************************************************************)
(* How the board software gets at memory and files: what it asks the       *)
(* system for, and that nothing happens after a request that failed except *)
(* the end of the program with a failure status.                           *)
(* open: path is /dev/mem?, flags, descriptor (-1: failed)                 *)
(* mmap: base, length (two halves each), protection, flags, descriptor, ok *)
(* file: name of the request, ok                                           *)
(* loaded: length, bytes and the 128 behind them, bytes reserved (-1: not   *)
(* known)                                                                  *)
(* used: the driver goes on working with what it was given                 *)
(***************************************************************************)
EXTENDS Integers, Sequences
RdWr == 2          \* O_RDWR
Access == 3        \* O_ACCMODE
Sync == 1052672    \* O_SYNC
Both == 3          \* PROT_READ | PROT_WRITE
Shared == 1        \* MAP_SHARED
Waits == -99       \* does not end by itself (waits for the hardware)

SNew == [failed |-> FALSE, fds |-> {}, maps |-> {}, at |-> "run"]
Leq(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] <= b[2])

Wanted(job, b) == \E k \in 1..Len(job.maps) : job.maps[k][1] = b

SFails(x) == CASE x[1] = "open" -> x[4] < 0 [] x[1] = "mmap" -> x[7] = 0 [] x[1] = "file" -> x[3] = 0 [] OTHER -> FALSE
(* job: what the program was asked to do *)
SErr(s, x, job) ==
  CASE x[1] = "gone" ->
         IF s.at = "exit" THEN (IF x[2] > 0 THEN "ok" ELSE "wrong status")
         ELSE IF s.at = "end" THEN (IF x[2] # 0 THEN "fails after its work" ELSE IF s.fds # {} /\ job.closes = 1 THEN "leaves the memory device open" ELSE "ok")
         ELSE IF x[2] = Waits THEN (IF s.failed THEN "goes on after a failed request" ELSE IF job.legal = 0 THEN "accepts what it cannot use" ELSE "ok")
         ELSE IF x[2] = 0 THEN "ends with success in the middle" ELSE "ends abnormally"
    [] x[1] = "exit" ->
         IF x[2] = 0 THEN "exit status of a failure"
         ELSE IF ~s.failed /\ job.legal = 1 THEN "gives up without reason"
         ELSE "ok"
    [] s.at # "run" -> "goes on after its end"
    [] x[1] = "close" -> IF ~(x[2] \in s.fds) THEN "closes what it has not opened" ELSE "ok"
    [] s.failed /\ x[1] = "file" /\ SFails(x) -> "ok"
    [] s.failed -> "goes on after a failed request"
    [] x[1] = "open" ->
         IF x[2] # 1 THEN "opens something else"
         ELSE IF x[3] % (Access + 1) # RdWr THEN "memory device not opened for reading and writing"
         ELSE IF (x[3] \div 4096) % 2 # 1 \/ (x[3] \div 1048576) % 2 # 1 THEN "memory device not opened for synchronous access"
         ELSE "ok"
    [] x[1] = "mmap" ->
         IF ~(x[6] \in s.fds) THEN "maps something else"
         ELSE IF ~Wanted(job, x[2]) THEN "maps the wrong address"
         ELSE IF \A k \in 1..Len(job.maps) : job.maps[k][1] = x[2] => ~Leq(job.maps[k][2], x[3]) THEN "maps too little"
         ELSE IF x[4] # Both THEN "mapping not for reading and writing"
         ELSE IF x[5] % 16 # Shared THEN "mapping not shared"
         ELSE "ok"
    [] x[1] = "loaded" ->
         IF job.legal = 0 THEN "accepts a file it cannot use"
         ELSE IF x[2] # Len(job.bytes) THEN "wrong length"
         ELSE IF SubSeq(x[3], 1, x[2]) # job.bytes THEN "wrong bytes"
         ELSE IF \E k \in 1..128 : x[3][x[2] + k] # 0 THEN "not followed by zeros"
         ELSE IF x[4] >= 0 /\ x[4] < x[2] + 128 THEN "writes beyond what it has reserved"
         ELSE "ok"
    [] x[1] = "used" -> IF job.legal = 0 THEN "goes on with a wrong argument" ELSE "ok"
    [] x[1] = "end" -> IF job.legal = 0 THEN "accepts what it cannot use"
                         ELSE IF \E k \in 1..Len(job.maps) : ~(job.maps[k][1] \in s.maps) THEN "did not map what it was asked for" ELSE "ok"
    [] OTHER -> "ok"
SEff(s, x) ==
  CASE x[1] = "open" -> [s EXCEPT !.failed = x[4] < 0, !.fds = IF x[4] < 0 THEN @ ELSE @ \union {x[4]}]
    [] x[1] = "close" -> [s EXCEPT !.fds = @ \ {x[2]}]
    [] x[1] = "mmap" -> [s EXCEPT !.failed = SFails(x), !.maps = @ \union {x[2]}]
    [] x[1] = "file" -> [s EXCEPT !.failed = SFails(x)]
    [] x[1] \in {"exit", "end"} -> [s EXCEPT !.at = x[1]]
    [] OTHER -> s
=============================================================================
