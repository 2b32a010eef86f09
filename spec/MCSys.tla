------------------------------- MODULE MCSys --------------------------------
(* Any program that keeps to HostSys.tla, any requests failing: what follows. *)
EXTENDS HostSys
CONSTANTS N
VARIABLES s, n, gone, last
vars == <<s, n, gone, last>>
Job(l) == [legal |-> l, closes |-> 1, maps |-> [k \in 1..N |-> <<<<4096, k>>, <<0, 100>>>>], bytes |-> <<7, 8>>]
Events == {<<"open", 1, RdWr + Sync, f>> : f \in {-1, 3, 4}} \union {<<"open", 1, RdWr, 3>>, <<"open", 0, RdWr + Sync, 3>>}
          \union {<<"mmap", <<4096, k>>, <<0, l>>, p, m, f, o>> : k \in 1..N, l \in {99, 100}, p \in {1, 3}, m \in {1, 2}, f \in {3, 5}, o \in {0, 1}}
          \union {<<"file", "fopen", o>> : o \in {0, 1}} \union {<<"close", f>> : f \in {3, 4}}
          \union {<<"loaded", 2, b \o [k \in 1..128 |-> z], h>> : b \in {<<7, 8>>, <<7, 9>>}, z \in {0, 165}, h \in {-1, 129, 130}}
          \union {<<"exit", c>> : c \in {0, 1}} \union {<<"end">>, <<"used">>} \union {<<"gone", c>> : c \in {-11, 0, 1}}
Init == s = SNew /\ n = 0 /\ gone = "no" /\ last \in {0, 1}
Next == /\ n < 2 * N + 4 /\ gone = "no" /\ n' = n + 1 /\ last' = last
        /\ \E x \in Events : /\ SErr(s, x, Job(last)) = "ok"
                             /\ s' = SEff(s, x)
                             /\ gone' = IF x[1] = "gone" THEN (IF x[2] = 0 THEN "good" ELSE "bad") ELSE "no"
Spec == Init /\ [][Next]_vars
FailureShows == s.failed => gone # "good"
SuccessMeans == gone = "good" => ~s.failed /\ last = 1 /\ s.fds = {}
Mapped == gone = "good" => s.maps = {Job(1).maps[k][1] : k \in 1..N}
=============================================================================
