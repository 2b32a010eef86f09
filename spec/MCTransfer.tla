----------------------------- MODULE MCTransfer ----------------------------
(* The smallest master that Transfer.tla allows, with any memory: what follows from the rules. *)
EXTENDS Transfer
VARIABLES s, av, wv        \* av, wv: a burst address is shown
vars == <<s, av, wv>>
Init == s = TNew /\ av = FALSE /\ wv = FALSE
Ev(x) == TErr(s, x, TRUE) = "ok" /\ s' = TEff(s, x)
Start == s.on = 0 /\ s' = TEff(s, <<"start", <<65535, 65535>>>>) /\ UNCHANGED <<av, wv>>
Stop == s.on = 1 /\ s' = TEff(s, <<"start", <<0, 0>>>>) /\ UNCHANGED <<av, wv>>
Show == /\ s.on = 1 /\ UNCHANGED s
        /\ \/ (~av /\ s.ar < ReadLimit /\ RAct(s) < MaxActive /\ av' = TRUE /\ UNCHANGED wv)
           \/ (~wv /\ s.aw < WriteLimit /\ WAct(s) < MaxActive /\ Unc(s) < MaxUnconf /\ wv' = TRUE /\ UNCHANGED av)
Take == \/ (av /\ Ev(<<"ar", s.ar>>) /\ av' = FALSE /\ UNCHANGED wv)
        \/ (wv /\ Ev(<<"aw", s.aw>>) /\ wv' = FALSE /\ UNCHANGED av)
Move == /\ UNCHANGED <<av, wv>>
        /\ \/ (s.rb < s.ar * Burst /\ Ev(<<"r", 0>>))
           \/ (s.wb < s.aw * Burst /\ s.wb < s.rb /\ Ev(<<"w", IF (s.wb + 1) % Burst = 0 THEN 1 ELSE 0, 255>>))
           \/ (s.b < s.wb \div Burst /\ Ev(<<"b">>))
Next == Start \/ Stop \/ Show \/ Take \/ Move
Spec == Init /\ [][Next]_vars /\ WF_vars(Move) /\ WF_vars(Take)
Window == s.ar <= ReadLimit /\ s.aw <= WriteLimit /\ s.wb <= WriteLimit * Burst
Bounded == RAct(s) <= MaxActive /\ WAct(s) <= MaxActive /\ Unc(s) <= MaxUnconf
Quiet == s.on = 0 => s.ar = 0 /\ s.aw = 0
Never == s.rb <= s.ar * Burst /\ s.wb <= s.aw * Burst /\ s.b <= s.wb \div Burst
(* a shown address is never refused by the rules, and a stopped master comes to rest *)
Offered == (av => TErr(s, <<"ar", s.ar>>, TRUE) = "ok") /\ (wv => TErr(s, <<"aw", s.aw>>, TRUE) = "ok")
Rest == [](s.on = 2 => <>(~av /\ ~wv /\ s.rb = s.ar * Burst))
=============================================================================
