------------------------------ MODULE RepeaterMC ------------------------------
(* The documented experiment loop over a suite, with every outcome of the runs. *)
EXTENDS Repeater
CONSTANTS SuiteC, Mult, MS, MaxE
Problems == IF SuiteC = 1 THEN << <<1, 1, 1>>, <<1, 1, 2>>, <<2, 1, 1>> >>
            ELSE IF SuiteC = 2 THEN << <<1, 1, 1>>, <<1, 2, 1>> >> ELSE << <<1, 1, 1>>, <<1, 1, 1>>, <<1, 1, 2>> >>
Cfg == [ms |-> MS, mult2 |-> 2 * Mult, off |-> 0, maxs |-> 10000]
VARIABLES D, S, pos, ended, ran
vars == <<D, S, pos, ended, ran>>
K(p) == <<p[1], p[2]>>
Init == D = <<>> /\ S = 0 /\ pos = 0 /\ ended = FALSE /\ ran = 0
Ask == /\ pos = 0 /\ ~ended
       /\ IF AllDone(D, S, Cfg) THEN ended' = TRUE /\ UNCHANGED <<S, pos, ran>>
          ELSE S' = S + 1 /\ pos' = 1 /\ ran' = 0 /\ UNCHANGED ended
       /\ UNCHANGED D
Adv == pos' = IF pos = Len(Problems) THEN 0 ELSE pos + 1
Visit == /\ pos > 0 /\ Adv /\ UNCHANGED <<S, ended>>
         /\ LET p == Problems[pos] IN
            IF InstDone(D, S, K(p), p[3], Cfg) THEN UNCHANGED <<D, ran>>
            ELSE \E e \in 1..MaxE, s \in 0..1 : D' = Track(D, K(p), p[3], e, s) /\ ran' = ran + 1
Next == Ask \/ Visit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == {Problems[j] : j \in DOMAIN Problems}
\* between sweeps (the suite visits each instance once), all instances of a function have the same number of trials
NoDup == Cardinality(All) = Len(Problems)
Balanced == (pos = 0 /\ S > 0 /\ NoDup) => \A p, q \in All : K(p) = K(q) => Trials(D, K(p), p[3]) = Trials(D, K(q), q[3])
FirstSweep == (pos = 0 /\ S > 0) => \A p \in All : Trials(D, K(p), p[3]) >= 1
Finished == ended => \A p \in All : Succeeded(D, K(p), Cfg.ms) \/ Exhausted(D, K(p), Cfg)
\* every sweep but the last question does something
Useful == (pos = 0 /\ S > 1 /\ ~ended) => ran > 0
OneSweepFor0 == (ended /\ Mult = 0) => \A p \in All : Trials(D, K(p), p[3]) = (IF NoDup THEN 1 ELSE Cardinality({j \in DOMAIN Problems : Problems[j] = p})) \/ ~NoDup
Ends == <>ended
=============================================================================
