------------------------------ MODULE FoldersGen -----------------------------
(* Scenarios: initial directories, requests of each process, and the schedule  *)
(* (which process may do its next file system call).                           *)
EXTENDS Folders, Json
CONSTANTS N, Len1, Random
VARIABLES pre, req, sched
vars == <<pre, req, sched>>
Pres == << <<>>, <<"X">>, <<"X/A">>, <<"X/A", "X/A-0001">>, <<"X/A", "X/A-0002">>, <<"X/B", "X/A-0001">>, <<"file:X/A">>, <<"X/A", "X/A-0001", "X/A-0002", "X/A-0003">>, <<"X/A", "file:X/A-0001">> >>
Reqs == << <<"A", "A">>, <<"A">>, <<"A", "B">>, <<"B", "A">>, <<"A-0001", "A">>, <<"A", "A/C">>, <<"A", "A", "A">> >>
Init == /\ pre \in (IF Random THEN {RandomElement(1..Len(Pres))} ELSE {1, 3}) /\ sched = <<>>
        /\ req = IF Random THEN [p \in 1..N |-> 0] ELSE [p \in 1..N |-> 2]
Next == /\ Len(sched) < Len1
        /\ IF Random THEN \E p \in {RandomElement(1..N)} : \E m \in {RandomElement(1..4)} : sched' = sched \o [j \in 1..m |-> p]
           ELSE \E p \in 1..N : sched' = Append(sched, p)
        /\ pre' = (IF Random /\ Len(sched) = 0 THEN RandomElement(1..Len(Pres)) ELSE pre)
        /\ req' = (IF Random /\ Len(sched) = 0 THEN [p \in 1..N |-> RandomElement(1..Len(Reqs))] ELSE req)
Spec == Init /\ [][Next]_vars
Emit == (Len(sched) >= Len1) => PrintT(<<"BEH", ToJson([pre |-> Pres[pre], req |-> [p \in 1..N |-> Reqs[req[p]]], sched |-> sched])>>)
=============================================================================
