------------------------------ MODULE FoldersMC ------------------------------
(* The protocol with atomic creation, all interleavings of three processes     *)
(* with requests for two names over every initial set of directories.          *)
EXTENDS Folders
CONSTANTS Procs, PerProc
Bases == {"A", "B"}
Top == 7
All == {Name(b, k) : b \in Bases, k \in 0..Top}
VARIABLES dirs, start, st, got
vars == <<dirs, start, st, got>>
Init == /\ dirs \in SUBSET {Name("A", 0), Name("A", 1), Name("A", 2), Name("B", 0)} /\ start = dirs
        /\ st = [p \in Procs |-> [base |-> "", k |-> 0, before |-> {}, n |-> 0]] /\ got = {}
Begin(p) == /\ st[p].base = "" /\ st[p].n < PerProc /\ \E b \in Bases : st' = [st EXCEPT ![p] = [base |-> b, k |-> 0, before |-> dirs, n |-> @.n + 1]]
            /\ UNCHANGED <<dirs, start, got>>
\* one attempt to create: atomic, fails when it exists
Try(p) == /\ st[p].base # ""
          /\ LET f == Name(st[p].base, st[p].k)
             IN IF f \in dirs THEN st' = [st EXCEPT ![p].k = @ + 1] /\ UNCHANGED <<dirs, start, got>>
                ELSE /\ dirs' = dirs \cup {f} /\ UNCHANGED start
                     /\ got' = got \cup {[p |-> p, n |-> st[p].n, base |-> st[p].base, f |-> f, k |-> st[p].k, before |-> st[p].before, after |-> dirs \cup {f}]}
                     /\ st' = [st EXCEPT ![p].base = ""]
Next == \E p \in Procs : Begin(p) \/ Try(p)
Spec == Init /\ [][Next]_vars
\* no two observers share a folder, and none gets one that was there
Unique == \A x, y \in got : x # y => x.f # y.f
NotOld == \A x \in got : x.f \notin start
AllRight == \A x \in got : Right(x.base, x.f, x.before, x.after, x.k)
=============================================================================
