----------------------------- MODULE ArchiveMC ------------------------------
(* Exhaustive: every sequence of MaxAdd additions on a small grid (with points *)
(* outside the region of interest), queries and listings in between.           *)
EXTENDS Archive, TLC
CONSTANTS MaxAdd, Top
VARIABLES w, hist, out
vars == <<w, hist, out>>
Init == w = Fresh /\ hist = <<>> /\ out = <<>>
ADD == \E a \in -1..Top : \E b \in -1..Top :
         /\ Len(hist) < MaxAdd
         /\ LET p == [a |-> a, b |-> b, id |-> Len(hist) + 1] IN
              /\ hist' = Append(hist, Norm(p)) /\ w' = Added(w, p)
              /\ out' = IF Adds(w, p) THEN <<>> ELSE out
NEXT == /\ NextId(w) # 0 /\ out' = Append(out, NextId(w)) /\ w' = Nexted(w) /\ UNCHANGED hist
QUERY == w.dirty /\ w' = Queried(w) /\ out' = <<>> /\ UNCHANGED hist
Next == ADD \/ NEXT \/ QUERY
Spec == Init /\ [][Next]_vars
All == Range(hist) \cup {X1, X2}
\* the definition: no other point weakly dominates it; of equal points the first
Definition == {p \in All : \A q \in All : q # p /\ WeaklyDominates(q, p) => q.a = p.a /\ q.b = p.b /\ p.id < q.id}
Nondominated == w.pts = Definition
Cells(A) == Cardinality({c \in (0..Grid - 1) \X (0..Grid - 1) : \E p \in A : p.a <= c[1] * Micro /\ p.b <= c[2] * Micro})
Hypervolume == HV(w.pts) = Cells(w.pts)
Inside == \A p \in w.pts : InROI(p)
EachOnce == /\ IsInjective(out) /\ Range(out) \subseteq {p.id : p \in w.pts}
            /\ (NextId(w) = 0 => Len(out) = Cardinality(w.pts))
=============================================================================
