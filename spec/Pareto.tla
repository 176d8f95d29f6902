------------------------------- MODULE Pareto -------------------------------
(* Bi-objective points on a grid. A coordinate is Micro * k + j: k steps of    *)
(* 1/Grid of the distance between ideal (0) and nadir (One) point, j steps far *)
(* below that, which matter for dominance only.                                *)
EXTENDS Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt
CONSTANTS Grid, Micro
One == Grid * Micro
Max2(x, y) == IF x > y THEN x ELSE y
\* better than ideal counts as ideal; a point ideal in one objective is nadir (or worse) in the other
NormA(a, b) == LET x == Max2(a, 0) y == Max2(b, 0) IN IF y = 0 /\ x > 0 THEN Max2(x, One) ELSE x
NormB(a, b) == LET x == Max2(a, 0) y == Max2(b, 0) IN IF x = 0 THEN Max2(y, One) ELSE y
Norm(p) == [p EXCEPT !.a = NormA(p.a, p.b), !.b = NormB(p.a, p.b)]

WeaklyDominates(p, q) == p.a <= q.a /\ p.b <= q.b
Enters(A, p) == ~\E q \in A : WeaklyDominates(q, p)
Insert(A, p) == IF Enters(A, p) THEN {q \in A : ~WeaklyDominates(p, q)} \cup {p} ELSE A
InROI(p) == p.a <= One /\ p.b <= One

\* hypervolume of mutually nondominated points with reference point (One, One), in units of 1/Grid^2
K(x) == x \div Micro
Left(P, p) == LET s == {q.a : q \in {r \in P : r.b < p.b}} IN IF s = {} THEN One ELSE Min(s)
Area(P, p) == (K(Left(P, p)) - K(p.a)) * (Grid - K(p.b))
HV(A) == LET P == {p \in A : InROI(p)} IN FoldSet(LAMBDA p, s : s + Area(P, p), 0, P)
\* squared distance to the region of interest, in units of 1/Grid^2
Dist2(p) == LET dx == Max2(K(p.a) - Grid, 0) dy == Max2(K(p.b) - Grid, 0) IN dx * dx + dy * dy
\* in the order of the second objective
ByB(A) == SetToSortSeq(A, LAMBDA p, q : p.b < q.b)
=============================================================================
