------------------------------- MODULE Mixint -------------------------------
(* Mixed-integer problems: a fifth of the variables each takes 2, 4, 8 and 16  *)
(* values 0..n-1, the last fifth is continuous.  A point is seen as the point  *)
(* with each integer coordinate replaced by the nearest admissible integer (at *)
(* equal distance: either).  Coordinates are in thousandths.                   *)
EXTENDS Integers, Sequences, FiniteSets
Cards == <<2, 4, 8, 16, 0>>
Card(j, d) == Cards[((j - 1) * 5) \div d + 1]
NInt(d) == (4 * d) \div 5
Clip(k, n) == IF k < 0 THEN 0 ELSE IF k > n - 1 THEN n - 1 ELSE k
Nearest(q, n) == LET r == (q + 500) \div 1000 IN
   IF (q + 500) % 1000 = 0 THEN {Clip(r - 1, n), Clip(r, n)} ELSE {Clip(r, n)}
\* is the integer point k one as which x can be seen
SeenAs(x, k, d) == \A j \in 1..NInt(d) : k[j] \in Nearest(x[j], Card(j, d))
Admissible(k, d) == \A j \in 1..NInt(d) : k[j] \in 0..(Card(j, d) - 1)
=============================================================================
