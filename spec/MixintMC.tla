------------------------------ MODULE MixintMC ------------------------------
(* Rounding is the nearest admissible value, idempotent, monotone, constant    *)
(* beyond the bounds; all values are reached.                                  *)
EXTENDS Mixint
CONSTANT Step
VARIABLES q, n
Abs(x) == IF x < 0 THEN -x ELSE x
Init == n \in {2, 4, 8, 16} /\ q = -3000
Next == q < 19000 /\ q' = q + Step /\ UNCHANGED n
Spec == Init /\ [][Next]_<<q, n>>
NearestRight == Nearest(q, n) = {k \in 0..(n - 1) : \A m \in 0..(n - 1) : Abs(1000 * k - q) <= Abs(1000 * m - q)}
Idempotent == \A k \in Nearest(q, n) : Nearest(1000 * k, n) = {k}
Monotone == \A k \in Nearest(q, n) : \A m \in Nearest(q + Step, n) : k <= m
Split == \A d \in {5, 10, 20, 40, 80, 160} : /\ \A j \in 1..d : (Card(j, d) = 0) <=> j > NInt(d)
                                             /\ \A c \in {2, 4, 8, 16, 0} : Cardinality({j \in 1..d : Card(j, d) = c}) * 5 = d
=============================================================================
