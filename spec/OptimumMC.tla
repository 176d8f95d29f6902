------------------------------ MODULE OptimumMC ------------------------------
(* A problem is a function on an integer grid that carries the optimal         *)
(* solution and value along while transformations are applied to it, as the    *)
(* problems of the suites are made.  The invariant: what is carried is the     *)
(* minimum of the function and attained, after every chain of transformations. *)
(* Constrained: xopt minimises among the feasible points.                      *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS R, MaxT
X == -R..R
VARIABLES f, xopt, fopt, feas, n
vars == <<f, xopt, fopt, feas, n>>
Clip(x) == IF x < -R THEN -R ELSE IF x > R THEN R ELSE x
Abs(x) == IF x < 0 THEN -x ELSE x
Base == {[x \in X |-> x * x], [x \in X |-> Abs(x)], [x \in X |-> IF x = 0 THEN 0 ELSE 3 - (x % 2)], [x \in X |-> IF x < 0 THEN -2 * x ELSE x], [x \in X |-> IF Abs(x) <= 1 THEN 0 ELSE Abs(x)]}
Init == f \in Base /\ xopt = 0 /\ fopt = 0 /\ feas = X /\ n = 0
\* the argument is shifted (within what the grid holds), the optimum moves along
VarShift == \E s \in {-1, 1} : Clip(xopt + s) = xopt + s /\ f' = [x \in X |-> f[Clip(x - s)]] /\ feas' = {x \in X : Clip(x - s) \in feas}
            /\ xopt' = xopt + s /\ xopt' \in feas' /\ UNCHANGED fopt
Mirror == f' = [x \in X |-> f[-x]] /\ feas' = {x \in X : -x \in feas} /\ xopt' = -xopt /\ UNCHANGED fopt
ObjShift == \E c \in {-3, 5} : f' = [x \in X |-> f[x] + c] /\ fopt' = fopt + c /\ UNCHANGED <<xopt, feas>>
ObjScale == \E c \in {2, 3} : f' = [x \in X |-> c * f[x]] /\ fopt' = c * fopt /\ UNCHANGED <<xopt, feas>>
\* a monotone transformation of the value above the optimum
Monotone == f' = [x \in X |-> LET v == f[x] - fopt IN fopt + (IF v > 3 THEN v + 2 ELSE 2 * v)] /\ UNCHANGED <<xopt, fopt, feas>>
\* a penalty outside of a box around zero that contains the optimum
Penalty == \E b \in 0..R : Abs(xopt) <= b /\ f' = [x \in X |-> IF Abs(x) > b THEN f[x] + Abs(x) - b ELSE f[x]] /\ UNCHANGED <<xopt, fopt, feas>>
\* only every second value is admissible; the others are seen as the nearest admissible one below
Discretize == xopt % 2 = 0 /\ f' = [x \in X |-> f[Clip(2 * (x \div 2))]] /\ feas' = {x \in X : Clip(2 * (x \div 2)) \in feas} /\ UNCHANGED <<xopt, fopt>>
\* a linear constraint that keeps the optimum
Constrain == \E b \in X : xopt <= b /\ feas' = {x \in feas : x <= b} /\ UNCHANGED <<f, xopt, fopt>>
Next == n < MaxT /\ n' = n + 1 /\ (VarShift \/ Mirror \/ ObjShift \/ ObjScale \/ Monotone \/ Penalty \/ Discretize \/ Constrain)
Spec == Init /\ [][Next]_vars
Attained == xopt \in feas /\ f[xopt] = fopt
Minimal == \A x \in feas : fopt <= f[x]
=============================================================================
