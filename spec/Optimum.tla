------------------------------- MODULE Optimum -------------------------------
(* What a single-objective problem announces about itself, and the values an   *)
(* optimizer sees.                                                             *)
(*                                                                             *)
(* A problem announces bounds, an initial solution, an optimal solution xopt,  *)
(* its value fopt and a final target.  Values are ranks (order preserving;     *)
(* values below fopt by no more than rounding have its rank).               *)
(* State of an open problem: [fopt, tgt, best].                                *)
EXTENDS Integers, Sequences

\* what has to hold when the problem is opened
Announced(a) ==
  /\ a.box = 1     \* every lower bound is below the upper bound, and both are the documented ones of the suite
  /\ a.xin = 1     \* xopt in the bounds
  /\ a.initin = 1  \* initial solution in the bounds
  /\ a.initfeas = 1
  /\ a.intok = 1   \* integer coordinates of xopt and of the initial solution are integers
  /\ a.fin = 1     \* fopt, target and xopt are finite
  /\ a.gap = 1     \* the target is the optimum plus the announced precision
  /\ a.fopt < a.tgt

Fresh(a, worst) == [fopt |-> a.fopt, tgt |-> a.tgt, best |-> worst]
\* a point: cls, feas, y
Allowed(p, e) ==
  /\ e.feas = 1 => p.fopt <= e.y              \* nothing feasible is better than the announced optimum
  /\ e.cls = "opt" => e.feas = 1 /\ e.near = 1 /\ e.y <= p.tgt   \* which is attained (up to rounding)
After(p, e) == [p EXCEPT !.best = IF e.feas = 1 /\ e.y < @ THEN e.y ELSE @]
Hit(p) == IF p.best <= p.tgt THEN 1 ELSE 0
=============================================================================
