--------------------------------- MODULE Eval ---------------------------------
(* Problem objects: what an evaluation returns and what it changes.            *)
(*                                                                             *)
(* A problem object is                                                         *)
(*   [open, key, n, nc, best, taint, stack]                                    *)
(* key   which problem it is (suite, function, dimension, instance)            *)
(* n/nc  counted evaluations of the objectives / of the constraints            *)
(* best  best feasible first objective so far                                  *)
(* stack kinds of the observers wrapped around it, outermost last              *)
(* Values are ranks of doubles (order preserving), NaN is -1.                  *)
(*                                                                             *)
(* The value of a point is a parameter of the module: V(k) for the k-th        *)
(* (problem, point) pair, with y objectives, c constraints, feas 0/1.  That    *)
(* V does not mention the state is the property: values depend on nothing but  *)
(* the problem and the point.  Noisy problems read a stream: the j-th noisy    *)
(* evaluation since the last reset of the seeds returns N(segment, j).         *)
EXTENDS Integers, Sequences, FiniteSets

NaN == -1
Closed == [open |-> FALSE, key |-> 0, n |-> 0, nc |-> 0, best |-> 0, taint |-> FALSE, stack |-> <<>>, about |-> 0, type |-> 0]
Fresh(key, worst) == [open |-> TRUE, key |-> key, n |-> 0, nc |-> 0, best |-> worst, taint |-> FALSE, stack |-> <<>>, about |-> 0, type |-> 0]

InStack(p, kinds) == \E j \in 1..Len(p.stack) : p.stack[j] \in kinds

\* evaluating through an observer that benchmarks (writes bbob data) is refused once the optimum was read
Refused(p) == p.taint /\ InStack(p, {"bbob"})

\* finite point: kind "fin"; one with an infinite / undefined coordinate: "inf" / "nan"
AfterEval(p, kind, y, feas) ==
  IF kind # "fin" THEN p
  ELSE [p EXCEPT !.n = @ + 1, !.best = IF y[1] < @ /\ feas = 1 THEN y[1] ELSE @]
AfterCons(p, kind) == IF kind # "fin" THEN p ELSE [p EXCEPT !.nc = @ + 1]

Const(n, v) == [j \in 1..n |-> v]
Result(kind, v, inf) == CASE kind = "fin" -> v [] kind = "inf" -> Const(Len(v), inf) [] kind = "nan" -> Const(Len(v), NaN)

Hit(p, nobj, target) == IF nobj = 1 /\ p.n >= 1 /\ p.best <= target THEN 1 ELSE 0
=============================================================================
