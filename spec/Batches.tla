-------------------------------- MODULE Batches -------------------------------
(* Problems (function, dimension) are asked for in suite order, sweep by sweep. *)
(* The state: first problem, current problem, number of the current group.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
None == <<0, 0>>
Start == [first |-> None, cur |-> None, g |-> -1]
After(s, p) == LET f == IF s.first = None THEN p ELSE s.first IN
  IF s.cur = p THEN [s EXCEPT !.first = f]
  ELSE [first |-> f, cur |-> p, g |-> IF p = f THEN 0 ELSE s.g + 1]
InBatch(s, n, b) == s.g % n = b
Legal(n, b) == IF n = 1 THEN b \in {0, 1, 99} ELSE b >= 0 /\ b < n /\ b # 99
=============================================================================
