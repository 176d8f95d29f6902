-------------------------------- MODULE PySuite -------------------------------
(* The Python view of a suite with N problems: iteration state and the handles   *)
(* (problem objects) given out so far.  cur: 0 before the first problem, N+1     *)
(* after the last; curh: the handle of the current problem (0: none).            *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
Start == [cur |-> 0, curh |-> 0, H |-> <<>>, freed |-> FALSE, it |-> "no"]
Handle(k) == [k |-> k, n |-> 0, c |-> 0, pts |-> {}, freed |-> FALSE, obs |-> 0, calls |-> 0]
FreeH(s, h) == IF h = 0 THEN s ELSE [s EXCEPT !.H[h].freed = TRUE]
Give(s, k) == [s EXCEPT !.H = Append(@, Handle(k))]
Reset(s) == [FreeH(s, s.curh) EXCEPT !.cur = 0, !.curh = 0]
\* the next problem; the one before is released
NextP(s, N) == LET t == FreeH(s, s.curh) IN
  IF s.cur >= N THEN [t EXCEPT !.cur = N + 1, !.curh = 0]
  ELSE [Give(t, s.cur + 1) EXCEPT !.cur = s.cur + 1, !.curh = Len(t.H) + 1]
\* index -> position, as Python indexes a list
Pos(a, N) == IF a >= 0 /\ a < N THEN a + 1 ELSE IF a < 0 /\ a >= -N THEN N + a + 1 ELSE 0
Eval(s, h, x) == [s EXCEPT !.H[h].n = @ + 1, !.H[h].pts = @ \cup {x}]
\* the first proposal of an initial solution is the initial solution, and so is number 0
Propose(s, h) == [s EXCEPT !.H[h].calls = @ + 1]
Middle(s, h, number) == (IF number < 0 THEN s.H[h].calls ELSE number) = 0
Cons(s, h) == [s EXCEPT !.H[h].c = @ + 1]
=============================================================================
