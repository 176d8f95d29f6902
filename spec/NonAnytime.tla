------------------------------ MODULE NonAnytime ------------------------------
(* One problem run with a sequence of budgets; rec is the single recorded        *)
(* trajectory (the points observed), ev the evaluations of the current budget.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, FiniteSetsExt, TLC
Start == [rec |-> <<>>, ev |-> 0]
BestV(s, V) == IF s.rec = <<>> THEN 99 ELSE Min({V[s.rec[j]] : j \in DOMAIN s.rec})
\* an evaluation is recorded if it is further than anything recorded so far
Call(s, x) == [rec |-> IF s.ev >= Len(s.rec) THEN Append(s.rec, x) ELSE s.rec, ev |-> s.ev + 1]
\* the solution delivered for this budget is recorded unless its value is the best one recorded
CanDeliver(s) == s.ev >= Len(s.rec)
Deliver(s, x, V) == [rec |-> IF V[x] = BestV(s, V) THEN s.rec ELSE Append(s.rec, x), ev |-> 0]
\* what is printed about the problem at an index of a suite of n problems: the dimension (0: no new one), function, instance, end of a line
Progress(e) == <<IF e.index % (e.n \div e.dims) = 0 THEN e.d ELSE 0, e.f, e.i, IF (e.index + 1) % 10 = 0 THEN 1 ELSE 0>>
\* the wrapper says of itself what the problem says, it gives points inside the bounds, and frees both problems in the end
Static(e) == CASE e.op = "about" -> e.suite = 1 /\ \A a \in DOMAIN e.same : e.same[a] = 1
               [] e.op = "progress" -> e.r = Progress(e)
               [] e.op = "rand" -> e.inside = 1 /\ e.differ = 1
               [] e.op = "exit" -> e.self = 1 /\ e.freed = <<1, 1>>
               [] OTHER -> TRUE
StaticOps == {"about", "progress", "rand", "exit"}
=============================================================================
