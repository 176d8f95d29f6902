------------------------------- MODULE Repeater -------------------------------
(* Repeating an experiment.  D: what was recorded: a function from <<function,  *)
(* dimension>> to a function from instance to the sequence of its trials        *)
(* [e |-> evaluations, s |-> success].  S: the number of the sweep.             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC
Of(D, k) == IF k \in DOMAIN D THEN D[k] ELSE <<>>
SumSeq(q) == FoldSeq(LAMBDA x, y : x + y, 0, q)
Trials(D, k, a) == IF k \in DOMAIN D /\ a \in DOMAIN D[k] THEN Len(D[k][a]) ELSE 0
Evals(D, k, a) == SumSeq([j \in 1..Len(D[k][a]) |-> D[k][a][j].e])
Succ(D, k, a) == SumSeq([j \in 1..Len(D[k][a]) |-> D[k][a][j].s])
Total(D, k, Op(_, _, _)) == MapThenSumSet(LAMBDA a : Op(D, k, a), DOMAIN Of(D, k))
\* an instance lacks trials compared with the others of its function (or has none)
Missing(D, k, a) == Max({1} \cup {Trials(D, k, c) : c \in DOMAIN Of(D, k)}) - Trials(D, k, a)
Succeeded(D, k, ms) == Total(D, k, Succ) >= ms
\* the budget is given in halves, because multipliers need not be whole numbers
Exhausted(D, k, c) == 2 * Total(D, k, Evals) >= Max({1, Cardinality(DOMAIN Of(D, k))}) * (k[2] + c.off) * c.mult2
\* the numbers of the message after a sweep
Message(D, S, c) ==
  IF DOMAIN D = {} THEN (IF S <= 1 THEN <<>> ELSE <<S>>)
  ELSE <<S, MapThenSumSet(LAMBDA k : Total(D, k, Succ), DOMAIN D), Cardinality(DOMAIN D), Cardinality({k \in DOMAIN D : Total(D, k, Succ) > 0}), 1,
         Cardinality({k \in DOMAIN D : Succeeded(D, k, c.ms)}), c.ms, Cardinality({k \in DOMAIN D : Exhausted(D, k, c) /\ ~Succeeded(D, k, c.ms)})>>
\* does the instance need no further trial
InstDone(D, S, k, a, c) == S > 1 /\ Missing(D, k, a) = 0 /\ (Succeeded(D, k, c.ms) \/ Exhausted(D, k, c))
Recorded(D) == {<<k, a>> \in UNION {{<<k, a>> : a \in DOMAIN D[k]} : k \in DOMAIN D} : TRUE}
Remaining(D, S, c) == {x \in Recorded(D) : ~InstDone(D, S, x[1], x[2], c)}
\* the question asked before every sweep
AllDone(D, S, c) == \/ S + 1 >= c.maxs \/ (S + 1 > 1 /\ DOMAIN D = {}) \/ (DOMAIN D # {} /\ Remaining(D, S + 1, c) = {})
Track(D, k, a, e, s) ==
  LET old == Of(D, k) new == [x \in DOMAIN old \cup {a} |-> IF x = a THEN Append(IF a \in DOMAIN old THEN old[a] ELSE <<>>, [e |-> e, s |-> s]) ELSE old[x]]
  IN [y \in DOMAIN D \cup {k} |-> IF y = k THEN new ELSE D[y]]
\* which initial solution is proposed: the number of it
Proposal(D, k, odds) == LET t == Total(D, k, Trials) IN IF odds = 0 THEN t + 1 ELSE IF t % (odds + 1) = 0 THEN 0 ELSE t
Sorted(A) == SetToSortSeq(A, LAMBDA x, y : x < y)
=============================================================================
