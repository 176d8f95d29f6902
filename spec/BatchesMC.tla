------------------------------- MODULE BatchesMC ------------------------------
(* Every suite of at most G groups in which groups have one or more instances, *)
(* Sweeps passes over it, N batches.                                           *)
EXTENDS Batches
CONSTANTS G, Sweeps, MaxI
VARIABLES n, sizes, s, pos, sweep, assign
vars == <<n, sizes, s, pos, sweep, assign>>
Stream == LET RECURSIVE F(_) F(k) == IF k > Len(sizes) THEN <<>> ELSE [j \in 1..sizes[k] |-> k] \o F(k + 1) IN F(1)
Prob(k) == <<1 + (k % 3), 2 + (k \div 3)>>
Init == n \in 1..(G + 1) /\ sizes \in UNION {[1..k -> 1..MaxI] : k \in 1..G} /\ s = Start /\ pos = 1 /\ sweep = 1 /\ assign = <<>>
Next == /\ sweep <= Sweeps /\ UNCHANGED <<n, sizes>>
        /\ s' = After(s, Prob(Stream[pos]))
        /\ assign' = Append(assign, [grp |-> Stream[pos], b |-> {b \in 0..(n - 1) : InBatch(s', n, b)}])
        /\ IF pos = Len(Stream) THEN pos' = 1 /\ sweep' = sweep + 1 ELSE pos' = pos + 1 /\ UNCHANGED sweep
Spec == Init /\ [][Next]_vars
Partition == \A j \in DOMAIN assign : Cardinality(assign[j].b) = 1
SameEverySweep == \A j, k \in DOMAIN assign : assign[j].grp = assign[k].grp => assign[j].b = assign[k].b
Cnt(b) == Cardinality({g \in {assign[j].grp : j \in DOMAIN assign} : \E j \in DOMAIN assign : assign[j].grp = g /\ b \in assign[j].b})
Even == (sweep > 1) => \A a, b \in 0..(n - 1) : Cnt(a) <= Cnt(b) + 1
=============================================================================
