----------------------------- MODULE RelationsMC -----------------------------
(* The tables are what they are meant to be: 92 different pairs, the first 55  *)
(* within the selected functions, each later pair within a group of functions, *)
(* no instance of a bi-objective problem pairs an instance with itself.        *)
EXTENDS Relations
VARIABLE f
Init == f = 1
Next == f < 92 /\ f' = f + 1
Spec == Init /\ [][Next]_f
Count == Len(Pairs) = 92
Distinct == \A g \in 1..92 : g # f => Pairs[g] # Pairs[f]
Inside == IF f <= 55 THEN Pairs[f][1] \in Sel /\ Pairs[f][2] \in Sel ELSE \E g \in 1..5 : Pairs[f][1] \in Groups[g] /\ Pairs[f][2] \in Groups[g]
Complete == \A a \in Sel : \A b \in Sel : a <= b => \E g \in 1..55 : Pairs[g] = <<a, b>>
Apart == \A i \in 1..40 : \A a \in 1..90 : ~InstOk(i, a, a)
OnePair == \A i \in 1..15 : Cardinality({p \in (1..40) \X (1..40) : InstOk(i, p[1], p[2])}) = 1
Growing == \A d \in {2, 3, 5, 10, 20, 40} : \A l \in 0..4 : Active(l, d) < Active(l + 1, d)
=============================================================================
