------------------------------ MODULE MixintGen ------------------------------
(* Points around the integer grid: for each variable a base value (in or out   *)
(* of the bounds) and a displacement of less than, exactly or more than half.  *)
EXTENDS Mixint, Json, TLC
CONSTANTS Depth, D
VARIABLES hist, k
vars == <<hist, k>>
Rnd(a, b) == RandomElement(a..b)
Disp(z) == LET c == Rnd(1, 12) IN IF c = 1 THEN 499 ELSE IF c = 2 THEN -499 ELSE IF c = 3 THEN 1 ELSE IF c = 4 THEN -1 ELSE IF c <= 7 THEN Rnd(-499, 499) ELSE IF c <= 10 THEN 0 ELSE Rnd(-400, 400)
Far(z) == LET c == Rnd(1, 40) IN IF c = 1 THEN Rnd(2000000000, 2000000002) ELSE IF c = 2 THEN -Rnd(2000000000, 2000000002) ELSE z
Base(n) == LET c == Rnd(1, 16) IN IF c = 1 THEN -1 ELSE IF c = 2 THEN n ELSE IF c = 3 THEN -Rnd(1, 100000) ELSE IF c = 4 THEN Rnd(n, 100000) ELSE Rnd(0, n - 1)
Whole(z) == [j \in 1..NInt(D) |-> 1000 * Rnd(0, Card(j, D) - 1)]
Bent(z) == [j \in 1..NInt(D) |-> Far(1000 * Base(Card(j, D)) + Disp(j))]
Tie(z) == LET t == Rnd(1, NInt(D)) IN [j \in 1..NInt(D) |-> 1000 * Rnd(0, Card(j, D) - 1) + (IF j = t THEN 500 ELSE 0)]
One(z) == LET t == Rnd(1, NInt(D)) w == Whole(0) IN [j \in 1..NInt(D) |-> IF j = t THEN Far(1000 * Base(Card(j, D)) + Disp(0)) ELSE w[j]]
Corner(z) == [j \in 1..NInt(D) |-> 1000 * RandomElement({0, Card(j, D) - 1})]
Next == /\ k < Depth /\ k' = k + 1
        /\ \E c \in {Rnd(1, 10)} : \E o \in {Rnd(0, 3)} :
             hist' = Append(hist, [x |-> CASE c = 1 -> Whole(k) [] c = 2 -> Tie(k) [] c \in {3, 4, 5} -> One(k) [] c = 6 -> Corner(k) [] OTHER -> Bent(k), c |-> o])
Init == hist = <<>> /\ k = 0
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
