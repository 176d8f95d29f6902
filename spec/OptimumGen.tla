------------------------------ MODULE OptimumGen ------------------------------
(* Sequences of points relative to the optimum: kinds of displacement, of size *)
(* 10^-k; the harness adds them to xopt.                                       *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Depth
VARIABLES hist, k
vars == <<hist, k>>
Kinds == <<"opt", "init", "axis", "axis", "axis", "all", "all", "all", "sign", "sign", "half", "corner", "rand", "rand", "centre", "far", "bound", "mirror">>
Next == /\ k < Depth /\ k' = k + 1
        /\ \E c \in {RandomElement(1..Len(Kinds))} : \E e \in {RandomElement(0..14)} : \E j \in {RandomElement(0..9)} : \E s \in {RandomElement({-1, 1})} :
             hist' = Append(hist, [cls |-> IF k = Depth - 1 THEN "opt" ELSE Kinds[c], e |-> e, j |-> j, s |-> s])
Init == hist = <<>> /\ k = 0
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
