----------------------------- MODULE RelationsGen -----------------------------
(* Kinds of points at which related problems are compared.                     *)
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Depth
VARIABLES hist, k
vars == <<hist, k>>
Kinds == <<"opt1", "opt2", "between", "between", "rand", "rand", "rand", "near1", "near2", "far", "zero", "edge", "out">>
Next == k < Depth /\ k' = k + 1 /\ \E c \in {RandomElement(1..Len(Kinds))} : \E t \in {RandomElement(1..9)} : hist' = Append(hist, [cls |-> Kinds[c], t |-> t])
Init == hist = <<>> /\ k = 0
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
