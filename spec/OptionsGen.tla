------------------------------ MODULE OptionsGen ------------------------------
(* Random option lists: which option, which of its values, how it is written.  *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Depth, NKeys
VARIABLES hist, k
vars == <<hist, k>>
Rnd(a, b) == RandomElement(a..b)
Left == (0..(NKeys - 1)) \ {hist[j].key : j \in DOMAIN hist}
Next == /\ k < Depth /\ k' = k + 1
        /\ \E key \in {RandomElement(Left)} : \E v \in {Rnd(0, 999)} : \E s \in {Rnd(0, 15)} : hist' = Append(hist, [key |-> key, v |-> v, style |-> s])
Init == hist = <<>> /\ k = 0
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
