----------------------------- MODULE NonAnytimeGen ----------------------------
EXTENDS NonAnytime, Json
CONSTANTS Len1
VARIABLES vals, ops, s, freed
vars == <<vals, ops, s, freed>>
R(S, x) == RandomElement(S)
Init == vals = <<>> /\ ops = <<>> /\ s = Start /\ freed = FALSE
Op(o) == ops' = Append(ops, o) /\ UNCHANGED vals
Do == \E z \in {R(1..60, ops)}, x \in {R(1..Len(vals), ops)} :
  CASE z = 1 /\ Len(ops) > Len1 - 4 -> Op([op |-> "free", x |-> 0]) /\ freed' = TRUE /\ UNCHANGED s
    [] z = 2 -> Op([op |-> "reset", x |-> 0]) /\ s' = [s EXCEPT !.ev = 0] /\ UNCHANGED freed
    [] z \in 3..8 \/ (z \in 9..26 /\ CanDeliver(s)) ->
         \E y \in {IF z % 2 = 0 /\ s.rec # <<>> THEN s.rec[R(DOMAIN s.rec, ops)] ELSE x} :
         Op([op |-> "deliver", x |-> y]) /\ s' = (IF CanDeliver(s) THEN Deliver(s, y, vals) ELSE s) /\ UNCHANGED freed
    [] OTHER -> Op([op |-> "call", x |-> x]) /\ s' = Call(s, x) /\ UNCHANGED freed
Next == \/ vals = <<>> /\ UNCHANGED <<ops, s, freed>> /\ \E m \in {R(1..7, 1)} : vals' = [j \in 1..m |-> R(1..5, j)]
        \/ vals # <<>> /\ ~freed /\ Len(ops) < Len1 /\ Do
Spec == Init /\ [][Next]_vars
Emit == (Len(ops) >= Len1 \/ freed) => PrintT(<<"BEH", ToJson([vals |-> vals, target |-> R(0..3, 1), index |-> R(0..7, 2), fun |-> R({1, 2, 5, 8, 15, 21}, 3), seed |-> R(1..10000, 4), ops |-> ops])>>)
=============================================================================
