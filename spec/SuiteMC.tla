------------------------------- MODULE SuiteMC -------------------------------
(* Exhaustive check of the suite specification on a small suite with every    *)
(* filter: the level-by-level iteration delivers exactly the selected problems *)
(* once each, in index order; encoding and decoding are inverse.               *)
EXTENDS Suite
CONSTANTS NFn, NIn, NDm
VARIABLES st, seen
vars == <<st, seen>>

Init == /\ \E F \in SUBSET (1..NFn), I \in SUBSET (1..NIn), D \in SUBSET (1..NDm) :
             /\ F # {} /\ I # {} /\ D # {}
             /\ st = [ok |-> TRUE, funcs |-> [k \in 1..NFn |-> IF k \in F THEN 100 + k ELSE 0],
                      dims |-> [k \in 1..NDm |-> IF k \in D THEN 2 * k ELSE 0],
                      insts |-> [k \in 1..NIn |-> IF k \in I THEN 10 + (k % 2) ELSE 0], cur |-> -1, ended |-> FALSE]
        /\ seen = <<>>
Next == /\ ~st.ended
        /\ st' = AfterNext(st)
        /\ seen' = IF NextIndex(st) = -1 THEN seen ELSE Append(seen, NextIndex(st))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

All == {n \in 0..(Count(st) - 1) : Selected(st, n)}
Increasing == \A k \in 1..(Len(seen) - 1) : seen[k] < seen[k + 1]
OnlySelected == SeqToSet(seen) \subseteq All
NoGap == \A n \in All : (\E k \in 1..Len(seen) : n < seen[k]) => n \in SeqToSet(seen)
Complete == st.ended => SeqToSet(seen) = All
EncDecInverse == \A n \in 0..(Count(st) - 1) : /\ Encode(st, DecF(st, n), DecD(st, n), DecI(st, n)) = n
                                           /\ DecF(st, n) < NF(st) /\ DecD(st, n) < ND(st) /\ DecI(st, n) < NI(st)
ByNumbers == \A n \in All : LET p == At(st, n)  m == ByFDI(st, p[1], p[2], p[3])
                            IN m # -1 /\ m <= n /\ At(st, m) = p
Ends == <>(st.ended)
=============================================================================
