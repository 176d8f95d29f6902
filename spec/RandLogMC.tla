------------------------------ MODULE RandLogMC -------------------------------
(* All interleavings of two generators and messages.                           *)
EXTENDS RandLog
CONSTANT MaxOps
VARIABLES k, drawn, said
vars == <<gens, level, out, err, k, drawn, said>>
\* drawn: per generator object, what was drawn as (first element, count); said: messages with the level at that time
Init == SysInit /\ k = 0 /\ drawn = [g \in {0, 1} |-> <<>>] /\ said = <<>>
Next == /\ k < MaxOps /\ k' = k + 1
        /\ \/ \E g \in {0, 1} : g \notin DOMAIN gens /\ New(g, 5) /\ drawn' = [drawn EXCEPT ![g] = <<>>] /\ UNCHANGED said
           \/ \E g \in DOMAIN gens : \E n \in {1, 2} : Draw(g, n) /\ drawn' = [drawn EXCEPT ![g] = Append(@, <<gens[g].pos + 1, n>>)] /\ UNCHANGED said
           \/ \E g \in DOMAIN gens : Drop(g) /\ UNCHANGED <<drawn, said>>
           \/ \E l \in {"error", "warning", "info", "debug", "", "nonsense"} : SetLevel(l, k) /\ UNCHANGED <<drawn, said>>
           \/ \E m \in Kinds : Message(m, k) /\ said' = Append(said, <<m, level, k>>) /\ UNCHANGED drawn
Spec == Init /\ [][Next]_vars
RECURSIVE Total(_)
Total(s) == IF s = <<>> THEN 0 ELSE s[1][2] + Total(Tail(s))
\* whatever happens in between, a generator goes through its sequence without gaps or repetitions
NoGaps == \A g \in DOMAIN gens : /\ gens[g].pos = Total(drawn[g])
                                 /\ \A j \in DOMAIN drawn[g] : drawn[g][j][1] = Total(SubSeq(drawn[g], 1, j - 1)) + 1
Range(s) == {s[j] : j \in DOMAIN s}
Quiet == \A j \in DOMAIN said : (Rank(said[j][2]) < KindRank(said[j][1])) => (said[j][3] \notin Range(out) /\ said[j][3] \notin Range(err))
Heard == \A j \in DOMAIN said : (Rank(said[j][2]) >= KindRank(said[j][1])) => (said[j][3] \in (IF said[j][1] = "warning" THEN Range(err) ELSE Range(out)))
Ordered(s) == \A a, b \in DOMAIN s : a < b => s[a] < s[b]
InOrder == Ordered(out) /\ Ordered(err)
=============================================================================
