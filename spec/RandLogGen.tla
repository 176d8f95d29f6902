------------------------------ MODULE RandLogGen ------------------------------
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Depth
VARIABLES open, hist, k
vars == <<open, hist, k>>
Rnd(a, b) == RandomElement(a..b)
Say(r) == hist' = Append(hist, r)
Ls == {"error", "warning", "info", "debug", "", "loud", "Warning"}
\* levels that are none, among them beginnings and extensions of those that are
Odd == {"e", "err", "errors", "error1", "w", "warn", "warnings", "i", "inf", "information", "d", "deb", "debugging", "detailed", "none", "0", "INFO", "Debug", "x_error"}
Next == /\ k < Depth /\ k' = k + 1
        /\ \E c \in {Rnd(1, 100)} : \E g \in {Rnd(0, 3)} :
             IF g \notin open THEN (\E s \in {Rnd(0, 7)} : open' = open \cup {g} /\ Say([op |-> "new", g |-> g, seed |-> s]))
             ELSE IF c <= 30 THEN UNCHANGED open /\ \E n \in {RandomElement({1, 1, 2, 5})} : Say([op |-> "uni", g |-> g, n |-> n])
             ELSE IF c <= 50 THEN UNCHANGED open /\ \E n \in {RandomElement({1, 1, 3})} : Say([op |-> "norm", g |-> g, n |-> n])
             ELSE IF c <= 56 THEN UNCHANGED open /\ \E n \in {RandomElement({100, 300, 594, 595, 596})} : Say([op |-> "uni", g |-> g, n |-> n])
             ELSE IF c <= 58 THEN UNCHANGED open /\ Say([op |-> "norm", g |-> g, n |-> RandomElement({20, 49, 50})])
             ELSE IF c <= 62 THEN open' = open \ {g} /\ Say([op |-> "drop", g |-> g])
             ELSE IF c <= 72 THEN UNCHANGED open /\ \E l \in {IF c <= 68 THEN RandomElement(Ls) ELSE RandomElement(Odd)} : Say([op |-> "level", l |-> l])
             ELSE IF c <= 88 THEN UNCHANGED open /\ \E m \in {RandomElement({"warning", "info", "partial", "debug"})} : Say([op |-> "msg", m |-> m])
             ELSE IF c <= 90 THEN UNCHANGED open /\ Say([op |-> "seeds"])
             ELSE UNCHANGED open /\ Say([op |-> "work", w |-> Rnd(0, 2), n |-> Rnd(1, 3)])
Init == open = {} /\ hist = <<>> /\ k = 0
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
