----------------------------- MODULE ArchiveGen -----------------------------
EXTENDS Integers, Sequences, Json, TLC
CONSTANTS Depth
VARIABLES hist, k, g
vars == <<hist, k, g>>
Rnd(a, b) == RandomElement(a..b)
Coord(z) == LET c == Rnd(1, 40) IN (IF c = 1 THEN -Rnd(1, 30) ELSE (Rnd(0, g + (IF c < 8 THEN g \div 3 ELSE 0)) * 1000) \div g) * 10 + (IF Rnd(1, 4) = 1 THEN Rnd(0, 9) ELSE 0)
Say(r) == hist' = Append(hist, r)
\* near the front between the extremes, so that many points stay
Front(z) == LET t == Rnd(1, g - 1) IN <<((t * 1000) \div g) * 10 + Rnd(0, 1), (((g - t) * (g - t) * 1000) \div (g * g)) * 10 + Rnd(0, 3)>>
ADD == \E f \in {Rnd(1, 3)} : \E p \in {IF f = 1 THEN Front(0) ELSE <<Coord(0), Coord(1)>>} : Say([op |-> "add", a |-> p[1], b |-> p[2]])
Repeat == LET s == {i \in DOMAIN hist : hist[i].op = "add"} IN IF s = {} THEN ADD ELSE \E i \in {RandomElement(s)} : Say(hist[i])
Init == hist = <<>> /\ k = 0 /\ g \in {4, 10, 50, 400}
Next == /\ k < Depth /\ k' = k + 1 /\ UNCHANGED g
        /\ \E c \in {Rnd(1, 100)} : IF c <= 60 THEN ADD ELSE IF c <= 66 THEN Repeat ELSE IF c <= 74 THEN Say([op |-> "num"])
              ELSE IF c <= 84 THEN Say([op |-> "hv"]) ELSE Say([op |-> "next", n |-> RandomElement({1, 1, 2, 3, 60})])
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
