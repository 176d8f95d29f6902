--------------------------- MODULE LoggerBiobjGen ---------------------------
(* Random behaviours: Mode "feed": solutions on the grid are fed; "run": the   *)
(* problem is evaluated at points near or far from the front (made concrete by *)
(* the harness).                                                               *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Depth, Mode
VARIABLES ps, hist, k, g
vars == <<ps, hist, k, g>>
Rnd(a, b) == RandomElement(a..b)
Off == [open |-> FALSE, o |-> -1]
Slots == {0, 1}
Busy(o) == \E p \in Slots : ps[p].open /\ ps[p].o = o
Free(z) == {o \in {0, 1} : ~Busy(o)}
Say(r) == hist' = Append(hist, r)
Same == UNCHANGED ps
OPEN(p) == \E f \in {Rnd(1, 2)} : \E d \in {Rnd(1, 2)} : \E i \in {Rnd(1, 3)} : \E o \in {RandomElement(Free(0) \cup {0})} :
     /\ ps' = [ps EXCEPT ![p] = [open |-> TRUE, o |-> IF Busy(o) THEN -1 ELSE o]]
     /\ Say([op |-> "open", p |-> p, key |-> <<f, d, i>>, o |-> IF Busy(o) THEN -1 ELSE o])
Coord(z) == LET c == Rnd(1, 30) IN (IF c = 1 THEN -Rnd(1, 30) ELSE (Rnd(IF c = 2 THEN 0 ELSE 1, g + (IF c < 10 THEN g \div 2 ELSE 0)) * 1000) \div g) * 10 + (IF Rnd(1, 4) = 1 THEN Rnd(0, 9) ELSE 0)
Front(z) == LET t == Rnd(1, g - 1) IN <<((t * 1000) \div g) * 10 + Rnd(0, 1), (((g - t) * (g - t) * 1000) \div (g * g)) * 10 + Rnd(0, 3)>>
Out(z) == <<(1000 + Rnd(0, g)) * 10, (Rnd(500, 1000 + g)) * 10>>
FEED(p) == \E c \in {Rnd(1, 6)} : \E q \in {IF c <= 2 THEN Front(0) ELSE IF c = 3 THEN Out(0) ELSE <<Coord(0), Coord(1)>>} : \E x \in {Rnd(0, 1)} :
     Same /\ Say([op |-> "feed", p |-> p, gap |-> RandomElement({1, 1, 1, 1, 2, 3, 7, 40}), a |-> IF c = 3 /\ x = 1 THEN q[2] ELSE q[1], b |-> IF c = 3 /\ x = 1 THEN q[1] ELSE q[2]])
EVAL(p) == \E c \in {Rnd(1, 10)} : \E t \in {Rnd(0, 20)} : Same /\ Say([op |-> "eval", p |-> p, cls |-> IF c <= 5 THEN "front" ELSE IF c <= 7 THEN "near" ELSE IF c = 8 THEN "again" ELSE "far", t |-> t])
REC(p) == \E t \in {Rnd(0, 20)} : Same /\ Say([op |-> "rec", p |-> p, cls |-> "near", t |-> t])
RESTART(p) == Same /\ Say([op |-> "restart", p |-> p, o |-> ps[p].o])
REM(p) == ps' = [ps EXCEPT ![p].o = -1] /\ Say([op |-> "rem", p |-> p, o |-> ps[p].o])
ADD(p) == \E o \in {RandomElement(Free(0))} : ps' = [ps EXCEPT ![p].o = o] /\ Say([op |-> "add", p |-> p, o |-> o])
FREE(p) == ps' = [ps EXCEPT ![p] = Off] /\ Say([op |-> "free", p |-> p])
Init == ps = [p \in Slots |-> Off] /\ hist = <<>> /\ k = 0 /\ g \in {4, 10, 50, 400}
Next == /\ k < Depth /\ k' = k + 1 /\ UNCHANGED g
        /\ \E c \in {Rnd(1, 100)} : \E p \in {RandomElement(IF Rnd(1, 3) = 1 THEN {1} ELSE {0})} :
             IF ~ps[p].open THEN OPEN(p)
             ELSE IF ps[p].o = -1 THEN (IF c <= 80 /\ Free(0) # {} THEN ADD(p) ELSE FREE(p))
             ELSE IF c <= 84 THEN (IF Mode = "feed" THEN FEED(p) ELSE EVAL(p)) ELSE IF c <= 90 THEN RESTART(p)
             ELSE IF c <= 94 THEN (IF Mode = "feed" THEN FEED(p) ELSE REC(p)) ELSE IF c <= 96 THEN REM(p) ELSE FREE(p)
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
