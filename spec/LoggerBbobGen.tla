---------------------------- MODULE LoggerBbobGen ----------------------------
(* Random behaviours for replay: two problem objects, two bbob observers.      *)
(* A key is [s, f, d, i] with small numbers, made concrete by the harness.     *)
(* A point is [lev, dir]: distance class from the optimum (0 far .. 9 at it)   *)
(* and direction.                                                              *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Depth, Mode
VARIABLES ps, hist, k
vars == <<ps, hist, k>>
Rnd(a, b) == RandomElement(a..b)
Slots == {0, 1}
Off == [open |-> FALSE, o |-> -1, lev |-> 0]
Busy(o) == \E p \in Slots : ps[p].open /\ ps[p].o = o
Free(z) == {o \in {0, 1} : ~Busy(o)}
Say(r) == hist' = Append(hist, r)
Same == UNCHANGED ps
OPEN(p) == \E s \in {Rnd(1, IF Mode = "group" THEN 2 ELSE 1)} : \E f \in {Rnd(1, 2)} : \E d \in {Rnd(1, 2)} : \E i \in {Rnd(1, 3)} : \E o \in {RandomElement(Free(0) \cup {0})} :
     /\ ps' = [ps EXCEPT ![p] = [open |-> TRUE, o |-> IF Busy(o) THEN -1 ELSE o, lev |-> 0]]
     /\ Say([op |-> "open", p |-> p, key |-> <<s, f, d, i>>, o |-> IF Busy(o) THEN -1 ELSE o])
\* mostly a little better than before, sometimes far away or straight to the optimum
Lev(p) == LET c == Rnd(1, 20) IN IF c <= 9 THEN ps[p].lev ELSE IF c <= 14 THEN (IF ps[p].lev < 9 THEN ps[p].lev + 1 ELSE 9)
          ELSE IF c <= 18 THEN Rnd(0, 8) ELSE IF c = 19 THEN Rnd(0, 2) ELSE 9
EVAL(p) == \E l \in {Lev(p)} : \E dir \in {Rnd(0, 3)} : ps' = [ps EXCEPT ![p].lev = l] /\ Say([op |-> "eval", p |-> p, lev |-> l, dir |-> dir])
BURST(p) == \E n \in {RandomElement({5, 20, 60, 150, 400})} : \E l \in {Rnd(0, 3)} : Same /\ Say([op |-> "burst", p |-> p, n |-> n, lev |-> l])
CONS(p) == \E n \in {RandomElement({1, 1, 1, 3, 30})} : Same /\ Say([op |-> "cons", p |-> p, n |-> n, lev |-> Rnd(0, 5)])
REC(p) == \E l \in {Rnd(0, 9)} : \E dir \in {Rnd(0, 3)} : Same /\ Say([op |-> "rec", p |-> p, lev |-> l, dir |-> dir])
RESTART(p) == Same /\ Say([op |-> "restart", p |-> p, o |-> ps[p].o])
REM(p) == ps' = [ps EXCEPT ![p].o = -1] /\ Say([op |-> "rem", p |-> p, o |-> ps[p].o])
ADD(p) == \E o \in {RandomElement(Free(0))} : ps' = [ps EXCEPT ![p].o = o] /\ Say([op |-> "add", p |-> p, o |-> o])
FREE(p) == ps' = [ps EXCEPT ![p] = Off] /\ Say([op |-> "free", p |-> p])
Opened == {p \in Slots : ps[p].open}
Init == ps = [p \in Slots |-> Off] /\ hist = <<>> /\ k = 0
Run == \E c \in {Rnd(1, 100)} : \E p \in {RandomElement(Slots)} :
         IF ~ps[p].open THEN OPEN(p)
         ELSE IF ps[p].o = -1 THEN (IF c <= 60 /\ Free(0) # {} THEN ADD(p) ELSE IF c <= 80 THEN EVAL(p) ELSE FREE(p))
         ELSE IF c <= 55 THEN EVAL(p) ELSE IF c <= 65 THEN REC(p) ELSE IF c <= 73 THEN RESTART(p) ELSE IF c <= 80 THEN CONS(p)
         ELSE IF c <= 86 THEN BURST(p) ELSE IF c <= 90 THEN REM(p) ELSE IF c <= 94 THEN FREE(p) ELSE EVAL(p)
Group == \E c \in {Rnd(1, 100)} : \E p \in {RandomElement(Slots)} :
         IF ~ps[p].open THEN OPEN(p)
         ELSE IF ps[p].o = -1 THEN (IF c <= 70 /\ Free(0) # {} THEN ADD(p) ELSE FREE(p))
         ELSE IF c <= 45 THEN EVAL(p) ELSE IF c <= 50 THEN REC(p) ELSE IF c <= 58 THEN REM(p) ELSE FREE(p)
Next == k < Depth /\ k' = k + 1 /\ (IF Mode = "group" THEN Group ELSE Run)
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
