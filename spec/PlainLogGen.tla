----------------------------- MODULE PlainLogGen ------------------------------
(* Random behaviours for replay: two problem objects, an rw (0) and a toy (1)  *)
(* observer, three keys.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, Json, TLC
CONSTANTS Depth
VARIABLES ps, gone, hist, k
vars == <<ps, gone, hist, k>>
Rnd(a, b) == RandomElement(a..b)
Slots == {0, 1}
Off == [open |-> FALSE, key |-> 0, logs |-> <<>>, lev |-> 0]
Say(r) == hist' = Append(hist, r)
Same == UNCHANGED <<ps, gone>>
Has(p, o) == \E j \in DOMAIN ps[p].logs : ps[p].logs[j] = o
\* the rw file of a key is in use by one problem object at a time
May(p, o) == o \notin gone /\ ~Has(p, o) /\ \A q \in Slots : (q # p /\ ps[q].open /\ ps[q].key = ps[p].key) => ~Has(q, o)
OPEN(p) == \E key \in {Rnd(1, 3)} : ps' = [ps EXCEPT ![p] = [open |-> TRUE, key |-> key, logs |-> <<>>, lev |-> 0]] /\ Say([op |-> "open", p |-> p, key |-> key]) /\ UNCHANGED gone
ADD(p, S) == \E o \in {RandomElement(S)} : ps' = [ps EXCEPT ![p].logs = Append(@, o)] /\ Say([op |-> "add", p |-> p, o |-> o]) /\ UNCHANGED gone
REM(p) == LET o == ps[p].logs[Len(ps[p].logs)] IN ps' = [ps EXCEPT ![p].logs = SubSeq(@, 1, Len(@) - 1)] /\ Say([op |-> "rem", p |-> p, o |-> o]) /\ UNCHANGED gone
FREE(p) == ps' = [ps EXCEPT ![p] = Off] /\ Say([op |-> "free", p |-> p]) /\ UNCHANGED gone
Lev(p) == LET c == Rnd(1, 20) IN IF c <= 9 THEN ps[p].lev ELSE IF c <= 14 THEN (IF ps[p].lev < 9 THEN ps[p].lev + 1 ELSE 9)
          ELSE IF c <= 18 THEN Rnd(0, 8) ELSE IF c = 19 THEN Rnd(0, 2) ELSE 9
EVAL(p) == \E l \in {Lev(p)} : \E dir \in {Rnd(0, 3)} : ps' = [ps EXCEPT ![p].lev = l] /\ Say([op |-> "eval", p |-> p, lev |-> l, dir |-> dir, n |-> 1]) /\ UNCHANGED gone
AGAIN(p) == Same /\ Say([op |-> "again", p |-> p])
BURST(p) == \E n \in {RandomElement({5, 20, 60})} : \E l \in {Rnd(0, 3)} : Same /\ Say([op |-> "eval", p |-> p, n |-> n, lev |-> l, dir |-> 0])
CONS(p) == \E n \in {RandomElement({1, 1, 3})} : Same /\ Say([op |-> "cons", p |-> p, n |-> n, lev |-> Rnd(0, 5)])
REC(p) == Same /\ Say([op |-> "rec", p |-> p, lev |-> Rnd(0, 9), dir |-> 0])
RESTART(p) == ps[p].logs[1] \notin gone /\ Same /\ Say([op |-> "restart", p |-> p, o |-> ps[p].logs[1]])
OFREE == gone' = {0} /\ Say([op |-> "ofree", o |-> 0, p |-> 0]) /\ UNCHANGED ps
Init == ps = [p \in Slots |-> Off] /\ gone = {} /\ hist = <<>> /\ k = 0
Next == /\ k < Depth /\ k' = k + 1
        /\ \E c \in {Rnd(1, 100)} : \E p \in {RandomElement(Slots)} :
             LET S == {o \in {0, 1} : May(p, o)} IN
             IF ~ps[p].open THEN OPEN(p)
             ELSE IF ps[p].logs = <<>> /\ S # {} /\ c <= 70 THEN ADD(p, S)
             ELSE IF c <= 8 /\ S # {} THEN ADD(p, S)
             ELSE IF c <= 12 /\ ps[p].logs # <<>> /\ ps[p].logs[Len(ps[p].logs)] \notin gone THEN REM(p)
             ELSE IF c <= 18 THEN FREE(p) ELSE IF c <= 30 THEN CONS(p) ELSE IF c <= 34 THEN REC(p)
             ELSE IF c <= 37 /\ ps[p].logs # <<>> /\ ps[p].logs[1] \notin gone THEN RESTART(p)
             ELSE IF c <= 42 THEN BURST(p) ELSE IF c <= 47 THEN AGAIN(p)
             ELSE IF c = 48 /\ gone = {} /\ k > Depth \div 2 THEN OFREE ELSE EVAL(p)
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
