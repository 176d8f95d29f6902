----------------------------- MODULE LifecycleGen ----------------------------
(* Random permitted histories, everything released at the end in random order. *)
EXTENDS Lifecycle, Json
CONSTANT Depth
VARIABLES w, hist, k
vars == <<w, hist, k>>
Rnd(a, b) == RandomElement(a..b)
H(r) == hist' = Append(hist, r)
Objs == {<<"s", s>> : s \in {t \in 0..1 : w.su[t].alive}} \cup {<<"o", o>> : o \in {t \in Slots : w.ob[t].alive}} \cup {<<"p", p>> : p \in {t \in Slots : w.pr[t].alive}}
Release(x) == CASE x[1] = "s" -> w' = SuiteFree(w, x[2]) /\ H([op |-> "sfree", s |-> x[2]])
                [] x[1] = "o" -> w' = ObsFree(w, x[2]) /\ H([op |-> "ofree", o |-> x[2]])
                [] OTHER -> w' = FreeProblem(w, x[2]) /\ H([op |-> "pfree", p |-> x[2]])
SK == <<"single", "single", "cons", "bi">>
OK == <<"bbob", "bbob", "bbob-biobj", "rw", "toy">>
Using == {p \in Handles : CanEval(w, p)}
Adds == {x \in Slots \X Slots : CanAdd(w, x[1], x[2])}
Rems == {x \in Slots \X Slots : CanRem(w, x[1], x[2])}
Nexts == {x \in (0..1) \X (Slots \cup {None}) : CanNext(w, x[1], x[2])}
Gets == {x \in Slots \X (0..1) : CanGet(w, x[1], x[2])}
Init == w = Empty /\ hist = <<>> /\ k = 0
NEWS == \E s \in {t \in 0..1 : CanSuite(w, t)} : \E q \in {Rnd(1, 4)} : \E n \in {Rnd(1, 6)} : w' = Suite(w, s, SK[q], n) /\ H([op |-> "suite", s |-> s, kind |-> SK[q], n |-> n])
NEWO == \E o \in {RandomElement({t \in Slots : CanObs(w, t)})} : \E q \in {Rnd(1, 5)} : w' = Obs(w, o, OK[q]) /\ H([op |-> "obs", o |-> o, kind |-> OK[q]])
GET == \E x \in {RandomElement(Gets)} : w' = NewProblem(w, x[1], x[2]) /\ H([op |-> "get", p |-> x[1], s |-> x[2]])
NEXT == \E x \in {RandomElement(Nexts)} : w' = Next1(w, x[1], x[2]) /\ H([op |-> "next", s |-> x[1], o |-> x[2]])
ADD == \E x \in {RandomElement(Adds)} : w' = Add(w, x[1], x[2]) /\ H([op |-> "add", p |-> x[1], o |-> x[2]])
REM == \E x \in {RandomElement(Rems)} : w' = Rem(w, x[1]) /\ H([op |-> "rem", p |-> x[1], o |-> x[2]])
EVAL == \E p \in {RandomElement(Using)} : \E x \in {Rnd(1, 6)} : w' = Eval(w, p) /\ H([op |-> "eval", p |-> p, x |-> x])
REC == \E p \in {RandomElement(Using)} : w' = w /\ H([op |-> "rec", p |-> p])
INFO == \E p \in {RandomElement(Using)} : \E q \in {Rnd(1, 5)} : w' = w /\ H([op |-> "info", p |-> p, q |-> q])
REL == \E x \in {RandomElement(Objs)} : Release(x)
Step == \E c \in {Rnd(1, 100)} :
  IF (\A s \in 0..1 : CanSuite(w, s)) \/ (c <= 3 /\ \E s \in 0..1 : CanSuite(w, s)) THEN NEWS
  ELSE IF c <= 12 /\ \E o \in Slots : CanObs(w, o) THEN NEWO
  ELSE IF c <= 24 /\ Gets # {} THEN GET
  ELSE IF c <= 34 /\ Nexts # {} THEN NEXT
  ELSE IF c <= 48 /\ Adds # {} THEN ADD
  ELSE IF c <= 54 /\ Rems # {} THEN REM
  ELSE IF c <= 66 THEN REL
  ELSE IF Using = {} THEN NEWO \/ REL
  ELSE IF c <= 72 THEN REC ELSE IF c <= 76 THEN INFO ELSE EVAL
Next == /\ k < Depth /\ k' = k + 1
        /\ IF k < Depth - 11 THEN Step ELSE IF Objs # {} THEN REL ELSE w' = w /\ H([op |-> "nop"])
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
