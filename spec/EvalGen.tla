------------------------------- MODULE EvalGen -------------------------------
(* Random behaviours over four problem objects for replay (tlc -simulate).     *)
(* Keys: 1-4 single-objective, 5-6 constrained, 7 bi-objective, 8-9 noisy.     *)
(* Points: 1-3 in the box, 4 near the optimum, 5 the optimum, 6 outside,       *)
(* 7 infinite, 8 undefined.                                                    *)
EXTENDS Eval, Json, TLC
CONSTANTS Depth, WithObs, WithTaint, WithNoise
VARIABLES ps, busy, hist, k
vars == <<ps, busy, hist, k>>
Rnd(a, b) == RandomElement(a..b)
P(n) == RandomElement(1..100) <= n
Slots == 0..3
Class(key) == IF key <= 4 THEN "single" ELSE IF key <= 6 THEN "cons" ELSE IF key = 7 THEN "bi" ELSE "noisy"
\* observer objects 0,1: bbob; 2: biobj; 3: rw; 4: toy
Kind(o) == IF o <= 1 THEN "bbob" ELSE IF o = 2 THEN "biobj" ELSE IF o = 3 THEN "rw" ELSE "toy"
Suits(o, key) == IF Kind(o) = "biobj" THEN Class(key) = "bi"
                 ELSE IF Kind(o) = "rw" THEN TRUE ELSE Class(key) # "bi"
Opened == {p \in Slots : ps[p].open}
OPEN == \E p \in {RandomElement(Slots \ Opened)} : \E key \in {Rnd(1, IF WithNoise THEN 9 ELSE 7)} : \E how \in {Rnd(1, 3)} :
          /\ ps' = [ps EXCEPT ![p] = Fresh(key, 0)] /\ hist' = Append(hist, [op |-> "open", p |-> p, key |-> key, how |-> how]) /\ UNCHANGED busy
EVAL(p) == \E x \in {Rnd(1, 8)} : ~Refused(ps[p]) /\ hist' = Append(hist, [op |-> "eval", p |-> p, x |-> x]) /\ UNCHANGED <<ps, busy>>
CONS(p) == \E x \in {Rnd(1, 8)} : hist' = Append(hist, [op |-> "cons", p |-> p, x |-> x]) /\ UNCHANGED <<ps, busy>>
\* a recommendation through a bbob observer that sits on another observer counts below it (known finding)
MayRec(p) == ~InStack(ps[p], {"bbob", "biobj"}) \/ ps[p].stack[1] \in {"bbob", "biobj"}
REC(p) == \E x \in {Rnd(1, 6)} : hist' = Append(hist, [op |-> "rec", p |-> p, x |-> x]) /\ UNCHANGED <<ps, busy>>
\* reading the optimum through an observer that sits on a bbob observer does not reach the latter (known finding)
MayTaint(p) == ~InStack(ps[p], {"bbob"}) \/ ps[p].stack[Len(ps[p].stack)] = "bbob"
TAINT(p) == ps' = [ps EXCEPT ![p].taint = TRUE] /\ hist' = Append(hist, [op |-> "xopt", p |-> p]) /\ UNCHANGED busy
FreeObs(p) == {o \in 0..4 : busy[o] = -1 /\ Suits(o, ps[p].key) /\ (\A j \in 1..Len(ps[p].stack) : ps[p].stack[j] # Kind(o))}
ADD(p) == \E o \in {RandomElement(FreeObs(p))} :
            /\ ps' = [ps EXCEPT ![p].stack = Append(@, Kind(o))] /\ busy' = [busy EXCEPT ![o] = p]
            /\ hist' = Append(hist, [op |-> "add", p |-> p, o |-> o, kind |-> Kind(o)])
OnProblem(p) == {o \in 0..4 : busy[o] = p}
TopObs(p) == CHOOSE o \in OnProblem(p) : Kind(o) = ps[p].stack[Len(ps[p].stack)]
REM(p) == /\ ps' = [ps EXCEPT ![p].stack = SubSeq(@, 1, Len(@) - 1)] /\ busy' = [busy EXCEPT ![TopObs(p)] = -1]
          /\ hist' = Append(hist, [op |-> "rem", p |-> p, o |-> TopObs(p)])
FREE(p) == /\ ps' = [ps EXCEPT ![p] = Closed] /\ busy' = [o \in 0..4 |-> IF busy[o] = p THEN -1 ELSE busy[o]] /\ hist' = Append(hist, [op |-> "free", p |-> p])
SEEDS == hist' = Append(hist, [op |-> "seeds", p |-> 0]) /\ UNCHANGED <<ps, busy>>
Init == ps = [p \in Slots |-> Closed] /\ busy = [o \in 0..4 |-> -1] /\ hist = <<>> /\ k = 0
Next == /\ k < Depth /\ k' = k + 1
        /\ IF Opened = {} THEN OPEN ELSE
           \E c \in {Rnd(1, 100)} : \E p \in {RandomElement(Opened)} :
             IF c <= 12 /\ Opened # Slots THEN OPEN
             ELSE IF c <= 16 THEN FREE(p)
             ELSE IF c <= 26 /\ WithObs /\ FreeObs(p) # {} /\ Len(ps[p].stack) < 2 THEN ADD(p)
             ELSE IF c <= 31 /\ ps[p].stack # <<>> THEN REM(p)
             ELSE IF c <= 36 /\ WithObs /\ MayRec(p) /\ Class(ps[p].key) # "noisy" THEN REC(p)
             ELSE IF c <= 40 /\ WithTaint /\ MayTaint(p) /\ Class(ps[p].key) \notin {"bi"} THEN TAINT(p)
             ELSE IF c <= 43 /\ WithNoise THEN SEEDS
             ELSE IF c <= 52 /\ Class(ps[p].key) = "cons" THEN CONS(p)
             ELSE IF Refused(ps[p]) THEN FREE(p) ELSE EVAL(p)
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
