-------------------------------- MODULE EvalMC --------------------------------
(* Exhaustive check on two problem objects of small problems: counters count   *)
(* finite evaluations only, best is the minimum over the feasible ones, the    *)
(* target stays hit, a tainted problem is never evaluated under observation.   *)
EXTENDS Eval
CONSTANTS MaxOps
Keys == {1, 2}
Worst == 9
Target == 2
\* three points each; key 2 has a constraint and its best point is infeasible
VV == [k \in Keys |-> [x \in 1..3 |-> [y |-> <<x + k>>, feas |-> IF k = 2 /\ x = 1 THEN 0 ELSE 1]]]
VARIABLES ps, hist, bad, ops
vars == <<ps, hist, bad, ops>>
Init == ps = [p \in 1..2 |-> Closed] /\ hist = [p \in 1..2 |-> <<>>] /\ bad = FALSE /\ ops = 0
Step == ops < MaxOps /\ ops' = ops + 1
Open(p) == \E k \in Keys : /\ ~ps[p].open /\ ps' = [ps EXCEPT ![p] = Fresh(k, Worst)] /\ hist' = [hist EXCEPT ![p] = <<>>] /\ UNCHANGED bad
Eval_(p) == \E x \in 1..3, kind \in {"fin", "inf", "nan"} :
             /\ ps[p].open
             /\ ~Refused(ps[p])
             /\ LET v == VV[ps[p].key][x] IN
                ps' = [ps EXCEPT ![p] = AfterEval(@, kind, v.y, v.feas)]
             /\ hist' = [hist EXCEPT ![p] = IF kind = "fin" THEN Append(@, x) ELSE @]
             /\ bad' = (bad \/ (ps[p].taint /\ InStack(ps[p], {"bbob"})))
Cons(p) == \E kind \in {"fin", "inf"} : ps[p].open /\ ps' = [ps EXCEPT ![p] = AfterCons(@, kind)] /\ UNCHANGED <<hist, bad>>
Taint(p) == ps[p].open /\ ps' = [ps EXCEPT ![p].taint = TRUE] /\ UNCHANGED <<hist, bad>>
Add(p) == ps[p].open /\ Len(ps[p].stack) < 2 /\ \E o \in {"bbob", "rw"} : ps' = [ps EXCEPT ![p].stack = Append(@, o)] /\ UNCHANGED <<hist, bad>>
Rem(p) == ps[p].open /\ ps[p].stack # <<>> /\ ps' = [ps EXCEPT ![p].stack = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<hist, bad>>
Free(p) == ps[p].open /\ ps' = [ps EXCEPT ![p] = Closed] /\ hist' = [hist EXCEPT ![p] = <<>>] /\ UNCHANGED bad
Next == Step /\ \E p \in 1..2 : Open(p) \/ Eval_(p) \/ Cons(p) \/ Taint(p) \/ Add(p) \/ Rem(p) \/ Free(p)
Spec == Init /\ [][Next]_vars

Counted == \A p \in 1..2 : ps[p].n = Len(hist[p])
Min(S) == CHOOSE a \in S : \A b \in S : a <= b
BestIsMin == \A p \in 1..2 : ps[p].open =>
   ps[p].best = Min({Worst} \cup {VV[ps[p].key][hist[p][j]].y[1] : j \in {j \in 1..Len(hist[p]) : VV[ps[p].key][hist[p][j]].feas = 1}})
NeverCheats == ~bad
HitStays == [][\A p \in 1..2 : (ps[p].open /\ ps'[p].open /\ Hit(ps[p], 1, Target) = 1) => Hit(ps'[p], 1, Target) = 1]_vars
TaintStays == [][\A p \in 1..2 : (ps[p].taint /\ ps'[p].open) => ps'[p].taint]_vars
=============================================================================
