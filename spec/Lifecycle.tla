------------------------------ MODULE Lifecycle ------------------------------
(* Who owns what, and which calls are permitted when.                          *)
(*                                                                             *)
(* su[s]  suite s: alive, kind, how many problems are still to come (-1: the   *)
(*        iteration has ended)                                                 *)
(* ob[o]  observer o: alive, kind, how many observations it has open           *)
(* pr[p]  problem p: alive, kind, the suite it came from, whether that suite   *)
(*        is alive, the observations stacked on it (innermost first), owner    *)
(* done   observations that ended: <<observation, observer kind, evaluations>> *)
(* A problem outlives its suite; an observation outlives its observer; the     *)
(* problem a suite iterates over ends with the next one or with the suite.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
None == -1
Slots == 0..3
Cur(s) == 10 + s                   \* the problem suite s iterates over
Handles == Slots \cup {Cur(0), Cur(1)}
NoSuite == [alive |-> FALSE, kind |-> "", gen |-> 0, left |-> -1]
NoObs == [alive |-> FALSE, kind |-> "", gen |-> 0]
NoProb == [alive |-> FALSE, kind |-> "", suite |-> None, sgen |-> 0, stack |-> <<>>]
Empty == [su |-> [s \in 0..1 |-> NoSuite], ob |-> [o \in Slots |-> NoObs], pr |-> [p \in Handles |-> NoProb], done |-> <<>>, ids |-> 0]

\* an observer of kind ok fits a problem of kind pk
Fits(ok, pk) == IF ok = "bbob" THEN pk \in {"single", "cons"} ELSE IF ok = "bbob-biobj" THEN pk = "bi" ELSE IF ok = "toy" THEN pk # "bi" ELSE TRUE
Observing(w, o) == {p \in Handles : w.pr[p].alive /\ \E j \in DOMAIN w.pr[p].stack : w.pr[p].stack[j].o = o /\ w.pr[p].stack[j].ogen = w.ob[o].gen}
SuiteAlive(w, p) == w.su[w.pr[p].suite].alive /\ w.su[w.pr[p].suite].gen = w.pr[p].sgen

CanSuite(w, s) == ~w.su[s].alive
Suite(w, s, kind, n) == [w EXCEPT !.su[s] = [alive |-> TRUE, kind |-> kind, gen |-> @.gen + 1, left |-> n]]
\* the observations of a problem end with it
Ended(w, p) == [j \in 1..Len(w.pr[p].stack) |-> LET r == w.pr[p].stack[Len(w.pr[p].stack) + 1 - j] IN [id |-> r.id, kind |-> r.kind, n |-> r.n]]
FreeProblem(w, p) == IF w.pr[p].alive THEN [w EXCEPT !.pr[p] = NoProb, !.done = @ \o Ended(w, p)] ELSE w
CanSuiteFree(w, s) == w.su[s].alive
SuiteFree(w, s) == LET v == FreeProblem(w, Cur(s)) IN [v EXCEPT !.su[s].alive = FALSE]
CanObs(w, o) == ~w.ob[o].alive
Obs(w, o, kind) == [w EXCEPT !.ob[o] = [alive |-> TRUE, kind |-> kind, gen |-> @.gen + 1]]
CanObsFree(w, o) == w.ob[o].alive
ObsFree(w, o) == [w EXCEPT !.ob[o].alive = FALSE]
NewProblem(w, p, s) == [w EXCEPT !.pr[p] = [alive |-> TRUE, kind |-> w.su[s].kind, suite |-> s, sgen |-> w.su[s].gen, stack |-> <<>>]]
CanGet(w, p, s) == p \in Slots /\ ~w.pr[p].alive /\ w.su[s].alive
CanAdd(w, p, o) == w.pr[p].alive /\ SuiteAlive(w, p) /\ w.ob[o].alive /\ Fits(w.ob[o].kind, w.pr[p].kind) /\ Observing(w, o) = {}
                   /\ Len(w.pr[p].stack) < 2 /\ (\A j \in DOMAIN w.pr[p].stack : w.pr[p].stack[j].kind # w.ob[o].kind)
Add(w, p, o) == [w EXCEPT !.ids = @ + 1, !.pr[p].stack = Append(@, [id |-> w.ids + 1, o |-> o, ogen |-> w.ob[o].gen, kind |-> w.ob[o].kind, n |-> 0])]
\* the next problem of a suite ends the one before
CanNext(w, s, o) == w.su[s].alive /\ w.su[s].left > -1 /\ (o # None => w.ob[o].alive /\ Fits(w.ob[o].kind, w.su[s].kind) /\ Observing(w, o) \subseteq {Cur(s)})
\* after the last one there is none, and the one before stays until the suite is released
Next1(w, s, o) == IF w.su[s].left = 0 THEN [w EXCEPT !.su[s].left = -1]
                  ELSE LET v == [NewProblem(FreeProblem(w, Cur(s)), Cur(s), s) EXCEPT !.su[s].left = @ - 1] IN IF o = None THEN v ELSE Add(v, Cur(s), o)
Top(w, p) == w.pr[p].stack[Len(w.pr[p].stack)]
CanRem(w, p, o) == p \in Slots /\ w.pr[p].alive /\ w.pr[p].stack # <<>> /\ Top(w, p).o = o /\ w.ob[o].alive /\ w.ob[o].gen = Top(w, p).ogen
Rem(w, p) == [w EXCEPT !.done = Append(@, [id |-> Top(w, p).id, kind |-> Top(w, p).kind, n |-> Top(w, p).n]), !.pr[p].stack = SubSeq(@, 1, Len(@) - 1)]
CanUse(w, p) == w.pr[p].alive
\* an observation that has begun outlives its observer; one that has not can only be released
Begun(w, r) == r.n > 0 \/ (w.ob[r.o].alive /\ w.ob[r.o].gen = r.ogen)
CanEval(w, p) == CanUse(w, p) /\ \A j \in DOMAIN w.pr[p].stack : Begun(w, w.pr[p].stack[j])
Eval(w, p) == [w EXCEPT !.pr[p].stack = [j \in DOMAIN @ |-> [@[j] EXCEPT !.n = @ + 1]]]
CanFree(w, p) == p \in Slots /\ w.pr[p].alive
AllReleased(w) == (\A s \in 0..1 : ~w.su[s].alive) /\ (\A o \in Slots : ~w.ob[o].alive) /\ (\A p \in Handles : ~w.pr[p].alive)
=============================================================================
