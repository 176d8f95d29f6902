----------------------------- MODULE LifecycleMC -----------------------------
EXTENDS Lifecycle
CONSTANT MaxOps
VARIABLES w, k
vars == <<w, k>>
Kinds == {"single", "bi"}
OKinds == {"bbob", "bbob-biobj", "rw"}
Acts(v) ==
  {Suite(v, s, kd, 1) : s \in {t \in 0..0 : CanSuite(v, t)}, kd \in Kinds} \cup {SuiteFree(v, s) : s \in {t \in 0..0 : CanSuiteFree(v, t)}}
  \cup {Obs(v, o, kd) : o \in {t \in 0..1 : CanObs(v, t)}, kd \in OKinds} \cup {ObsFree(v, o) : o \in {t \in 0..1 : CanObsFree(v, t)}}
  \cup {NewProblem(v, p, 0) : p \in {t \in 0..1 : CanGet(v, t, 0)}}
  \cup {Add(v, x[1], x[2]) : x \in {y \in {0, 1, Cur(0)} \X (0..1) : y[1] \in Slots /\ CanAdd(v, y[1], y[2])}}
  \cup {Rem(v, x[1]) : x \in {y \in (0..1) \X (0..1) : CanRem(v, y[1], y[2])}}
  \cup {Next1(v, 0, o) : o \in {t \in {None, 0, 1} : CanNext(v, 0, t)}}
  \cup {Eval(v, p) : p \in {t \in {0, 1, Cur(0)} : CanEval(v, t)}}
  \cup {FreeProblem(v, p) : p \in {t \in 0..1 : CanFree(v, t)}}
Init == w = Empty /\ k = 0
Next == k < MaxOps /\ k' = k + 1 /\ w' \in Acts(w)
Spec == Init /\ [][Next]_vars
Open == UNION {{w.pr[p].stack[j].id : j \in DOMAIN w.pr[p].stack} : p \in {q \in Handles : w.pr[q].alive}}
Ids == {w.done[j].id : j \in DOMAIN w.done}
\* every observation is open or ended, never both and never twice: nothing leaks, nothing is released twice
Accounted == Open \cup Ids = 1..w.ids /\ Open \cap Ids = {} /\ Cardinality(Ids) = Len(w.done)
\* an observer has at most one observation open
OneEach == \A o \in Slots : Cardinality(Observing(w, o)) <= 1
\* releasing in any order ends every observation
ReleasedMeansDone == AllReleased(w) => Ids = 1..w.ids
\* whatever the state, everything can be released without evaluating
Releasable == (\A p \in Slots : w.pr[p].alive => CanFree(w, p)) /\ (\A s \in 0..1 : w.su[s].alive => CanSuiteFree(w, s)) /\ (\A o \in Slots : w.ob[o].alive => CanObsFree(w, o))
=============================================================================
