---------------------------- MODULE LifecycleTrace ---------------------------
EXTENDS Lifecycle, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, w, bad
vars == <<tid, i, w, bad>>
T == Traces[tid].ev
\* what the files of the ended observations show: number of evaluations per observation
Disk(e) == /\ AllReleased(w)
           /\ LET want == {[id |-> w.done[j].id, n |-> w.done[j].n] : j \in {q \in DOMAIN w.done : w.done[q].kind \in {"bbob", "bbob-biobj"} /\ w.done[q].n > 0}}
                  got == {e.entries[j] : j \in DOMAIN e.entries}
              IN IF want = got THEN TRUE ELSE PrintT(<<"DIFF", "got", got \ want, "want", want \ got>>) /\ FALSE
\* what the library did with a call that the interface permits
Step(e) ==
  LET q == w
      go(can, v) == IF can /\ e.ok = 1 THEN w' = v /\ bad' = FALSE ELSE w' = w /\ bad' = TRUE
  IN CASE e.op = "suite" -> go(CanSuite(q, e.s), Suite(q, e.s, e.kind, e.n))
       [] e.op = "sfree" -> go(CanSuiteFree(q, e.s), SuiteFree(q, e.s))
       [] e.op = "obs" -> go(CanObs(q, e.o), Obs(q, e.o, e.kind))
       [] e.op = "ofree" -> go(CanObsFree(q, e.o), ObsFree(q, e.o))
       [] e.op = "get" -> go(CanGet(q, e.p, e.s), NewProblem(q, e.p, e.s))
       [] e.op = "next" -> go(CanNext(q, e.s, e.o) /\ ((e.end = 1) <=> (q.su[e.s].left = 0)), Next1(q, e.s, e.o))
       [] e.op = "add" -> go(CanAdd(q, e.p, e.o), Add(q, e.p, e.o))
       [] e.op = "rem" -> go(CanRem(q, e.p, e.o), Rem(q, e.p))
       [] e.op = "eval" -> go(CanEval(q, e.p), Eval(q, e.p))
       [] e.op \in {"rec", "info"} -> go(CanUse(q, e.p), q)
       [] e.op = "pfree" -> go(CanFree(q, e.p), FreeProblem(q, e.p))
       [] e.op = "disk" -> w' = w /\ bad' = ~(e.ok = 1 /\ Disk(e))
       [] OTHER -> PrintT(<<"DIFF", e>>) /\ w' = w /\ bad' = TRUE
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = FALSE /\ w = Empty
Next == ~bad /\ i < Len(T) /\ i' = i + 1 /\ UNCHANGED tid /\ Step(T[i + 1])
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
