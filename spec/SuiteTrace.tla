------------------------------ MODULE SuiteTrace ------------------------------
(* Recorded executions of the suite functions, stepped through the specification *)
EXTENDS Suite, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, st
vars == <<tid, i, st>>
Closed == [ok |-> FALSE, funcs |-> <<>>, dims |-> <<>>, insts |-> <<>>, cur |-> -1, ended |-> FALSE]
NSlots == 3
Tr == Traces[tid].ev

\* what the event says it saw: a problem <<f, d, inst>> at index idx, or none
SawNothing(e) == e.null = 1
\* (identifiers of the toy suite do not show the instance: i = -9)
Saw(e, s, n) == /\ e.null = 0 /\ e.idx = n
                /\ e.f = At(s, n)[1] /\ e.d = At(s, n)[2] /\ (e.i = -9 \/ e.i = At(s, n)[3])

Ok(e) ==
  LET s == st[e.s] IN
  CASE e.op = "suite" -> LET w == SuiteOf(e.name, e.inst, e.opts)
                         IN /\ e.ok = (IF w.ok THEN 1 ELSE 0)
                            /\ w.ok => e.np = Count(w)
    [] e.op = "next" -> IF NextIndex(s) = -1 THEN SawNothing(e) ELSE Saw(e, s, NextIndex(s))
    [] e.op = "get" -> IF Selected(s, e.n) THEN Saw(e, s, e.n) ELSE SawNothing(e)
    [] e.op = "getfdi" -> LET n == ByFDI(s, e.af, e.ad, e.ai)
                          IN IF n = -1 THEN SawNothing(e) ELSE Saw(e, s, n)
    [] e.op = "enc" -> e.v = Encode(s, e.af, e.ad, e.ai)
    [] e.op = "dec" -> IF e.n >= Count(s) THEN e.f = 0 /\ e.d = 0 /\ e.i = 0
                       ELSE e.f = DecF(s, e.n) /\ e.d = DecD(s, e.n) /\ e.i = DecI(s, e.n)
    [] e.op = "fof" -> e.v = s.funcs[e.n + 1]
    [] e.op = "dof" -> e.v = s.dims[e.n + 1]
    [] e.op = "iof" -> e.v = s.insts[e.n + 1]
    [] e.op = "sfree" -> TRUE
    [] OTHER -> FALSE            \* the process ended, hung, or produced something unknown

TraceInit == tid \in 1..Len(Traces) /\ i = 1 /\ st = [k \in 0..NSlots |-> Closed]
Conforms == i <= Len(Tr) => Ok(Tr[i])
TraceNext ==
  /\ i <= Len(Tr)
  /\ LET e == Tr[i] IN
     st' = CASE e.op = "suite" -> [st EXCEPT ![e.s] = SuiteOf(e.name, e.inst, e.opts)]
             [] e.op = "next" -> [st EXCEPT ![e.s] = AfterNext(@)]
             [] e.op = "sfree" -> [st EXCEPT ![e.s] = Closed]
             [] OTHER -> st
  /\ i' = i + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
