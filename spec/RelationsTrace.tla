---------------------------- MODULE RelationsTrace ----------------------------
(* Recorded problems and values.  Values are identifiers: equal (up to         *)
(* rounding) values have the same one.                                         *)
EXTENDS Relations, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, st
vars == <<tid, i, st>>
T == Traces[tid]
Tr == T.ev
Opt == [fopt |-> -1]
Ok(e) ==
  CASE e.op = "open" -> e.nobj = NObj(e.suite) /\ e.ncons = NCons(e.suite, e.f, e.d) /\ e.nint = NInts(e.suite, e.d) /\ e.dim = e.d
    \* the two problems a bi-objective problem is made of
    [] e.op = "pair" -> /\ e.f \in 1..NumFunctions(e.suite) /\ <<e.o[1].f, e.o[2].f>> = Pair(e.f)
                        /\ InstOk(e.i, e.o[1].i, e.o[2].i) /\ e.o[1].d = e.d /\ e.o[2].d = e.d
    [] e.op = "vals" -> e.y = e.w
    \* the upper end of the region of interest: each objective at the optimum of the other
    [] e.op = "nadir" -> e.y = e.w
    \* the optimal value belongs to the function and the instance, whatever the dimension and the suite
    [] e.op = "fopt" -> st = -1 \/ st = e.v
    \* the boxed suite: the function with its optimum moved, infinite outside of the box
    [] e.op = "boxed" -> IF e.inside = 1 THEN e.y = e.w ELSE e.y = T.inf
    [] e.op = "ref" -> e.y = e.w
    [] OTHER -> FALSE
Conforms == i <= Len(Tr) => (Ok(Tr[i]) \/ ~PrintT(<<"DIFF", T.key, Tr[i]>>))
TraceInit == tid \in 1..Len(Traces) /\ i = 1 /\ st = -1
TraceNext == i <= Len(Tr) /\ st' = (IF Tr[i].op = "fopt" THEN Tr[i].v ELSE st) /\ i' = i + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
