----------------------------- MODULE OptimumTrace -----------------------------
(* Recorded evaluations of the real problems against Optimum.                  *)
EXTENDS Optimum, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, p
vars == <<tid, i, p>>
T == Traces[tid]
Tr == T.ev
None == [fopt |-> 0, tgt |-> 0, best |-> 0]
After1(e) == IF e.op = "open" THEN Fresh(e, T.worst) ELSE IF e.op = "eval" THEN After(p, e) ELSE p
Ok(e) == \/ e.op = "open" /\ Announced(e)
         \/ e.op = "eval" /\ Allowed(p, e) /\ e.hit = Hit(After(p, e))
Conforms == i <= Len(Tr) => (Ok(Tr[i]) \/ ~PrintT(<<"DIFF", T.key, Tr[i], p>>))
TraceInit == tid \in 1..Len(Traces) /\ i = 1 /\ p = None
TraceNext == i <= Len(Tr) /\ p' = After1(Tr[i]) /\ i' = i + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
