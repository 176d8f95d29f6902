---------------------------- MODULE ArchiveTrace ----------------------------
EXTENDS Archive, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, w, bad
vars == <<tid, i, w, bad>>
Ev(t) == Traces[t].ev
Pt(e) == [a |-> e.a, b |-> e.b, id |-> e.id]
Step(e) ==
  CASE e.op = "add"  -> bad' = ~((e.r = 1) <=> Adds(w, Pt(e))) /\ w' = Added(w, Pt(e))
    [] e.op = "num"  -> bad' = ~(e.v = Cardinality(w.pts)) /\ w' = Queried(w)
    [] e.op = "hv"   -> bad' = ~(e.v = HV(w.pts)) /\ w' = Queried(w)
    [] e.op = "next" -> bad' = ~(e.v = NextId(w)) /\ w' = Nexted(w)
    [] OTHER         -> bad' = TRUE /\ w' = w
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = FALSE /\ w = Fresh
Next == ~bad /\ i < Len(Ev(tid)) /\ i' = i + 1 /\ UNCHANGED tid /\ Step(Ev(tid)[i + 1])
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
