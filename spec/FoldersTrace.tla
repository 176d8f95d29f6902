----------------------------- MODULE FoldersTrace ----------------------------
EXTENDS Folders, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, pend, given, bad
vars == <<tid, i, pend, given, bad>>
T == Traces[tid].ev
S(seq) == {seq[j] : j \in DOMAIN seq}
\* the data in a folder are those of the observer it was given to; what was there before is untouched
DiskOK(e) == /\ e.old = 1
             /\ LET want == {[f |-> g.f, data |-> g.who] : g \in given} got == S(e.data)
                IN IF want = got THEN TRUE ELSE PrintT(<<"DIFF", "got", got \ want, "want", want \ got>>) /\ FALSE
Step(e) ==
  CASE e.op = "begin" -> bad' = FALSE /\ pend' = [x \in DOMAIN pend \cup {e.p} |-> IF x = e.p THEN [base |-> e.base, before |-> S(e.dirs)] ELSE pend[x]] /\ UNCHANGED given
    [] e.op = "end" -> /\ LET q == pend[e.p] IN
                          bad' = ~(/\ \E k \in 0..40 : Right(q.base, e.f, q.before, S(e.dirs), k)
                                   /\ \A g \in given : g.f # e.f)
                       /\ given' = given \cup {[f |-> e.f, who |-> e.who]} /\ UNCHANGED pend
    [] e.op = "disk" -> bad' = ~DiskOK(e) /\ UNCHANGED <<pend, given>>
    [] OTHER -> bad' = TRUE /\ UNCHANGED <<pend, given>>
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = FALSE /\ pend = <<>> /\ given = {}
Next == ~bad /\ i < Len(T) /\ i' = i + 1 /\ UNCHANGED tid /\ Step(T[i + 1])
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
