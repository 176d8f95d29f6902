----------------------------- MODULE BatchesTrace -----------------------------
EXTENDS Batches, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, s, last, bad
vars == <<tid, i, s, last, bad>>
T == Traces[tid].ev
N == Traces[tid].n
Chk(e, want, got) == IF want = got THEN FALSE ELSE PrintT(<<"DIFF", e.op, "want", want, "got", got>>)
B(x) == IF x THEN 1 ELSE 0
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = Start /\ last = [p |-> None, c |-> 0] /\ bad = FALSE
Next == /\ ~bad /\ i < Len(T) /\ i' = i + 1 /\ UNCHANGED tid
        /\ LET e == T[i + 1] IN
           CASE e.op = "make" -> bad' = Chk(e, B(Legal(N, e.b)), e.ok) /\ UNCHANGED <<s, last>>
             [] e.op = "ask" -> /\ s' = After(s, <<e.f, e.d>>) /\ UNCHANGED last
                                /\ bad' = Chk(e, [b \in 1..N |-> B(InBatch(s', N, b - 1))], e.r)
             [] e.op = "same" -> /\ last' = IF last.p = <<e.f, e.d>> THEN [last EXCEPT !.c = @ + 1] ELSE [p |-> <<e.f, e.d>>, c |-> 1]
                                 /\ bad' = Chk(e, <<last'.c - 1, last'.c>>, <<e.r, e.c>>) /\ UNCHANGED s
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
