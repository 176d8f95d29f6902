---------------------------- MODULE NonAnytimeTrace ---------------------------
EXTENDS NonAnytime, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, s, bad
vars == <<tid, i, s, bad>>
T == Traces[tid].ev
V == Traces[tid].vals
Real == "real" \in DOMAIN Traces[tid]
Chk(e, want, got) == IF want = got THEN FALSE ELSE PrintT(<<"DIFF", e.op, "want", want, "got", got>>)
Next1(e) == CASE e.op = "call" -> Call(s, e.x) [] e.op = "deliver" /\ CanDeliver(s) -> Deliver(s, e.x, V) [] e.op = "reset" -> [s EXCEPT !.ev = 0] [] OTHER -> s
Ret(e) == CASE e.op = "call" -> V[e.x] [] e.op = "deliver" /\ ~CanDeliver(s) -> -9 [] OTHER -> 0
Hit(t) == IF BestV(t, V) <= Traces[tid].target THEN 1 ELSE 0
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = Start /\ bad = FALSE
Next == /\ ~bad /\ i < Len(T) /\ i' = i + 1 /\ UNCHANGED tid
        /\ LET e == T[i + 1] IN
           IF e.op = "new" THEN bad' = Chk(e, <<1, <<e.idx, e.idx>>>>, <<e.nobs, e.k>>) /\ UNCHANGED s
           ELSE IF e.op \in StaticOps THEN UNCHANGED s /\ bad' = (~Static(e) /\ PrintT(<<"DIFF", e>>))
           ELSE /\ s' = Next1(e)
                /\ bad' = IF Real THEN Chk(e, <<Ret(e), Len(s'.rec), s'.ev, BestV(s', V)>>, <<e.r, e.cnt, e.evals, e.best>>)
                          ELSE Chk(e, <<Ret(e), s'.rec, s'.ev, Hit(s'), BestV(s', V), IF e.op = "free" THEN 1 ELSE 0>>, <<e.r, e.rec, e.evals, e.hit, e.best, Min({e.freed[j] : j \in DOMAIN e.freed})>>)
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
