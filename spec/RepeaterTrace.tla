----------------------------- MODULE RepeaterTrace ----------------------------
EXTENDS Repeater, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, D, S, bad
vars == <<tid, i, D, S, bad>>
T == Traces[tid].ev
C == [ms |-> Traces[tid].ms, mult2 |-> Traces[tid].mult2, off |-> Traces[tid].off, maxs |-> Traces[tid].maxs]
B(x) == IF x THEN 1 ELSE 0
Chk(e, want, got) == IF want = got THEN FALSE ELSE PrintT(<<"DIFF", e.op, "want", want, "got", got>>)
Ins(k) == Sorted(DOMAIN Of(D, k))
L(k, Op(_, _, _)) == [j \in 1..Len(Ins(k)) |-> Op(D, k, Ins(k)[j])]
Flat(x) == <<x[1][1], x[1][2], x[2]>>
Su == {<<<<p[1], p[2]>>, p[3]>> : p \in {Traces[tid].suite[j] : j \in DOMAIN Traces[tid].suite}}
Bad(e) ==
  CASE e.op = "done" -> Chk(e, B(AllDone(D, S, C)), e.r)
    [] e.op = "message" -> Chk(e, Message(D, S, C), e.r)
    [] e.op = "doneP" -> Chk(e, B(InstDone(D, S, <<e.f, e.d>>, e.inst, C)), e.r)
    [] e.op = "track" -> FALSE
    [] e.op = "init" -> Chk(e, Proposal(D, <<e.f, e.d>>, IF e.odds < 0 THEN 14 ELSE e.odds), e.r)
    [] e.op = "remain" -> Chk(e, {Flat(x) : x \in IF e.suite = 1 THEN {y \in Su : ~InstDone(D, S, y[1], y[2], C)} ELSE Remaining(D, S, C)}, {e.r[j] : j \in DOMAIN e.r})
    [] e.op = "query" ->
       LET k == <<e.f, e.d>> IN
       Chk(e, [tr |-> L(k, Trials), su |-> L(k, Succ), evs |-> L(k, Evals), ins |-> Ins(k), bx |-> B(Exhausted(D, k, C)), sc |-> B(Succeeded(D, k, C.ms)),
               mt |-> Missing(D, k, e.inst), nt |-> MapThenSumSet(LAMBDA x : Total(D, x, Trials), DOMAIN D), np |-> Cardinality(DOMAIN D), ni |-> Cardinality(Recorded(D)),
               ntp |-> Total(D, k, Trials), nip |-> Cardinality(DOMAIN Of(D, k)),
               doi |-> IF Trials(D, k, e.inst) = 0 THEN <<>> ELSE [j \in 1..Len(D[k][e.inst]) |-> <<0, D[k][e.inst][j].e, D[k][e.inst][j].s>>],
               all |-> {<<x[1], x[2], L(x, Trials)>> : x \in DOMAIN D}],
              [tr |-> e.tr, su |-> e.su, evs |-> e.evs, ins |-> e.ins, bx |-> e.bx, sc |-> e.sc, mt |-> e.mt, nt |-> e.nt, np |-> e.np, ni |-> e.ni, ntp |-> e.ntp, nip |-> e.nip, doi |-> e.doi,
               all |-> {e.all[j] : j \in DOMAIN e.all}])
    [] OTHER -> TRUE
Init == tid \in 1..Len(Traces) /\ i = 0 /\ D = <<>> /\ S = 0 /\ bad = FALSE
Next == /\ ~bad /\ i < Len(T) /\ i' = i + 1 /\ UNCHANGED tid
        /\ LET e == T[i + 1] IN
           /\ bad' = Bad(e)
           /\ D' = IF e.op = "track" THEN Track(D, <<e.f, e.d>>, e.inst, e.e, e.s) ELSE D
           /\ S' = IF e.op = "done" /\ ~AllDone(D, S, C) THEN S + 1 ELSE S
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
