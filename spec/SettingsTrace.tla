----------------------------- MODULE SettingsTrace ----------------------------
EXTENDS Settings, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, o, files, mini, short, bad
vars == <<tid, i, o, files, mini, short, bad>>
T == Traces[tid]
Set(q) == {q[j] : j \in DOMAIN q}
Fun(q) == [k \in {q[j][1] : j \in DOMAIN q} |-> (CHOOSE j \in DOMAIN q : q[j][1] = k)]
Map(q) == [k \in {q[j][1] : j \in DOMAIN q} |-> q[CHOOSE j \in DOMAIN q : q[j][1] = k][2]]
Flat(f) == {<<k, f[k]>> : k \in DOMAIN f}
Chk(e, want, got) == IF want = got THEN FALSE ELSE PrintT(<<"DIFF", e.op, "want", want, "got", got>>)
Ign(e) == IF "std" \in Set(e.ign) THEN Standard ELSE Set(e.ign)
O2(e) == LET d == Map(e.d) IN CASE e.op = "onew" -> d [] e.op = "oupd" -> Update(o, d) [] OTHER -> Graceful(o, d)
Opt(x, w) == IF Tells(x, w) THEN FALSE ELSE PrintT(<<"DIFF", "options", "want", w, "got", x>>)
Bad(e) ==
  CASE e.op = "args" -> LET w == Args(<<>>, e.args, Set(e.known), e.batch) IN
                        IF w = Error THEN Chk(e, 1, e.err) ELSE Chk(e, <<0, Flat(w)>>, <<e.err, Set(e.r)>>)
    [] e.op \in {"onew", "oupd", "ograce"} -> Chk(e, Flat(O2(e)), Set(e.r)) \/ Chk(e, 1, e.same) \/ Opt(e.x, O2(e))
    [] e.op = "eval" -> Chk(e, <<Flat(Written(Map(e.d), Ign(e))), 1>>, <<Set(e.r), e.same>>)
    [] e.op = "write" -> Chk(e, <<e.file \in DOMAIN files, 1>>, <<e.warned = 1, e.same>>)
    [] e.op = "read" -> IF e.file \in DOMAIN files THEN Chk(e, <<1, Flat(files[e.file]), 0>>, <<e.found, Set(e.r), e.warned>>)
                        ELSE Chk(e, <<0, IF e.warn > 0 THEN 1 ELSE 0>>, <<e.found, e.warned>>)
    [] e.op = "time" -> Chk(e, Elapsed(e.q), e.r)
    [] e.op = "mini" -> Chk(e, MiniText(mini, e), e.r)
    [] e.op = "short" -> Chk(e, ShortText(short, e), e.r)
    [] e.op = "ran" -> FALSE
    [] e.op = "search" -> \/ Chk(e, 1, e.inside)
                          \/ IF e.con = 0 THEN Chk(e, e.budget, e.n) ELSE Chk(e, TRUE, e.n <= e.budget)
                          \/ Chk(e, IF e.nobj = 1 THEN Best(SubSeq(e.fs, 1, e.n), IF e.con = 1 THEN e.ok ELSE [j \in 1..e.n |-> 1]) ELSE 0, e.r)
    [] OTHER -> TRUE
Init == tid \in 1..Len(Traces) /\ i = 0 /\ o = <<>> /\ files = <<>> /\ mini = Mini0 /\ short = Short0 /\ bad = FALSE
Next == /\ ~bad /\ i < Len(T.ev) /\ i' = i + 1 /\ UNCHANGED tid
        /\ LET e == T.ev[i + 1] IN
           /\ bad' = Bad(e)
           /\ o' = (IF e.op \in {"onew", "oupd", "ograce"} THEN O2(e) ELSE o)
           /\ files' = (IF e.op = "write" /\ e.file \notin DOMAIN files THEN Put(files, e.file, Written(Map(e.d), Ign(e))) ELSE files)
           /\ mini' = (IF e.op = "mini" THEN Mini(mini, e) ELSE mini)
           /\ short' = (IF e.op = "short" THEN Short(short, e) ELSE IF e.op = "ran" THEN [short EXCEPT !.runs = @ + e.runs] ELSE short)
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
