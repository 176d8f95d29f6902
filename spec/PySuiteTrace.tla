----------------------------- MODULE PySuiteTrace -----------------------------
EXTENDS PySuite, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
Ref == JsonDeserialize(IOEnv.REF)
VARIABLES tid, i, s, bad
vars == <<tid, i, s, bad>>
T == Traces[tid].ev
L == Ref[Traces[tid].cfg].list
N == Len(L)
Chk(e, want, got) == IF want = got THEN FALSE ELSE PrintT(<<"DIFF", e.op, "want", want, "got", got>>)
First(S) == CHOOSE k \in S : \A j \in S : k <= j
\* what is described of the problem at position k
D(k) == [id |-> L[k].id, name |-> L[k].name, f |-> L[k].f, d |-> L[k].d, i |-> L[k].i, index |-> L[k].index, nv |-> L[k].nv, no |-> L[k].no, nc |-> L[k].nc, ni |-> L[k].ni, lo |-> L[k].lo, hi |-> L[k].hi, init |-> L[k].init]
NoD == [id |-> "none"]
ErrD == [id |-> "error"]
G(e) == e.r
FDI(e) == {k \in 1..N : L[k].f = e.f /\ L[k].d = e.d /\ L[k].i = e.i}
ById(e) == {k \in 1..N : L[k].id = e.id}
Dead(h) == s.H[h].freed
BestOf(h) == LET q == s.H[h] IN IF q.pts = {} THEN "max" ELSE L[q.k].y[CHOOSE x \in q.pts : \A z \in q.pts : L[q.k].rank[x] <= L[q.k].rank[z]]
Has(k, c) == CASE c.kind = "f" -> L[k].f = c.v [] c.kind = "i" -> L[k].i = c.v [] c.kind = "d" -> L[k].d = c.v
Match(e) == SelectSeq([k \in 1..N |-> IF \A j \in DOMAIN e.c : Has(k, e.c[j]) THEN L[k].id ELSE ""], LAMBDA z : z # "")
\* state after, and the description of a problem returned
Step(e) ==
  CASE e.op \in {"next", "iter", "inext"} ->
         LET s0 == IF e.op = "iter" THEN Reset(s) ELSE s
             s1 == IF s.freed THEN s0 ELSE IF e.op = "inext" /\ s.it # "on" THEN s ELSE NextP(s0, N)
         IN /\ s' = [s1 EXCEPT !.it = IF e.op = "next" THEN @ ELSE IF s.freed \/ s1.cur > N \/ (e.op = "inext" /\ s.it # "on") THEN "done" ELSE "on"]
            /\ bad' = Chk(e, IF e.op = "inext" /\ s.it # "on" THEN NoD ELSE IF s.freed THEN ErrD ELSE IF s1.cur > N THEN NoD ELSE D(s1.cur), G(e))
    [] e.op = "reset" -> s' = Reset(s) /\ bad' = FALSE
    [] e.op = "get" -> /\ s' = (IF ~s.freed /\ Pos(e.n, N) > 0 THEN Give(s, Pos(e.n, N)) ELSE s)
                       /\ bad' = Chk(e, IF ~s.freed /\ Pos(e.n, N) > 0 THEN D(Pos(e.n, N)) ELSE ErrD, G(e))
    [] e.op = "getid" -> IF s.freed \/ ById(e) = {} THEN s' = s /\ bad' = Chk(e, ErrD, G(e))
                         ELSE s' = Give(s, First(ById(e))) /\ bad' = Chk(e, D(First(ById(e))), G(e))
    [] e.op = "fdi" -> IF s.freed \/ FDI(e) = {} THEN s' = s /\ bad' = Chk(e, ErrD, G(e))
                       ELSE s' = Give(s, First(FDI(e))) /\ bad' = Chk(e, D(First(FDI(e))), G(e))
    [] e.op = "call" -> IF Dead(e.h) THEN s' = s /\ bad' = Chk(e, "error", e.v)
                        ELSE s' = Eval(s, e.h, e.x) /\ bad' = Chk(e, L[s.H[e.h].k].y[e.x], e.v)
    [] e.op = "badx" -> s' = s /\ bad' = Chk(e, "error", e.v)
    [] e.op = "cons" -> IF L[s.H[e.h].k].nc = 0 THEN s' = s /\ bad' = Chk(e, "none", e.v)
                        ELSE IF Dead(e.h) THEN s' = s /\ bad' = Chk(e, "error", e.v)
                        ELSE s' = Cons(s, e.h) /\ bad' = Chk(e, L[s.H[e.h].k].c[e.x], e.v)
    [] e.op = "evals" -> /\ s' = s
                         /\ bad' = IF Dead(e.h) THEN Chk(e, <<-9, -9, "error", "error">>, <<e.n, e.c, e.best, e.init>>)
                                   ELSE Chk(e, <<s.H[e.h].n, s.H[e.h].c, IF L[s.H[e.h].k].rank = <<>> THEN "-" ELSE BestOf(e.h), L[s.H[e.h].k].init>>,
                                               <<e.n, e.c, IF L[s.H[e.h].k].rank = <<>> THEN "-" ELSE e.best, e.init>>)
    \* number: that of the proposal asked for, -1 when it is left to the problem
    [] e.op = "propose" -> IF Dead(e.h) THEN s' = s /\ bad' = FALSE
                           ELSE /\ s' = (IF e.number < 0 THEN Propose(s, e.h) ELSE s)
                                /\ bad' = Chk(e, <<IF Middle(s, e.h, e.number) THEN 1 ELSE 0, 1, 1>>, <<e.same, e.inside, e.whole>>)
                                          \/ (~Middle(s, e.h, e.number) /\ Chk(e, 1, e.new))
    \* many random proposals: every admissible value of the integer variables with few values is among them
    [] e.op = "many" -> s' = s /\ bad' = IF Dead(e.h) THEN FALSE ELSE Chk(e, <<1, [j \in DOMAIN e.lo |-> e.lo[j]..e.hi[j]]>>, <<e.inside, [j \in DOMAIN e.lo |-> {e.seen[j][l] : l \in DOMAIN e.seen[j]}]>>)
    [] e.op = "pfree" -> s' = FreeH(s, e.h) /\ bad' = FALSE
    [] e.op = "with" -> /\ s' = (IF s.freed THEN s ELSE FreeH(Eval(Give(s, Pos(e.n, N)), Len(s.H) + 1, e.x), Len(s.H) + 1))
                        /\ bad' = Chk(e, IF s.freed THEN <<"error", "error">> ELSE <<L[Pos(e.n, N)].y[e.x], "error">>, <<e.v, e.v2>>)
    [] e.op = "desc" -> s' = s /\ bad' = Chk(e, IF Dead(e.h) THEN NoD ELSE IF s.H[e.h].obs > 0 /\ "name" \in DOMAIN e.r THEN [D(s.H[e.h].k) EXCEPT !.name = e.r.name] ELSE D(s.H[e.h].k), G(e))
    [] e.op = "cur" -> s' = s /\ bad' = Chk(e, <<s.curh, IF s.cur = 0 THEN -1 ELSE s.cur - 1>>, <<e.h, IF s.cur > N THEN s.cur - 1 ELSE e.n>>)
    [] e.op = "ids" -> /\ s' = s
                       /\ bad' = Chk(e, <<Match(e), N, [k \in 1..N |-> L[k].name], {L[k].d : k \in 1..N}, [k \in 1..N |-> L[k].index]>>, <<e.ids, e.len, e.names, {e.dims[j] : j \in DOMAIN e.dims}, e.indices>>)
    [] e.op = "observe" -> IF Dead(e.h) THEN s' = s /\ bad' = Chk(e, -9, e.n)
                           ELSE s' = [s EXCEPT !.H[e.h].obs = @ + 1] /\ bad' = Chk(e, s.H[e.h].obs + 1, e.n)
    [] e.op = "sfree" -> s' = [s EXCEPT !.freed = TRUE] /\ bad' = FALSE
    [] e.op = "bare" -> LET k == e.k IN s' = s /\ bad' = Chk(e, <<L[k].y[e.x], [j \in 1..4 |-> L[k].y[j]], L[k].fopt, "error">>, <<e.v, e.all, e.fopt, e.short>>)
    [] e.op = "barebad" -> s' = s /\ bad' = Chk(e, "error", e.v)
    [] OTHER -> s' = s /\ bad' = PrintT(<<"DIFF", e>>)
Init == tid \in 1..Len(Traces) /\ i = 0 /\ s = Start /\ bad = FALSE
Next == ~bad /\ i < Len(T) /\ i' = i + 1 /\ UNCHANGED tid /\ Step(T[i + 1])
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
