---------------------------- MODULE PlainLogTrace -----------------------------
(* Recorded runs: what was done, and the files found at the end (disk) or      *)
(* after a sudden death (crash).                                               *)
EXTENDS PlainLog, Json, IOUtils, TLC
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i
vars == <<obs, prob, files, tid, i>>
T == Traces[tid]
Tr == T.ev
Path(f) == <<f.o, f.name>>
Found(e) == {Path(e.files[q]) : q \in DOMAIN e.files}
Content(e, f) == LET q == CHOOSE q \in DOMAIN e.files : Path(e.files[q]) = f IN e.files[q].lines
\* a row with a time column has one more text, a number that is not negative
Fits(x, w) == /\ x.h = w.h /\ x.n = w.n /\ x.nc = w.nc /\ x.t = w.t
              /\ IF w.tm = 1 THEN x.tm = 1 /\ Len(x.c) = Len(w.c) + 1 /\ SubSeq(x.c, 1, Len(w.c)) = w.c ELSE x.c = w.c
Same(xs, ws) == Len(xs) = Len(ws) /\ \A j \in DOMAIN xs : Fits(xs[j], ws[j])
Ok(e) ==
  CASE e.op = "disk" -> /\ Found(e) = DOMAIN files
                        /\ \A f \in Found(e) : Same(Content(e, f), files[f])
    [] e.op = "crash" -> /\ Found(e) \subseteq DOMAIN files
                         /\ \A f \in DOMAIN files : LastRow(files[f]) > 0 => f \in Found(e)
                         /\ \A f \in Found(e) : \E ws \in MayBe(files[f]) : Same(Content(e, f), ws)
    [] e.op = "died" -> FALSE
    [] OTHER -> TRUE
\* the first line that differs, to say what is wrong
Why(e) == IF e.op \notin {"disk", "crash"} THEN e
          ELSE IF Found(e) # DOMAIN files THEN <<"files", Found(e), DOMAIN files>>
          ELSE LET F == {f \in Found(e) : ~Same(Content(e, f), files[f])} IN
               IF F = {} THEN <<>> ELSE LET f == CHOOSE f \in F : TRUE xs == Content(e, f) ws == files[f]
                   J == {j \in 1..(Len(xs) + Len(ws)) : j > Len(xs) \/ j > Len(ws) \/ ~Fits(xs[j], ws[j])}
                   m == CHOOSE m \in J : \A j \in J : m <= j
               IN <<f, m, IF m <= Len(xs) THEN xs[m] ELSE "nothing", IF m <= Len(ws) THEN ws[m] ELSE "nothing">>
Conforms == i <= Len(Tr) => (Ok(Tr[i]) \/ ~PrintT(<<"DIFF", Tr[i].op, Why(Tr[i])>>))
Step(e) == CASE e.op = "obs" -> Observer(e.o, e.opt)
             [] e.op = "open" -> Open(e.p, e.key)
             [] e.op = "add" -> Add(e.p, e.o)
             [] e.op = "eval" -> Evaluate(e.p, e)
             [] e.op = "cons" -> Constraints(e.p)
             [] e.op = "rem" -> Remove(e.p)
             [] e.op = "free" -> Free(e.p)
             [] OTHER -> UNCHANGED sys
TraceInit == tid \in 1..Len(Traces) /\ i = 1 /\ SysInit
TraceNext == i <= Len(Tr) /\ Step(Tr[i]) /\ i' = i + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
