--------------------------- MODULE LoggerBbobTrace ---------------------------
(* Steps the bbob logger specification along recorded executions; the events   *)
(* "disk" hold the files as they were parsed back.                             *)
EXTENDS LoggerBbob, Json, IOUtils
CONSTANT What      \* the kinds of files that are compared
VARIABLES tid, i, w, bad
vars == <<tid, i, w, bad>>
Traces == JsonDeserialize(IOEnv.TRACES)
Ev(t) == Traces[t].ev
ToSet(s) == {s[j] : j \in DOMAIN s}
AsFun(seq) == [kk \in {seq[j].k : j \in DOMAIN seq} |-> (CHOOSE j \in DOMAIN seq : seq[j].k = kk)]
Key(a) == <<a.o, a.name>>

\* prints the first difference
Eq(what, got, want) ==
  \/ got = want
  \/ LET m == IF Len(got) < Len(want) THEN Len(got) ELSE Len(want)
         d == {q \in 1..m : got[q] # want[q]}
         q == IF d = {} THEN m + 1 ELSE CHOOSE q \in d : \A z \in d : q <= z
     IN PrintT(<<"DIFF", what, q, "got", IF q <= Len(got) THEN got[q] ELSE "nothing", "want", IF q <= Len(want) THEN want[q] ELSE "nothing">>) /\ FALSE
\* complete files: every problem was released
DataOK(e) ==
  /\ {Key(e.files[j]) : j \in DOMAIN e.files} = DOMAIN w.fs
  /\ \A j \in DOMAIN e.files : \A x \in {"dat", "tdat", "rdat", "mdat"} \cap What : Eq(<<Key(e.files[j]), x>>, e.files[j][x], w.fs[Key(e.files[j])][x])
InfoOK(e) ==
  "info" \in What =>
  /\ {<<e.info[j].o, e.info[j].f>> : j \in DOMAIN e.info} = DOMAIN w.info
  /\ \A j \in DOMAIN e.info :
       LET want == w.info[<<e.info[j].o, e.info[j].f>>]
           got == e.info[j].lines
       IN /\ Len(got) = Len(want)
          /\ \A l \in DOMAIN want : Eq(<<e.info[j].o, l>>, <<got[l]>>, <<want[l]>>)
\* after a crash: what was triggered is there; headers of files without a row and info entries of open problems may be missing
OpenFiles == {<<w.lg[p].o, w.lg[p].file>> : p \in {p \in DOMAIN w.lg : w.lg[p].on /\ w.lg[p].init}}
Headless(s) == IF s # <<>> /\ s[Len(s)][1] = "%" THEN SubSeq(s, 1, Len(s) - 1) ELSE s
CrashData(e) ==
  /\ {Key(e.files[j]) : j \in DOMAIN e.files} = DOMAIN w.fs
  /\ \A j \in DOMAIN e.files : \A x \in {"dat", "tdat", "rdat", "mdat"} \cap What :
       LET want == w.fs[Key(e.files[j])][x]
           got == e.files[j][x]
       IN \/ got = want
          \/ Key(e.files[j]) \in OpenFiles /\ got = Headless(want)
Pending(o, f) == \E p \in DOMAIN w.lg : w.lg[p].on /\ w.lg[p].init /\ w.lg[p].o = o /\ w.lg[p].key.f = f
CrashInfo(e) ==
  \A ik \in DOMAIN w.info :
    LET want == w.info[ik]
        js == {j \in DOMAIN e.info : e.info[j].o = ik[1] /\ e.info[j].f = ik[2]}
        got == IF js = {} THEN <<>> ELSE e.info[CHOOSE j \in js : TRUE].lines
        ln == Len(want)
        drop == [want EXCEPT ![ln].ent = SubSeq(@, 1, Len(@) - 1)]
        without == IF drop[ln].ent = <<>> THEN SubSeq(drop, 1, ln - 1) ELSE drop
    IN IF Pending(ik[1], ik[2]) THEN got = want \/ got = without \/ got = drop ELSE got = want

\* died inside an operation: what was there before it is there, nothing beyond what it writes is
IsPrefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
After(e) == CASE e.op = "eval" -> Evaluated(w, e.p, e) [] e.op = "rec" -> Recommended(w, e.p, e) [] e.op = "release" -> Released(w, e.p)
              [] OTHER -> w
WithinData(e) ==
  LET z == After(e.e)
      Before(k, x) == IF k \in DOMAIN w.fs THEN IF k \in OpenFiles THEN Headless(w.fs[k][x]) ELSE w.fs[k][x] ELSE <<>>
  IN /\ DOMAIN w.fs \subseteq {Key(e.files[j]) : j \in DOMAIN e.files}
     /\ {Key(e.files[j]) : j \in DOMAIN e.files} \subseteq DOMAIN z.fs
     /\ \A j \in DOMAIN e.files : \A x \in {"dat", "tdat", "rdat", "mdat"} \cap What :
          LET got == IF e.files[j][x] = << <<"missing">> >> THEN <<>> ELSE e.files[j][x]
              k == Key(e.files[j])
          IN IsPrefix(Before(k, x), got) /\ IsPrefix(got, z.fs[k][x])
\* entries of problems released before are in the info files
WithinInfo(e) ==
  \A ik \in DOMAIN w.info :
    LET want == w.info[ik]
        js == {j \in DOMAIN e.info : e.info[j].o = ik[1] /\ e.info[j].f = ik[2]}
        got == IF js = {} THEN <<>> ELSE e.info[CHOOSE j \in js : TRUE].lines
    IN \A l \in DOMAIN want : \A q \in DOMAIN want[l].ent : want[l].ent[q].n >= 0 =>
         l \in DOMAIN got /\ got[l].data = want[l].data /\ q \in DOMAIN got[l].ent /\ got[l].ent[q] = want[l].ent[q]

Step(e) ==
  CASE e.op = "obs"     -> /\ bad' = FALSE /\ w' = [w EXCEPT !.obs = With(@, e.o, FreshObs(e.alg, e.base))]
    [] e.op = "add"     -> /\ bad' = FALSE /\ w' = [w EXCEPT !.lg = With(@, e.p, FreshLogger(e.o, e.key, e.g0, e.logt = 1))]
    [] e.op = "eval"    -> /\ bad' = FALSE /\ w' = Evaluated(w, e.p, e)
    [] e.op = "cons"    -> /\ bad' = FALSE /\ w' = ConstraintsEvaluated(w, e.p)
    [] e.op = "rec"     -> /\ bad' = FALSE /\ w' = Recommended(w, e.p, e)
    [] e.op = "restart" -> /\ bad' = FALSE /\ w' = Restarted(w, e.p)
    [] e.op = "release" -> /\ bad' = FALSE /\ w' = Released(w, e.p)
    [] e.op = "disk"    -> /\ bad' = ~(DataOK(e) /\ InfoOK(e)) /\ w' = w
    [] e.op = "crash"   -> /\ bad' = ~(CrashData(e) /\ CrashInfo(e)) /\ w' = w
    [] e.op = "within"  -> /\ bad' = ~(WithinData(e) /\ WithinInfo(e)) /\ w' = w
    [] OTHER            -> bad' = TRUE /\ w' = w
Init == /\ tid \in 1..Len(Traces) /\ i = 0 /\ bad = FALSE
        /\ w = [obs |-> <<>>, lg |-> <<>>, fs |-> <<>>, info |-> <<>>]
Next == ~bad /\ i < Len(Ev(tid)) /\ i' = i + 1 /\ UNCHANGED tid /\ Step(Ev(tid)[i + 1])
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
