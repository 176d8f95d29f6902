-------------------------- MODULE LoggerBiobjTrace --------------------------
(* Traces[t] = [lat, ev]. lat     : coordinates are on the grid and the        *)
(* specification computes the indicator; otherwise they are ranks and an       *)
(* evaluation carries the token (e.w) of the archive e.arch.                   *)
EXTENDS LoggerBiobj, Json, IOUtils
CONSTANT What
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, w, bad
vars == <<tid, i, w, bad>>
Ev(t) == Traces[t].ev
\* what the tokens of an observation stand for
Tab(p) == LET r == w.lg[p].key.tab IN [t \in {r[j].tok : j \in DOMAIN r} |-> r[CHOOSE j \in DOMAIN r : r[j].tok = t]]
Show(key, kind, s, t) ==
  IF s = t THEN TRUE
  ELSE LET m == CHOOSE j \in 1..(Len(s) + 1) : (j > Len(s) \/ j > Len(t) \/ s[j] # t[j]) /\ \A q \in 1..(j - 1) : s[q] = t[q]
       IN PrintT(<<"DIFF", key, kind, m, "got", IF m <= Len(s) THEN s[m] ELSE "none", "want", IF m <= Len(t) THEN t[m] ELSE "none">>) /\ FALSE
Key(r) == <<r.o, r.kind, r.name>>
Kinds == {"adat", "dat", "tdat", "rdat", "mdat"} \cap What
FilesOK(e) ==
  /\ {Key(e.files[j]) : j \in {q \in DOMAIN e.files : e.files[q].kind \in What}} = {k \in DOMAIN w.fs : k[2] \in What}
  /\ \A j \in DOMAIN e.files : e.files[j].kind \in What => Show(Key(e.files[j]), "rows", e.files[j].rows, w.fs[Key(e.files[j])])
InfoOK(e) == "info" \in What =>
  /\ {<<e.info[j].o, e.info[j].type>> : j \in DOMAIN e.info} = DOMAIN w.info
  /\ \A j \in DOMAIN e.info : Show(<<e.info[j].o, e.info[j].type>>, "info", e.info[j].lines, w.info[<<e.info[j].o, e.info[j].type>>])
(* after a sudden death: everything an operation that had returned wrote is there (headers of parts without a row may *)
(* be missing), and nothing that did not happen; the operation under way (u: what it would have led to) may be there  *)
(* in part                                                                                                            *)
RECURSIVE Trim(_)
Trim(s) == IF s = <<>> THEN s ELSE IF s[Len(s)][1] = "H" THEN Trim(SubSeq(s, 1, Len(s) - 1)) ELSE s
Begins(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s
Of(v, k) == IF k \in DOMAIN v.fs THEN v.fs[k] ELSE <<>>
Survived(e, u) ==
  /\ {k \in DOMAIN w.fs : k[2] \in What} \subseteq {Key(e.files[j]) : j \in {q \in DOMAIN e.files : e.files[q].kind \in What}}
  /\ \A j \in DOMAIN e.files : e.files[j].kind \in What =>
       LET k == Key(e.files[j]) g == e.files[j].rows
       IN IF k \in DOMAIN u.fs /\ Begins(Trim(Of(w, k)), g) /\ Begins(g, u.fs[k]) THEN TRUE
          ELSE PrintT(<<"DIFF", k, "after the crash", "got", g, "want", Of(w, k)>>) /\ FALSE
Pos(e) == w.lg[e.p]
Solution(e) ==
  LET A == NewArch(w, e.p, e)
      up == Enters(Pos(e).arch, Point(e))
      tok == IF Traces[tid].lat THEN TokenOf(A) ELSE e.w
      ok == /\ (e.op = "eval" => e.n = Pos(e).n + 1) /\ e.n > Pos(e).n
            /\ (e.op = "feed" /\ "dat" \in What => ((e.r = 1) <=> up))
            /\ (~Traces[tid].lat => {p.ev : p \in A} = {e.arch[j] : j \in DOMAIN e.arch})
            /\ tok \in DOMAIN Tab(e.p)
  IN IF ok THEN bad' = FALSE /\ w' = Evaluated(w, e.p, e, tok, Tab(e.p)) ELSE bad' = TRUE /\ w' = w
(* rows <<evaluation, value>> of a run and of the run its archive was fed into: the same up to the last solution fed, *)
(* except for a row that only closes the second one                                                                  *)
Refed(e) == LET first == SelectSeq(e.first, LAMBDA r : r[1] <= e.last)
            IN e.second = first \/ (Len(e.second) = Len(first) + 1 /\ SubSeq(e.second, 1, Len(first)) = first /\ e.second[Len(e.second)][1] = e.last)
Under(e) ==
  CASE e.op = "add" -> Observed(w, e.p, e.o, e.key)
    [] e.op \in {"eval", "feed"} -> LET A == NewArch(w, e.p, e) IN Evaluated(w, e.p, e, IF Traces[tid].lat THEN TokenOf(A) ELSE e.w, Tab(e.p))
    [] e.op = "rec" -> Recommended(w, e.p, e)
    [] e.op = "release" -> Released(w, e.p, Tab(e.p))
    [] OTHER -> w
Step(e) ==
  CASE e.op = "obs" -> bad' = FALSE /\ w' = [w EXCEPT !.obs = With(@, e.o, FreshObs(e.alg, e.mode, e.ind = 1, e.base))]
    [] e.op = "add" -> bad' = FALSE /\ w' = Observed(w, e.p, e.o, e.key)
    [] e.op \in {"eval", "feed"} -> Solution(e)
    [] e.op = "rec" -> bad' = FALSE /\ w' = Recommended(w, e.p, e)
    [] e.op = "restart" -> bad' = FALSE /\ w' = Restarted(w, e.p)
    [] e.op = "release" -> bad' = FALSE /\ w' = Released(w, e.p, Tab(e.p))
    [] e.op = "disk" -> bad' = ~(FilesOK(e) /\ InfoOK(e)) /\ w' = w
    [] e.op = "crash" -> bad' = ~Survived(e, w) /\ w' = w
    [] e.op = "within" -> bad' = ~Survived(e, Under(e.e)) /\ w' = w
    [] e.op = "refed" -> bad' = ~Refed(e) /\ w' = w
    [] OTHER -> bad' = TRUE /\ w' = w
Init == tid \in 1..Len(Traces) /\ i = 0 /\ bad = FALSE /\ w = [obs |-> <<>>, lg |-> <<>>, fs |-> <<>>, info |-> <<>>]
Next == ~bad /\ i < Len(Ev(tid)) /\ i' = i + 1 /\ UNCHANGED tid /\ Step(Ev(tid)[i + 1])
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
