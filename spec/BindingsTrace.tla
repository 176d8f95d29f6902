---------------------------- MODULE BindingsTrace -----------------------------
EXTENDS Bindings, Json, IOUtils
CONSTANT Own
Traces == JsonDeserialize(IOEnv.TRACES)
Ref == JsonDeserialize(IOEnv.REF)
Cfgs == Ref.cfgs
\* in MATLAB suites and observers are bare handles, and setting the level returns the one before
Mat == Ref.lang = "matlab"
VARIABLES tid, i, s, bad
vars == <<tid, i, s, bad>>
T == Traces[tid].ev
Sees(e, want) == IF want = e.r THEN FALSE ELSE PrintT(<<"DIFF", e, "want", want>>)
N(sid) == Len(Cfgs[s.S[sid].cfg].list)
L(h) == Cfgs[s.H[h].cfg].list[s.H[h].k]
Num(b) == IF b THEN "ok" ELSE "null"
BestText(h) == IF L(h).one = 0 THEN "-" ELSE IF s.H[h].best = None THEN "[max]" ELSE L(h).byrank[s.H[h].best]
\* an observed problem carries the name of its observer
Name(h) == IF s.H[h].obs = {} THEN L(h).name ELSE s.O[CHOOSE o \in s.H[h].obs : TRUE] \o "(" \o L(h).name \o ")"
Hit(h) == IF L(h).one = 0 THEN 0 ELSE s.H[h].hit
Step(e) ==
  CASE e.op = "suite" -> s' = OpenSuite(s, e.s, e.cfg) /\ bad' = Sees(e, IF Mat THEN "ok" ELSE Cfgs[e.cfg].name \o " " \o ToString(Cfgs[e.cfg].np))
    [] e.op = "clone" -> s' = OpenSuite(s, e.t, s.S[e.s].cfg) /\ bad' = Sees(e, ToString(Cfgs[s.S[e.s].cfg].np))
    [] e.op = "count" -> UNCHANGED s /\ bad' = Sees(e, ToString(Cfgs[s.S[e.s].cfg].np))
    [] e.op = "obs" -> s' = OpenObs(s, e.o, e.kind) /\ bad' = Sees(e, IF Mat THEN "ok" ELSE e.name)
    [] e.op = "folder" -> UNCHANGED s /\ bad' = Sees(e, e.folder)
    [] e.op = "next" -> s' = NextP(s, e.s, e.h, e.o, Own, N(e.s)) /\ bad' = Sees(e, Num(NextPos(s, e.s, N(e.s)) # 0))
    [] e.op \in {"get", "fdi"} -> s' = Get(s, e.s, e.h, e.k) /\ bad' = Sees(e, Num(e.k # 0))
    [] e.op = "meta" -> UNCHANGED s /\ bad' = Sees(e, L(e.h).pre \o Name(e.h) \o L(e.h).post)
    [] e.op = "eval" -> s' = Eval(s, e.h, L(e.h).v[e.p]) /\ bad' = Sees(e, L(e.h).v[e.p].y)
    [] e.op = "cons" -> s' = Cons(s, e.h, L(e.h).v[e.p].gc) /\ bad' = Sees(e, L(e.h).v[e.p].g)
    [] e.op = "short" -> UNCHANGED s /\ bad' = Sees(e, "exception")
    [] e.op = "state" -> UNCHANGED s /\ bad' = Sees(e, ToString(s.H[e.h].n) \o " " \o ToString(s.H[e.h].c) \o " " \o ToString(Hit(e.h)) \o (IF Own THEN " " \o BestText(e.h) ELSE ""))
    [] e.op = "add" -> s' = Add(s, e.h, e.o) /\ bad' = Sees(e, "ok")
    [] e.op = "rem" -> s' = Rem(s, e.h) /\ bad' = Sees(e, "ok")
    [] e.op = "level" -> s' = SetLevel(s, e.l) /\ bad' = Sees(e, IF Mat THEN s.V ELSE "ok")
    [] e.op \in {"rec", "restart"} -> UNCHANGED s /\ bad' = Sees(e, "ok")
    [] e.op = "pfree" -> s' = FreeP(s, e.h) /\ bad' = Sees(e, "ok")
    [] e.op = "ofree" -> s' = FreeO(s, e.o) /\ bad' = Sees(e, "ok")
    [] e.op = "sfree" -> s' = FreeS(s, e.s) /\ bad' = Sees(e, "ok")
    [] e.op = "bfree" -> s' = FreeO(FreeS(s, e.s), e.o) /\ bad' = Sees(e, "ok")
    [] e.op = "index" -> UNCHANGED s /\ bad' = Sees(e, Cfgs[s.S[e.s].cfg].idx[e.k])
    [] e.op = "rnew" -> s' = NewR(s, e.g, e.seed) /\ bad' = Sees(e, "ok")
    [] e.op = "rfree" -> s' = [s EXCEPT !.R = Del(@, {e.g})] /\ bad' = Sees(e, "ok")
    [] e.op = "runi" -> s' = Draw(s, e.g, 1) /\ bad' = Sees(e, Ref.uni[s.R[e.g].seed][s.R[e.g].pos + 1])
    [] e.op = "rnorm" -> s' = Draw(s, e.g, 2) /\ bad' = Sees(e, Ref.norm[s.R[e.g].seed][s.R[e.g].pos + 1])
    [] e.op = "files" -> UNCHANGED s /\ bad' = Sees(e, "same")
    [] OTHER -> UNCHANGED s /\ bad' = PrintT(<<"DIFF", e, "the process ended">>)
Init == tid \in DOMAIN Traces /\ i = 0 /\ s = Start /\ bad = FALSE
Next == i < Len(T) /\ ~bad /\ i' = i + 1 /\ UNCHANGED tid /\ Step(T[i + 1])
TraceSpec == Init /\ [][Next]_vars
Conforms == ~bad
=============================================================================
