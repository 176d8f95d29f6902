------------------------------- MODULE Bindings -------------------------------
(* What a user of an interface (Java, Rust, MATLAB) sees: suites S that are being   *)
(* iterated over, observers O, and problems H obtained from the suites.  A suite *)
(* is a configuration with N problems.  In Java the problem of the iteration is  *)
(* released by the next step (Own = FALSE); in Rust the caller owns every        *)
(* problem, and a suite lends one at a time (Own = TRUE).                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Start == [S |-> <<>>, H |-> <<>>, O |-> <<>>, R |-> <<>>, V |-> "info"]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, K) == [x \in DOMAIN f \ K |-> f[x]]
None == 1000000
OpenSuite(s, id, c) == [s EXCEPT !.S = Upd(@, id, [cfg |-> c, cur |-> 0, curh |-> 0])]
OpenObs(s, o, kind) == [s EXCEPT !.O = Upd(@, o, kind)]
\* an observer of this kind fits problems with two objectives / with one
Fits(kind, two) == IF kind \in {"bbob", "toy"} THEN ~two ELSE IF kind = "bbob-biobj" THEN two ELSE TRUE
Observing(s, o) == {h \in DOMAIN s.H : o \in s.H[h].obs}
Problem(sid, c, k, o) == [sid |-> sid, cfg |-> c, k |-> k, n |-> 0, c |-> 0, hit |-> 0, best |-> None, obs |-> IF o = 0 THEN {} ELSE {o}]
Of(s, sid) == {h \in DOMAIN s.H : s.H[h].sid = sid}
Give(s, sid, h, k, o) == [s EXCEPT !.H = Upd(@, h, Problem(sid, s.S[sid].cfg, k, o))]
\* the suite lends only one problem at a time / never asked again after its end
MayAsk(s, sid, own) == sid \in DOMAIN s.S /\ (own => Of(s, sid) = {})
MayNext(s, sid, own, N) == MayAsk(s, sid, own) /\ s.S[sid].cur <= N
\* an observer watches one problem at a time; the problem of the iteration (Java) ends with the step
MayWatch(s, sid, o, two) == o \in DOMAIN s.O /\ Fits(s.O[o], two) /\ Observing(s, o) \subseteq {s.S[sid].curh}
\* position of the problem the next step delivers, 0 at the end
NextPos(s, sid, N) == IF s.S[sid].cur < N THEN s.S[sid].cur + 1 ELSE 0
NextP(s, sid, h, o, own, N) ==
  LET k == NextPos(s, sid, N)
      t == IF own \/ k = 0 THEN s ELSE [s EXCEPT !.H = Del(@, {s.S[sid].curh})]
      u == [t EXCEPT !.S[sid].cur = IF k = 0 THEN N + 1 ELSE k, !.S[sid].curh = IF own THEN 0 ELSE IF k = 0 THEN @ ELSE h]
  IN IF k = 0 THEN u ELSE Give(u, sid, h, k, o)
Get(s, sid, h, k) == IF k = 0 THEN s ELSE Give(s, sid, h, k, 0)
\* v: the value, as a record with its rank, whether it hits the final target, and what it counts
\* (nothing at a point that is not a number)
Eval(s, h, v) == [s EXCEPT !.H[h].n = @ + v.dn, !.H[h].c = @ + v.dc, !.H[h].hit = IF v.hit = 1 THEN 1 ELSE @, !.H[h].best = IF v.rank < @ THEN v.rank ELSE @]
Cons(s, h, gc) == [s EXCEPT !.H[h].c = @ + gc]
\* the problem of the iteration belongs to the suite: it cannot be wrapped by hand
Mine(s, h) == \A d \in DOMAIN s.S : s.S[d].curh # h
MayAdd(s, h, o, two) == Mine(s, h) /\ s.H[h].obs = {} /\ o \in DOMAIN s.O /\ Observing(s, o) = {} /\ Fits(s.O[o], two)
MayRem(s, h, o) == Mine(s, h) /\ o \in s.H[h].obs
MayFreeO(s, o) == o \in DOMAIN s.O /\ Observing(s, o) = {}
MayFreeS(s, sid, own) == IF own THEN Of(s, sid) = {} ELSE \A h \in Of(s, sid) : h = s.S[sid].curh \/ s.H[h].obs = {}
Fresh(s, h) == s.H[h].n = 0 /\ s.H[h].c = 0
Add(s, h, o) == [s EXCEPT !.H[h].obs = {o}]
Rem(s, h) == [s EXCEPT !.H[h].obs = {}]
FreeP(s, h) == [s EXCEPT !.H = Del(@, {h})]
FreeO(s, o) == [s EXCEPT !.O = Del(@, {o})]
FreeS(s, sid) == [s EXCEPT !.S = Del(@, {sid}), !.H = Del(@, Of(s, sid))]
\* the level of the messages; anything else leaves it
Levels == {"error", "warning", "info", "debug"}
SetLevel(s, l) == IF l \in Levels THEN [s EXCEPT !.V = l] ELSE s
\* random numbers: a generator is a seed and a position
NewR(s, g, seed) == [s EXCEPT !.R = Upd(@, g, [seed |-> seed, pos |-> 0])]
Draw(s, g, n) == [s EXCEPT !.R[g].pos = @ + n]
=============================================================================
