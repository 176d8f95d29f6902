----------------------------- MODULE BindingsGen ------------------------------
(* Behaviours of the interfaces: configurations with the numbers of problems     *)
(* Sizes; problems are named by their position.                                  *)
EXTENDS Bindings, Json, IOUtils
CONSTANTS Depth, Own
Conf == JsonDeserialize(IOEnv.CONF)
Sizes == Conf.sizes
Two == {c \in DOMAIN Sizes : Conf.two[c] = 1}
VARIABLES s, hist, k
vars == <<s, hist, k>>
Rnd(a, b) == RandomElement(a..b)
NCfg == Len(Sizes)
Kinds == {"bbob", "bbob-biobj", "toy"} \cup IF Own THEN {} ELSE {"rw"}
TwoOf(sid) == s.S[sid].cfg \in Two
TwoH(h) == s.H[h].cfg \in Two
N(sid) == Sizes[s.S[sid].cfg]
Say(r) == hist' = Append(hist, r)
Other(o) == [op |-> "level", l |-> RandomElement({"error", "warning", "info"} \cup IF Conf.lang = "matlab" THEN {"debug", "", "loud"} ELSE {})]
NewSuite == \E id \in {Rnd(1, 2)} : IF id \in DOMAIN s.S THEN UNCHANGED s /\ Say([op |-> "count", s |-> id])
   ELSE \E c \in {Rnd(1, NCfg)} : s' = OpenSuite(s, id, c) /\ Say([op |-> "suite", s |-> id, cfg |-> c])
Clone == \E a \in {x \in DOMAIN s.S : 3 - x \notin DOMAIN s.S} : s' = OpenSuite(s, 3 - a, s.S[a].cfg) /\ Say([op |-> "clone", s |-> a, t |-> 3 - a])
MayClone == Own /\ \E x \in DOMAIN s.S : 3 - x \notin DOMAIN s.S
NewObs == \E o \in {Rnd(1, 3)} : IF o \in DOMAIN s.O THEN UNCHANGED s /\ Say([op |-> "folder", o |-> o]) ELSE \E kd \in {RandomElement(Kinds)} : s' = OpenObs(s, o, kd) /\ Say([op |-> "obs", o |-> o, kind |-> kd, v |-> Rnd(0, 99)])
Ask(c) == LET D == {d \in DOMAIN s.S : MayAsk(s, d, Own)} IN
  IF D = {} THEN (IF DOMAIN s.S = {} THEN NewSuite ELSE \E h \in {RandomElement(DOMAIN s.H)} : s' = FreeP(s, h) /\ Say([op |-> "pfree", h |-> h]))
  ELSE \E d \in {RandomElement(D)} : \E o \in {LET W == {w \in DOMAIN s.O : MayWatch(s, d, w, TwoOf(d))} IN IF W = {} \/ Rnd(1, 4) = 1 THEN 0 ELSE RandomElement(W)} : \E p \in {Rnd(0, N(d))} :
    IF c <= 3 /\ MayNext(s, d, Own, N(d)) THEN s' = NextP(s, d, k + 1, o, Own, N(d)) /\ Say([op |-> "next", s |-> d, o |-> o, h |-> k + 1])
    ELSE IF c <= 4 /\ p > 0 THEN s' = Get(s, d, k + 1, p) /\ Say([op |-> "get", s |-> d, k |-> p, h |-> k + 1])
    ELSE s' = Get(s, d, k + 1, p) /\ Say([op |-> "fdi", s |-> d, k |-> p, h |-> k + 1])
OnProblem(c) == IF DOMAIN s.H = {} THEN Ask(Rnd(1, 5)) ELSE \E h \in {RandomElement(DOMAIN s.H)} : \E p \in {Rnd(1, 6)} :
  CASE c <= 8 -> s' = Eval(s, h, [rank |-> 1, hit |-> 0, dn |-> 1, dc |-> 0]) /\ Say([op |-> "eval", h |-> h, p |-> p])
    [] c \in {9, 10} -> s' = Cons(s, h, 1) /\ Say([op |-> "cons", h |-> h, p |-> p])
    [] c \in {11, 12} -> UNCHANGED s /\ Say([op |-> "state", h |-> h])
    [] c = 13 -> UNCHANGED s /\ Say([op |-> "rec", h |-> h, p |-> p])
    [] c = 14 -> UNCHANGED s /\ Say([op |-> "short", h |-> h, p |-> p, w |-> RandomElement({"eval", "cons", "rec", "evaly", "consy"}), d |-> RandomElement({-1, 1})])
    [] c \in {15, 16} -> IF Fresh(s, h) /\ (\E o \in DOMAIN s.O : MayAdd(s, h, o, TwoH(h))) THEN (\E o \in {RandomElement({w \in DOMAIN s.O : MayAdd(s, h, w, TwoH(h))})} : s' = Add(s, h, o) /\ Say([op |-> "add", h |-> h, o |-> o]))
                         ELSE UNCHANGED s /\ Say([op |-> "meta", h |-> h])
    [] c = 17 -> IF s.H[h].obs # {} /\ Mine(s, h) THEN s' = Rem(s, h) /\ Say([op |-> "rem", h |-> h, o |-> CHOOSE o \in s.H[h].obs : TRUE]) ELSE UNCHANGED s /\ Say([op |-> "state", h |-> h])
    [] c = 18 -> IF s.H[h].obs # {} THEN UNCHANGED s /\ Say([op |-> "restart", h |-> h, o |-> CHOOSE o \in s.H[h].obs : TRUE]) ELSE UNCHANGED s /\ Say([op |-> "meta", h |-> h])
    [] OTHER -> IF Own \/ (Conf.frees = 1 /\ Mine(s, h)) THEN s' = FreeP(s, h) /\ Say([op |-> "pfree", h |-> h]) ELSE UNCHANGED s /\ Say([op |-> "meta", h |-> h])
Ending(c) == LET F == {o \in DOMAIN s.O : MayFreeO(s, o)} IN
  IF c = 1 /\ F # {} THEN (\E o \in {RandomElement(F)} : s' = FreeO(s, o) /\ Say([op |-> "ofree", o |-> o]))
  ELSE LET D == {d \in DOMAIN s.S : MayFreeS(s, d, Own)} IN
       IF ~Own /\ c = 3 /\ D # {} /\ F # {} THEN (\E d \in {RandomElement(D)} : \E o \in {RandomElement(F)} : s' = FreeO(FreeS(s, d), o) /\ Say([op |-> "bfree", s |-> d, o |-> o]))
       ELSE IF c = 2 /\ D # {} THEN (\E d \in {RandomElement(D)} : s' = FreeS(s, d) /\ Say([op |-> "sfree", s |-> d]))
       ELSE IF DOMAIN s.S # {} THEN UNCHANGED s /\ (\E d \in {RandomElement(DOMAIN s.S)} : Say([op |-> "index", s |-> d, k |-> Rnd(1, Conf.idx[s.S[d].cfg])])) ELSE UNCHANGED s /\ Say(Other(0))
Random(c) == \E g \in {Rnd(1, 2)} : IF g \notin DOMAIN s.R \/ c = 1 THEN (\E q \in {Rnd(1, 3)} : s' = NewR(s, g, q) /\ Say([op |-> "rnew", g |-> g, seed |-> q]))
  ELSE IF s.R[g].pos > 15 THEN s' = [s EXCEPT !.R = Del(@, {g})] /\ Say([op |-> "rfree", g |-> g])
  ELSE IF c <= 5 THEN s' = Draw(s, g, 1) /\ Say([op |-> "runi", g |-> g]) ELSE s' = Draw(s, g, 2) /\ Say([op |-> "rnorm", g |-> g])
Next == /\ k < Depth /\ k' = k + 1
        /\ \E c \in {Rnd(1, 100)} :
             IF k = 0 THEN NewSuite ELSE IF k = 1 THEN NewObs
             ELSE IF c = 1 /\ MayClone THEN Clone ELSE IF c <= 4 THEN NewSuite ELSE IF c <= 8 THEN NewObs ELSE IF c <= 24 THEN Ask(Rnd(1, 5)) ELSE IF c <= 88 THEN OnProblem(Rnd(1, 20))
             ELSE IF c <= 92 THEN Ending(Rnd(1, 6)) ELSE IF c <= 93 THEN UNCHANGED s /\ Say(Other(k)) ELSE IF Own THEN Random(Rnd(1, 9)) ELSE OnProblem(Rnd(1, 20))
Init == s = Start /\ hist = <<>> /\ k = 0
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
