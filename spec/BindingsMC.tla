------------------------------ MODULE BindingsMC ------------------------------
EXTENDS Bindings
CONSTANTS N, MaxOps, Own
VARIABLES s, seen, k, evals
vars == <<s, seen, k, evals>>
Sids == {1, 2}
Hs == {1, 2, 3}
Vals == {[rank |-> 1, hit |-> 1, dn |-> 1, dc |-> 0], [rank |-> 2, hit |-> 0, dn |-> 1, dc |-> 1], [rank |-> None, hit |-> 0, dn |-> 0, dc |-> 0]}
Init == s = Start /\ seen = [d \in Sids |-> <<>>] /\ k = 0 /\ evals = <<>>
Free == Hs \ DOMAIN s.H
Step ==
  \/ \E d \in Sids \ DOMAIN s.S : s' = OpenSuite(s, d, 1) /\ seen' = [seen EXCEPT ![d] = <<>>] /\ UNCHANGED evals
  \/ \E o \in {1} \ DOMAIN s.O : s' = OpenObs(s, o, "bbob") /\ UNCHANGED <<seen, evals>>
  \/ \E d \in Sids, h \in Free, o \in {0} \cup DOMAIN s.O : MayNext(s, d, Own, N) /\ (o = 0 \/ MayWatch(s, d, o, FALSE)) /\ s' = NextP(s, d, h, o, Own, N)
        /\ seen' = (IF NextPos(s, d, N) = 0 THEN seen ELSE [seen EXCEPT ![d] = Append(@, s'.H[h].k)])
        /\ evals' = IF h \in DOMAIN s'.H THEN Upd(evals, h, <<>>) ELSE evals
  \/ \E d \in Sids, h \in Free, p \in 0..N : MayAsk(s, d, Own) /\ s' = Get(s, d, h, p) /\ UNCHANGED seen /\ evals' = IF p # 0 THEN Upd(evals, h, <<>>) ELSE evals
  \/ \E h \in DOMAIN s.H, v \in Vals : s' = Eval(s, h, v) /\ evals' = [evals EXCEPT ![h] = Append(@, v)] /\ UNCHANGED seen
  \/ \E h \in DOMAIN s.H : s' = Cons(s, h, 1) /\ UNCHANGED <<seen, evals>>
  \/ \E h \in DOMAIN s.H, o \in DOMAIN s.O : Fresh(s, h) /\ MayAdd(s, h, o, FALSE) /\ s' = Add(s, h, o) /\ UNCHANGED <<seen, evals>>
  \/ \E h \in DOMAIN s.H : Own /\ s' = FreeP(s, h) /\ UNCHANGED <<seen, evals>>
  \/ \E h \in DOMAIN s.H, o \in DOMAIN s.O : MayRem(s, h, o) /\ s' = Rem(s, h) /\ UNCHANGED <<seen, evals>>
  \/ \E o \in DOMAIN s.O : MayFreeO(s, o) /\ s' = FreeO(s, o) /\ UNCHANGED <<seen, evals>>
  \/ \E d \in DOMAIN s.S : MayFreeS(s, d, Own) /\ s' = FreeS(s, d) /\ UNCHANGED <<seen, evals>>
Next == k < MaxOps /\ k' = k + 1 /\ Step
Spec == Init /\ [][Next]_vars
InOrder == \A d \in Sids : \A j \in DOMAIN seen[d] : seen[d][j] = j
Ends == \A d \in DOMAIN s.S : s.S[d].cur > N => Len(seen[d]) = N
Known == \A h \in DOMAIN s.H : s.H[h].k \in 1..N /\ s.H[h].sid \in DOMAIN s.S
OneLent == Own => \A d \in Sids : Cardinality(Of(s, d)) <= 1
OneWatched == \A o \in 1..1 : Cardinality(Observing(s, o)) <= 1
WatchedAlive == \A h \in DOMAIN s.H : s.H[h].obs \subseteq DOMAIN s.O
Counted == \A h \in DOMAIN s.H : /\ s.H[h].n = Len(SelectSeq(evals[h], LAMBDA v : v.dn = 1))
                                  /\ s.H[h].best = (IF evals[h] = <<>> THEN None ELSE CHOOSE r \in {1, 2, None} : (\E j \in DOMAIN evals[h] : evals[h][j].rank = r) /\ \A j \in DOMAIN evals[h] : evals[h][j].rank >= r)
                                  /\ (s.H[h].hit = 1) = (\E j \in DOMAIN evals[h] : evals[h][j].hit = 1)
=============================================================================
