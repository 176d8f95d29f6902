------------------------------- MODULE PySuiteMC ------------------------------
EXTENDS PySuite
CONSTANTS N, MaxH, MaxE
VARIABLES s, seen
vars == <<s, seen>>
Init == s = Start /\ seen = <<>>
Next == \/ /\ Len(s.H) < MaxH /\ s' = NextP(s, N) /\ seen' = IF s'.cur <= N THEN Append(seen, s'.cur) ELSE seen
        \/ s' = Reset(s) /\ seen' = <<>>
        \/ /\ Len(s.H) < MaxH /\ \E a \in -N..(N - 1) : s' = Give(s, Pos(a, N)) /\ UNCHANGED seen
        \/ \E h \in DOMAIN s.H : ~s.H[h].freed /\ s' = FreeH(s, h) /\ UNCHANGED seen
        \/ \E h \in DOMAIN s.H : ~s.H[h].freed /\ s.H[h].n < MaxE /\ s' = Eval(s, h, 1) /\ UNCHANGED seen
Spec == Init /\ [][Next]_vars
InOrder == \A j \in DOMAIN seen : seen[j] = j
CurIsCur == s.curh # 0 => s.H[s.curh].k = s.cur
KnownPos == \A h \in DOMAIN s.H : s.H[h].k \in 1..N
\* a released handle stays released and an evaluation counts on one handle only
Mono == [][\A h \in DOMAIN s.H : /\ s.H[h].freed => s'.H[h].freed
                                  /\ s'.H[h].n >= s.H[h].n]_vars
=============================================================================
