----------------------------- MODULE NonAnytimeMC -----------------------------
EXTENDS NonAnytime
CONSTANTS NX, MaxRec
Vals == [x \in 1..NX |-> (x + 1) \div 2]
VARIABLES s, run, delivered, old
vars == <<s, run, delivered, old>>
Init == s = Start /\ run = <<>> /\ delivered = {} /\ old = <<>>
Next == \/ \E x \in 1..NX : s.ev < MaxRec /\ s' = Call(s, x) /\ run' = Append(run, x) /\ UNCHANGED delivered /\ old' = s.rec
        \/ \E x \in 1..NX : CanDeliver(s) /\ Len(s.rec) < MaxRec /\ s' = Deliver(s, x, Vals) /\ run' = <<>> /\ delivered' = delivered \cup {x} /\ old' = s.rec
Spec == Init /\ [][Next]_vars
\* what is recorded is never changed; a value delivered was recorded; the record covers the current run's length
Bound == s.ev <= Len(s.rec)
OnlyGrows == Len(s.rec) \in {Len(old), Len(old) + 1} /\ SubSeq(s.rec, 1, Len(old)) = old
DeliveredRecorded == \A x \in delivered : \E j \in DOMAIN s.rec : Vals[s.rec[j]] = Vals[x]
\* a first run is recorded completely and in order
FirstRun == delivered = {} => s.rec = run
=============================================================================
