------------------------------ MODULE RepeaterGen -----------------------------
EXTENDS Repeater, Json
CONSTANTS Len1
VARIABLES cfg, ops, st
vars == <<cfg, ops, st>>
Suites == << << <<1,2,1>>, <<1,2,2>>, <<2,2,1>> >>,
             << <<1,2,1>>, <<1,3,1>>, <<1,2,3>> >>,
             << <<1,2,1>>, <<1,2,1>>, <<1,2,2>>, <<1,2,2>> >>,
             << <<3,5,7>> >>,
             << <<1,2,1>>, <<1,2,2>>, <<1,2,3>>, <<2,2,1>>, <<2,2,2>>, <<2,2,3>> >>,
             << <<12,2,5>>, <<12,2,1>>, <<1,22,5>>, <<1,22,1>> >>,
             [j \in 1..24 |-> <<7, 3, j>>],
             [j \in 1..15 |-> <<1 + ((j - 1) \div 5), 2, 1 + ((j - 1) % 5)>>],
             [j \in 1..45 |-> <<1 + ((j - 1) \div 15), 2, 71 + ((j - 1) % 15)>>] >>
R(S, x) == RandomElement(S)
Init == cfg = <<>> /\ ops = <<>> /\ st = [D |-> <<>>, S |-> 0, pos |-> 0, c |-> [ms |-> 1, mult2 |-> 2, off |-> 0, maxs |-> 9]]
NewCfg(x) == [mult2 |-> R({0, 2, 4, 6, 10, 20, 1, 3, 7}, x), off |-> R({0, 0, 0, 1, -1, 3}, x), ms |-> R({-1, -1, 1, 2, 3, 5, 0}, x), maxs |-> R({0, 0, 0, 3, 4}, x), su |-> R(1..Len(Suites), x), loop |-> R({0, 1, 1}, x)]
Start == /\ ops = <<>> /\ cfg = <<>>
         /\ \E c \in {NewCfg(1)} :
            /\ cfg' = <<c>>
            /\ st' = [st EXCEPT !.c = [ms |-> IF c.ms < 0 THEN 11 ELSE c.ms, mult2 |-> c.mult2, off |-> c.off, maxs |-> IF c.maxs > 0 THEN c.maxs ELSE 10000]]
         /\ UNCHANGED ops
Su == Suites[cfg[1].su]
K(p) == <<p[1], p[2]>>
EvalsOf(p) == LET b == ((p[2] + cfg[1].off) * cfg[1].mult2) \div 2 IN R({0, 1, 2, p[2], b, b + 1, b - 1} \ {-1}, p)
Query(p) == [op |-> "query", p |-> p, tup |-> R({0, 1}, p)]
Add(o) == ops' = Append(ops, o) /\ UNCHANGED cfg
\* the documented loop, with queries in between
Loop == \E z \in {R(0..(IF Len(Su) > 6 THEN 60 ELSE 10), ops)} :
  IF z = 0 THEN Add([op |-> "message"]) /\ UNCHANGED st
  ELSE IF z = 1 THEN Add([op |-> "remain", suite |-> R({0, 1}, ops)]) /\ UNCHANGED st
  ELSE IF z = 2 THEN Add(Query(R(1..Len(Su), ops))) /\ UNCHANGED st
  ELSE IF z = 3 THEN Add([op |-> "init", p |-> R(1..Len(Su), ops), odds |-> R({-1, -1, 0, 1, 2, 3}, ops)]) /\ UNCHANGED st
  ELSE IF st.pos = 0 THEN /\ Add([op |-> "done", msg |-> R({0, 1}, ops)])
                          /\ st' = IF AllDone(st.D, st.S, st.c) THEN st ELSE [st EXCEPT !.S = @ + 1, !.pos = 1]
  ELSE IF st.pos > 100 THEN \* not done: run and track
     LET p == Su[st.pos - 100] q == st.pos - 100 IN
     \E e \in {EvalsOf(p)}, s \in {R({0, 0, 1}, ops)} :
       /\ Add([op |-> "track", p |-> q, e |-> e, s |-> s])
       /\ st' = [st EXCEPT !.D = Track(@, K(p), p[3], e, s), !.pos = IF q = Len(Su) THEN 0 ELSE q + 1]
  ELSE LET p == Su[st.pos] IN
       /\ Add([op |-> "doneP", p |-> st.pos, tup |-> R({0, 1}, ops)])
       /\ st' = [st EXCEPT !.pos = IF InstDone(st.D, st.S, K(p), p[3], st.c) THEN (IF @ = Len(Su) THEN 0 ELSE @ + 1) ELSE @ + 100]
\* any order of calls
\* all problems once, in this order (long suites only begin like that)
Bulk == ops' = ops \o [j \in 1..Len(Su) |-> [op |-> "track", p |-> j, e |-> EvalsOf(Su[j]), s |-> R({0, 0, 1}, j)]] /\ UNCHANGED <<cfg, st>>
Free == IF Len(Su) > 6 /\ ops = <<>> /\ Len1 > 60 THEN Bulk ELSE
        \E z \in {R(1..13, ops)}, q \in {R(1..Len(Su), ops)} :
  LET p == Su[q] IN
  /\ CASE z <= 2 -> Add([op |-> "done", msg |-> R({0, 1}, ops)])
       [] z <= 5 -> Add([op |-> "doneP", p |-> q, tup |-> R({0, 1}, ops)])
       [] z <= 9 -> \E e \in {EvalsOf(p)}, s \in {R({0, 0, 1}, ops)} : Add([op |-> "track", p |-> q, e |-> e, s |-> s])
       [] z = 10 -> Add(Query(q))
       [] z = 11 -> Add([op |-> "init", p |-> q, odds |-> R({-1, -1, 0, 1, 2}, ops)])
       [] z = 12 -> Add([op |-> "message"])
       [] OTHER -> Add([op |-> "remain", suite |-> R({0, 1}, ops)])
  /\ UNCHANGED st
Next == Start \/ (cfg # <<>> /\ Len(ops) < Len1 /\ IF cfg[1].loop = 1 THEN Loop ELSE Free)
Spec == Init /\ [][Next]_vars
Emit == (Len(ops) >= Len1) => PrintT(<<"BEH", ToJson([mult2 |-> cfg[1].mult2, off |-> cfg[1].off, ms |-> cfg[1].ms, maxs |-> cfg[1].maxs, suite |-> Su, ops |-> ops])>>)
=============================================================================
