------------------------------ MODULE SettingsGen -----------------------------
EXTENDS Settings, Json
CONSTANT Len1
VARIABLES kind, ops, st
vars == <<kind, ops, st>>
R(S, x) == RandomElement(S)
Init == kind = "" /\ ops = <<>> /\ st = [d |-> 2, f |-> 1, index |-> 0, run |-> 0, c |-> 0]
Start == /\ kind = "" /\ kind' = R({"args", "options", "files", "time", "mini", "mini", "short", "search"}, ops)
         /\ UNCHANGED <<ops, st>>
Add(o) == ops' = Append(ops, o)
\* ------------------------------------------------------------- arguments
KnownSets == <<{"budget_multiplier", "suite_name", "bed", "number", "whatever", "current_batch", "batches"}, {None}, {"alpha", "alphabet1", "beta"}, {"x"}>>
NamesOf(q) == CASE q = 1 -> {"budget_multiplier", "budget", "b", "be", "bed", "n", "number", "numbers", "suite", "suite_name", "", "unknown", "w", "_"}
                [] q = 2 -> {"a", "ab", "anything", "x"} [] q = 3 -> {"alpha1", "alphabet", "al", "b", "beta", "alphabet1", "gamma"} [] OTHER -> {"", "x", "xx"}
Texts == DOMAIN Literals \cup {"bed-name", "", "1/3", "nan", "(", "007", "2.3.4", "[1,2", "T", "x y"}
\* mostly arguments that are in order: an error ends the list
OneArg(q, b, z, x) == LET n == R(NamesOf(q), x) IN
  IF b = 1 /\ z < 20 THEN [parts |-> <<"batch", "">>, slash |-> R({<<"1", "3">>, <<"0", "4">>, <<"12", "4">>, <<"1", "2", "3">>, <<"2">>, <<"a", "2">>}, x)]
  ELSE IF z < 23 THEN [parts |-> R({<<n>>, <<n, "1", "2">>}, x), slash |-> <<>>]
  ELSE [parts |-> <<n, R(Texts, x)>>, slash |-> <<>>]
Args1 == \E q \in {R(1..Len(KnownSets), ops)}, b \in {R({0, 1}, ops)}, m \in {R(1..4, ops)} :
  /\ Add([op |-> "args", known |-> KnownSets[q], batch |-> IF b = 1 THEN <<"current_batch", "batches">> ELSE <<>>,
          args |-> [j \in 1..m |-> OneArg(q, b, R(1..100, <<ops, j>>), <<ops, j>>)]])
  /\ UNCHANGED st
\* ------------------------------------------------------------- options
OptNames == {"algorithm_name", "algorithm_info", "result_folder", "outer_folder", "base_evaluation_triggers", "number_target_triggers", "menu", "u"}
OptValues == {[t |-> v, q |-> 0] : v \in {"menu", "u", "1,2,5", "a,b", "ALG", "100", "0", "1e-8", "tofu", "it's", "{x}", "-1", "x_y"}} \cup {[t |-> v, q |-> 1] : v \in {"a b", "short, but: long", "by us", ""}}
Pairs(N, V, x) == [k \in R(SUBSET N, x) |-> R(V, <<x, k>>)]
Few == {S \in SUBSET OptNames : Cardinality(S) <= 4}
Opts == \E K \in {R(Few, ops)} : \E d \in {[k \in K |-> R(OptValues, <<ops, k>>)]} :
  /\ Add([op |-> R({"onew", "oupd", "ograce"}, ops), d |-> d]) /\ UNCHANGED st
\* ------------------------------------------------------------- files
FileNames == {"a", "b", "_x", "self", "selfish", "__name", "budget_multiplier", "np", "large", "fun"}
Files == \E K \in {R(SUBSET FileNames, ops)}, z \in {R(1..9, ops)} :
  /\ LET d == [k \in K |-> R(Readable \cup Unreadable, <<ops, k>>)] f == R(1..3, ops) ign == R({{"std"}, {"std"}, {"b"}, {"b", "_", "n"}, {"self"}}, ops) IN
     Add(IF z <= 3 THEN [op |-> "write", file |-> f, tup |-> R({0, 1}, ops), d |-> d, ign |-> ign]
         ELSE IF z <= 6 THEN [op |-> "read", file |-> f, warn |-> R({0, 1, 2}, ops)]
         ELSE [op |-> "eval", d |-> d, ign |-> ign])
  /\ UNCHANGED st
\* ------------------------------------------------------------- time
Time == \E z \in {R(1..4, ops)} : \E s \in {IF z = 1 THEN R(0..130, ops) ELSE IF z = 2 THEN R({59, 60, 61, 3599, 3600, 3601, 2001, 2021, 35999, 36000, 359999, 86400}, ops) ELSE R(0..400000, ops)} :
  Add([op |-> "time", q |-> 4 * s + R(0..3, ops)]) /\ UNCHANGED st
\* ------------------------------------------------------------- progress
MiniP == \E z \in {R(1..150, ops)} :
  LET s == IF z <= 3 \/ (st.c \in {48, 49, 50} /\ z <= 60) THEN [st EXCEPT !.f = R({1, 2, 9, 10, 24, 100}, ops), !.index = @ + 1]
           ELSE IF z = 4 THEN [st EXCEPT !.d = R({2, 3, 5, 40}, ops), !.index = @ + 1]
           ELSE IF z = 5 THEN [st EXCEPT !.index = R(0..20, ops)]
           ELSE IF z = 6 THEN [st EXCEPT !.d = R({2, 3, 5, 40}, ops), !.f = R({1, 9, 10}, ops), !.index = R(0..20, ops)]
           ELSE [st EXCEPT !.index = @ + 1] IN
  /\ st' = [s EXCEPT !.c = IF s.d # st.d \/ s.index < st.index \/ (s.f # st.f /\ st.c >= 50) THEN 1 ELSE st.c + 1]
  /\ Add([op |-> "mini", d |-> s.d, f |-> s.f, index |-> s.index, hit |-> R({0, 1}, ops), restarted |-> R({0, 1}, ops), final |-> IF z > 146 THEN 1 ELSE 0,
          msg |-> R({"", "yes", "the end"}, ops)])
ShortP == \E z \in {R(1..12, ops)} :
  LET s == IF z <= 3 THEN [st EXCEPT !.f = R({1, 2, 9, 10, 24, 55}, ops)]
           ELSE IF z = 4 THEN [st EXCEPT !.d = R({2, 3, 5, 40}, ops)]
           ELSE IF z = 5 THEN [st EXCEPT !.d = R({2, 3, 5, 40}, ops), !.f = R({1, 9, 10}, ops)] ELSE st IN
  IF st.run = 0 \/ (z <= 7 /\ st.run = 2)
  THEN /\ st' = [s EXCEPT !.run = 1] /\ Add([op |-> "short", d |-> s.d, f |-> s.f])
  ELSE /\ st' = [st EXCEPT !.run = 2] /\ Add([op |-> "ran", evals |-> R({1, 7, 1000}, ops), runs |-> R({1, 2, 5, 9, 10, 50, 99, 100}, ops)])
\* ------------------------------------------------------------- search
\* (the large budgets need several rounds in 40 dimensions; the values repeat)
Search == \E b \in {R({0, 1, 2, 5, 10, 40, 1700, 2500}, ops)} : \E n \in {IF b > 40 THEN 1030 ELSE b} :
  /\ Add([op |-> "search", dim |-> IF b > 40 THEN 40 ELSE R({1, 2, 5, 40}, ops), budget |-> b, con |-> R({0, 1}, ops), nobj |-> R({1, 1, 2}, ops),
          fs |-> [j \in 1..(n + 1) |-> R(1..(IF n > 40 THEN 4000 ELSE 8), <<ops, j>>)], ok |-> [j \in 1..(n + 1) |-> R({0, 1}, <<ops, -j>>)]])
  /\ UNCHANGED st
Next == \/ Start
        \/ /\ kind # "" /\ Len(ops) < Len1 /\ UNCHANGED kind
           /\ CASE kind = "args" -> Args1 [] kind = "options" -> Opts [] kind = "files" -> Files [] kind = "time" -> Time
                [] kind = "mini" -> MiniP [] kind = "short" -> ShortP [] OTHER -> Search
Spec == Init /\ [][Next]_vars
Emit == (Len(ops) >= Len1) => PrintT(<<"BEH", ToJson([kind |-> kind, ops |-> ops])>>)
=============================================================================
