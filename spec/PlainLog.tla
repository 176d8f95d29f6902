------------------------------- MODULE PlainLog -------------------------------
(* The "rw" and the "toy" logger: text files that grow by one header for each  *)
(* problem taken under observation and one row for each evaluation worth it.   *)
(* rw: one file per problem; every evaluation, or only the strictly better     *)
(* ones; row = evaluations since the observer was added, constraint            *)
(* evaluations of the problem, objectives, then (if asked for) variables,      *)
(* constraints and time.   toy: one file per observer; a row when a target is  *)
(* hit that is harder than all hit before.                                     *)
(* A target is <<1, e>> (10^(e/n)), <<0, 0>> (zero) or <<-1, e>> (-10^(e/n)).  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT None
Harder(a, b) == \/ a[1] < b[1]
                \/ a[1] = b[1] /\ a[1] = 1 /\ a[2] < b[2]
                \/ a[1] = b[1] /\ a[1] = -1 /\ a[2] > b[2]
\* which groups of columns a problem gets from an rw observer
Wants(mode, limit, size) == mode = "all" \/ (mode = "low_dim" /\ size <= limit)
LogsVars(o, key) == Wants(o.vars, o.lowv, key.d)
LogsCons(o, key) == key.ncons > 0 /\ Wants(o.cons, o.lowc, key.ncons)
OnlyBetter(o, key) == o.better = 1 /\ key.nobj = 1
FileOf(o, num, key) == IF o.kind = "rw" THEN <<num, key.id>> ELSE <<num, o.file>>
NoT == <<9, 0>>
Header(key) == [h |-> key.head, n |-> 0, nc |-> 0, t |-> NoT, c |-> <<>>, tm |-> 0]
NewLogger(o, num, key) == [o |-> o, num |-> num, key |-> key, n |-> 0, best |-> None, hit |-> None]
Better(l, e) == l.best = None \/ e.v < l.best
Hits(l, e) == l.hit = None \/ Harder(e.t, l.hit)
Due(l, e) == IF l.o.kind = "toy" THEN Hits(l, e) ELSE (l.n = 0 \/ ~OnlyBetter(l.o, l.key) \/ Better(l, e))
Columns(l, e) == IF l.o.kind = "toy" THEN e.toy.y \o e.toy.x
                 ELSE e.rw.y \o (IF LogsVars(l.o, l.key) THEN e.rw.x ELSE <<>>) \o (IF LogsCons(l.o, l.key) THEN e.rw.c ELSE <<>>)
Row(l, e, nc) == IF l.o.kind = "toy" THEN [h |-> "", n |-> l.n + 1, nc |-> 0, t |-> e.t, c |-> Columns(l, e), tm |-> 0]
                 ELSE [h |-> "", n |-> l.n + 1, nc |-> nc, t |-> NoT, c |-> Columns(l, e), tm |-> l.o.time]
After(l, e) == [l EXCEPT !.n = @ + 1, !.best = IF l.key.nobj = 1 /\ Better(l, e) THEN e.v ELSE @,
                         !.hit = IF l.o.kind = "toy" /\ Hits(l, e) THEN e.t ELSE @]
\* ---------------------------------------------------------------- the system
\* prob: slot -> [key, nc, logs] (logs: loggers, innermost first); files: path -> lines
VARIABLES obs, prob, files
sys == <<obs, prob, files>>
Put(fs, f, line) == [x \in DOMAIN fs \cup {f} |-> IF x = f THEN Append(IF f \in DOMAIN fs THEN fs[f] ELSE <<>>, line) ELSE fs[x]]
Touch(fs, f) == [x \in DOMAIN fs \cup {f} |-> IF x \in DOMAIN fs THEN fs[x] ELSE <<>>]
Upd(f, x, v) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN v ELSE f[z]]
SysInit == obs = <<>> /\ prob = <<>> /\ files = <<>>
Observer(num, o) == /\ obs' = Upd(obs, num, o)
                    /\ files' = IF o.kind = "toy" THEN Touch(files, <<num, o.file>>) ELSE files
                    /\ UNCHANGED prob
Open(p, key) == prob' = Upd(prob, p, [key |-> key, nc |-> 0, logs |-> <<>>]) /\ UNCHANGED <<obs, files>>
Add(p, num) == LET key == prob[p].key o == obs[num] IN
  /\ prob' = [prob EXCEPT ![p].logs = Append(@, NewLogger(o, num, key))]
  /\ files' = Put(files, FileOf(o, num, key), Header(key))
  /\ UNCHANGED obs
RECURSIVE LogAll(_, _, _, _)
LogAll(fs, ls, e, nc) == IF ls = <<>> THEN fs
   ELSE LogAll(IF Due(Head(ls), e) THEN Put(fs, FileOf(Head(ls).o, Head(ls).num, Head(ls).key), Row(Head(ls), e, nc)) ELSE fs, Tail(ls), e, nc)
Evaluate(p, e) == /\ files' = LogAll(files, prob[p].logs, e, prob[p].nc)
                  /\ prob' = [prob EXCEPT ![p].logs = [j \in DOMAIN @ |-> After(@[j], e)]]
                  /\ UNCHANGED obs
Constraints(p) == prob' = [prob EXCEPT ![p].nc = @ + 1] /\ UNCHANGED <<obs, files>>
Remove(p) == prob' = [prob EXCEPT ![p].logs = SubSeq(@, 1, Len(@) - 1)] /\ UNCHANGED <<obs, files>>
Free(p) == prob' = [z \in DOMAIN prob \ {p} |-> prob[z]] /\ UNCHANGED <<obs, files>>
\* ------------------------------------------------- what a reader may find
IsRow(l) == l.h = ""
\* after an orderly end everything is there; after a sudden death only headers no evaluation has followed may be missing
LastRow(ls) == LET S == {k \in DOMAIN ls : IsRow(ls[k])} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
MayBe(ls) == {SubSeq(ls, 1, k) : k \in LastRow(ls)..Len(ls)}
=============================================================================
