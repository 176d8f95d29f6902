---------------------------- MODULE LoggerBbobMC ----------------------------
(* One observer, problems of three groups observed one after the other, all   *)
(* short histories.  The invariants restate what the files must contain from  *)
(* the history alone.                                                         *)
EXTENDS LoggerBbob
CONSTANTS MaxOps
VARIABLES w, h, past, k
vars == <<w, h, past, k>>
MCT1 == <<1, 3, 4, 6, 9, 13, 20, 30>>
Keys == {[suite |-> "s", f |-> 1, d |-> 1, inst |-> 1, fopt |-> "o"], [suite |-> "s", f |-> 1, d |-> 1, inst |-> 2, fopt |-> "o"],
         [suite |-> "s", f |-> 1, d |-> 2, inst |-> 1, fopt |-> "o"]}
Vals == {0, 1, 3, 4}
LE(v) == v \div 2
LI(v) == v \div 3
E(v) == [v |-> v, le |-> LE(v), li |-> LI(v), sb |-> ToString(v), sm |-> ToString(v), sv |-> ToString(v), sx |-> ToString(v), si |-> ToString(v), dg |-> ""]
\* h: the current run: evaluated values (with the constraint evaluations before each), restart flags, recommendations (value, evaluations before)
NoRun == [key |-> 0, v |-> <<>>, g |-> <<>>, r |-> <<>>, rec |-> <<>>, gc |-> 0, rp |-> FALSE]
Init == /\ w = [obs |-> [o \in {1} |-> FreshObs("A", <<2, 5>>)], lg |-> [p \in {1} |-> Off], fs |-> <<>>, info |-> <<>>]
        /\ h = NoRun /\ past = <<>> /\ k = 0
Begin == \E key \in Keys : /\ ~w.lg[1].on /\ w' = [w EXCEPT !.lg[1] = FreshLogger(1, key, 0, TRUE)] /\ h' = [NoRun EXCEPT !.key = key] /\ UNCHANGED past
Eval == \E v \in Vals : /\ w.lg[1].on /\ w' = Evaluated(w, 1, E(v)) /\ UNCHANGED past
          /\ h' = [h EXCEPT !.v = Append(@, v), !.g = Append(@, h.gc), !.r = Append(@, h.rp), !.rp = FALSE]
Cons == w.lg[1].on /\ w' = ConstraintsEvaluated(w, 1) /\ h' = [h EXCEPT !.gc = @ + 1] /\ UNCHANGED past
Rec == \E v \in {1, 4} : w.lg[1].on /\ w' = Recommended(w, 1, E(v)) /\ h' = [h EXCEPT !.rec = Append(@, <<v, Len(h.v)>>)] /\ UNCHANGED past
Restart == w.lg[1].on /\ w' = Restarted(w, 1) /\ h' = [h EXCEPT !.rp = @ \/ h.v # <<>>] /\ UNCHANGED past
Release == w.lg[1].on /\ w' = Released(w, 1) /\ past' = (IF h.v # <<>> \/ h.rec # <<>> THEN Append(past, h) ELSE past) /\ h' = NoRun
Next == k < MaxOps /\ k' = k + 1 /\ (Begin \/ Eval \/ Cons \/ Rec \/ Restart \/ Release)
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* the rows of the runs in data file name, cut at the headers
RECURSIVE Cut(_, _, _)
Cut(rows, acc, cur) == IF rows = <<>> THEN (IF cur = <<>> THEN acc ELSE Append(acc, cur))
                       ELSE IF Head(rows)[1] = "%" THEN Cut(Tail(rows), IF cur = <<>> THEN acc ELSE Append(acc, cur), <<Head(rows)>>)
                       ELSE Cut(Tail(rows), acc, Append(cur, Head(rows)))
Runs(name, ext) == IF <<1, name>> \in DOMAIN w.fs THEN Cut(w.fs[<<1, name>>][ext], <<>>, <<>>) ELSE <<>>
\* runs in order, grouped as the info lines say: the j-th entry of a line is the j-th run of its file
Started == IF w.lg[1].on /\ (h.v # <<>> \/ h.rec # <<>>) THEN Append(past, h) ELSE past
\* data file and position of the j-th started run: a new file whenever the group changes
RECURSIVE Where(_)
Where(j) == IF j = 1 THEN <<1, 1>> ELSE
            LET q == Where(j - 1) IN IF Started[j].key.d = Started[j - 1].key.d /\ Started[j].key.f = Started[j - 1].key.f THEN <<q[1], q[2] + 1>> ELSE <<q[1] + 1, 1>>
Group(j) == Where(j)[1]
GroupName(j) == \* the g-th file of its (function, dimension)
  LET same == {Group(i) : i \in {i \in 1..j : Started[i].key.d = Started[j].key.d}} IN Numbered(Base(Started[j].key), Cardinality(same) - 1)
Ns(rows) == [i \in 1..(Len(rows) - 1) |-> rows[i + 1][1]]
SetMin(S) == CHOOSE x \in S : \A y \in S : x <= y
Improving(r, n) == n > 1 /\ \A m \in 1..(n - 1) : r.v[n] < r.v[m]
NewTarget(r, n) == LET before == {m \in 2..(n - 1) : Improving(r, m)} IN
                   \/ \A m \in before : LE(r.v[n]) < LE(r.v[m])
                   \/ \A m \in before : LI(r.v[n]) < LI(r.v[m])
DatSet(r) == {n \in 1..Len(r.v) : n = 1 \/ (Improving(r, n) /\ NewTarget(r, n))}
Strictly(rows) == \A i, j \in 1..(Len(rows) - 1) : i < j => rows[i + 1][1] # rows[j + 1][1]
Closed(j) == j <= Len(past)
DatRows == \A j \in 1..Len(Started) :
  LET rows == Runs(GroupName(j), "dat")[Where(j)[2]]
      r == Started[j]
      want == DatSet(r) \cup (IF Closed(j) /\ r.v # <<>> THEN {Len(r.v)} ELSE {})
  IN /\ Strictly(rows) /\ {rows[i][1] : i \in 2..Len(rows)} = {ToString(n) : n \in want} /\ Len(rows) = Cardinality(want) + 1
     /\ \A i \in 2..Len(rows) : rows[i][3] = ToString(SetMin({r.v[m] : m \in {m \in 1..Len(r.v) : ToString(m) = rows[i][1] \/ (\E q \in 1..Len(r.v) : m < q /\ ToString(q) = rows[i][1])}}))
\* without constraint evaluations: exactly the trigger values; with: every evaluation uses at most one trigger of each kind
Trig(d) == {MCT1[i] : i \in DOMAIN MCT1} \cup {b * d * Pow10(q) : b \in {2, 5}, q \in 0..2}
TdatRows == \A j \in 1..Len(Started) :
  LET rows == Runs(GroupName(j), "tdat")[Where(j)[2]]
      r == Started[j]
      want == {n \in 1..Len(r.v) : n \in Trig(r.key.d)} \cup (IF Closed(j) /\ r.v # <<>> THEN {Len(r.v)} ELSE {})
  IN /\ Strictly(rows)
     /\ (r.gc = 0) => {rows[i][1] : i \in 2..Len(rows)} = {ToString(n) : n \in want}
     /\ \A n \in 1..Len(r.v) : (\E t \in Trig(r.key.d) : (n = 1 \/ n - 1 + r.g[n - 1] < t) /\ n + r.g[n] >= t) => \E i \in 2..Len(rows) : rows[i][1] = ToString(n)
RdatRows == \A j \in 1..Len(Started) :
  LET rows == Runs(GroupName(j), "rdat")[Where(j)[2]]
      r == Started[j]
  IN Ns(rows) = [i \in 1..Cardinality({n \in 1..Len(r.v) : r.r[n]}) |-> ToString(CHOOSE n \in 1..Len(r.v) : r.r[n] /\ Cardinality({m \in 1..n : r.r[m]}) = i)]
MdatRows == \A j \in 1..Len(Started) :
  LET rows == Runs(GroupName(j), "mdat")[Where(j)[2]]
      r == Started[j]
      good == {i \in 1..Len(r.rec) : /\ \A m \in 1..(i - 1) : r.rec[i][1] < r.rec[m][1]
                                     /\ \A m \in 1..(i - 1) : LE(r.rec[i][1]) < LE(r.rec[m][1]) \/ LI(r.rec[i][1]) < LI(r.rec[m][1])}
      lastn == IF good = {} THEN 0 ELSE r.rec[CHOOSE i \in good : \A m \in good : m <= i][2]
      close == Closed(j) /\ lastn # 0 /\ lastn # Len(r.v)
  IN Len(rows) = 1 + Cardinality(good) + (IF close THEN 1 ELSE 0)
\* every evaluated problem has one info entry, next to the file with its rows
InfoRight == \A j \in 1..Len(Started) :
  LET r == Started[j]
      lines == w.info[<<1, r.key.f>>]
      at == {l \in 1..Len(lines) : lines[l].data = GroupName(j)}
  IN /\ Cardinality(at) = 1
     /\ \A l \in at : /\ lines[l].d = r.key.d /\ lines[l].ent[Where(j)[2]].inst = r.key.inst
                      /\ Closed(j) => lines[l].ent[Where(j)[2]].n = Len(r.v)
InfoCount == LET lines == IF <<1, 1>> \in DOMAIN w.info THEN w.info[<<1, 1>>] ELSE <<>> IN
             \A l \in 1..Len(lines) : \A e \in DOMAIN lines[l].ent : \E j \in 1..Len(Started) : GroupName(j) = lines[l].data /\ Where(j)[2] = e
=============================================================================
