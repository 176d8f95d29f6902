------------------------------ MODULE PlainLogMC ------------------------------
(* Two problems, an rw and a toy observer, all short histories.                *)
EXTENDS PlainLog, TLC
CONSTANTS MaxOps
VARIABLES k, done
vars == <<obs, prob, files, k, done>>
Keys == {[id |-> "a", head |-> "a", d |-> 2, nobj |-> 1, ncons |-> 1], [id |-> "b", head |-> "b", d |-> 2, nobj |-> 2, ncons |-> 0]}
RW == {[kind |-> "rw", vars |-> v, lowv |-> 1, cons |-> "all", lowc |-> 10, better |-> b, time |-> 0, file |-> ""] : v \in {"all", "low_dim"}, b \in {0, 1}}
TOY == [kind |-> "toy", file |-> "t"]
Evs == {[v |-> v, t |-> t, rw |-> [y |-> <<v>>, x |-> <<"x1", "x2">>, c |-> <<"c">>], toy |-> [y |-> <<v>>, x |-> <<"x">>]] :
          v \in 1..3, t \in {<<1, 2>>, <<0, 0>>, <<-1, 1>>}}
Log(x) == done' = Append(done, x)
Init == \E r \in RW : obs = (0 :> r @@ 1 :> TOY) /\ prob = <<>> /\ files = (<<1, "t">> :> <<>>) /\ k = 0 /\ done = <<>>
\* an rw file is written by one problem object at a time; a problem has each observer at most once
InUse(p, num) == \E q \in DOMAIN prob : prob[q].key.id = prob[p].key.id /\ \E j \in DOMAIN prob[q].logs : prob[q].logs[j].num = num
Next == /\ k < MaxOps /\ k' = k + 1
        /\ \/ \E p \in {0, 1}, key \in Keys : p \notin DOMAIN prob /\ Open(p, key) /\ UNCHANGED done
           \/ \E p \in DOMAIN prob, n \in {0, 1} : ~InUse(p, n) /\ Add(p, n) /\ Log([op |-> "add", p |-> p, num |-> n])
           \/ \E p \in DOMAIN prob, e \in Evs : Evaluate(p, e) /\ Log([op |-> "eval", p |-> p, e |-> e])
           \/ \E p \in DOMAIN prob : prob[p].nc < 1 /\ Constraints(p) /\ UNCHANGED done
           \/ \E p \in DOMAIN prob : prob[p].logs # <<>> /\ Remove(p) /\ Log([op |-> "rem", p |-> p])
           \/ \E p \in DOMAIN prob : Free(p) /\ Log([op |-> "free", p |-> p])
Spec == Init /\ [][Next]_vars
\* ---------------------------------------------------------------- properties
Rows(f) == SelectSeq(files[f], IsRow)
Files(kind) == {f \in DOMAIN files : obs[f[1]].kind = kind}
Adds(num) == Len(SelectSeq(done, LAMBDA x : x.op = "add" /\ x.num = num))
Cnt(s, P(_)) == Cardinality({j \in DOMAIN s : P(s[j])})
\* every block starts with a header, one header for each observation begun
HeaderFirst == \A f \in DOMAIN files : files[f] # <<>> => ~IsRow(files[f][1])
RECURSIVE SumOver(_, _)
SumOver(S, g) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN g[x] + SumOver(S \ {x}, g)
Heads(num) == SumOver({f \in DOMAIN files : f[1] = num}, [f \in DOMAIN files |-> Cnt(files[f], LAMBDA l : ~IsRow(l))])
HeadersRight == \A num \in {0, 1} : Heads(num) = Adds(num)
\* rw: rows of a block are numbered upwards from one; all of them when nothing is left out
RwNumbers == \A f \in Files("rw") : \A j \in DOMAIN files[f] : IsRow(files[f][j]) =>
               (IF IsRow(files[f][j - 1]) THEN (IF obs[0].better = 1 /\ f[2] = "a" THEN files[f][j].n > files[f][j - 1].n ELSE files[f][j].n = files[f][j - 1].n + 1)
                ELSE files[f][j].n = 1)
\* rw with only better solutions: the values of a block decrease strictly
RwBetter == \A f \in Files("rw") : (obs[0].better = 1 /\ f[2] = "a") => \A j \in DOMAIN files[f] : (j > 1 /\ IsRow(files[f][j]) /\ IsRow(files[f][j - 1])) => files[f][j].c[1] < files[f][j - 1].c[1]
\* toy, one problem: targets get harder
ToyHarder == Adds(1) = 1 => \A f \in Files("toy") : \A j \in DOMAIN files[f] : (j > 2) => Harder(files[f][j].t, files[f][j - 1].t)
Order == \A a, b \in {<<1, 2>>, <<1, 1>>, <<0, 0>>, <<-1, 1>>, <<-1, 2>>} : ~(Harder(a, b) /\ Harder(b, a)) /\ (a # b => Harder(a, b) \/ Harder(b, a))
CrashSafe == \A f \in DOMAIN files : \A ls \in MayBe(files[f]) : SelectSeq(ls, IsRow) = Rows(f)
\* files only grow
Grow == [][\A f \in DOMAIN files : f \in DOMAIN files' /\ Len(files[f]) <= Len(files'[f]) /\ SubSeq(files'[f], 1, Len(files[f])) = files[f]]_vars
=============================================================================
