------------------------------- MODULE SuiteGen -------------------------------
(* Random behaviours of the suite specification, for replay into the code:     *)
(* tlc -simulate; each finished behaviour is printed as JSON.                  *)
EXTENDS Suite, Json
CONSTANTS Names, Depth, MaxSuites
VARIABLES st, hist, k
vars == <<st, hist, k>>
Closed == [ok |-> FALSE, funcs |-> <<>>, dims |-> <<>>, insts |-> <<>>, cur |-> -1, ended |-> FALSE]
Rnd(a, b) == RandomElement(a..b)
P(n) == RandomElement(1..100) <= n

\* a range that meets 1..n; sometimes reaching beyond it, sometimes open
ARange(n) == LET a == Rnd(1, n)  c == Rnd(1, 6)
             IN CASE c = 1 -> <<a, a>>
                  [] c = 2 -> <<a, Min2(n, a + Rnd(0, 3))>>
                  [] c = 3 -> <<a, a + Rnd(0, 2)>>
                  [] c = 4 -> <<0, a>>
                  [] c = 5 -> <<a, 0>>
                  [] OTHER -> <<a, a>>
IRange(m) == LET a == Rnd(1, m) IN IF P(50) THEN <<a, a>> ELSE IF P(20) THEN <<0, a>> ELSE <<a, a + Rnd(0, 4)>>
SeqLen(n) == Rnd(1, n)
Ranges(n) == [j \in 1..SeqLen(3) |-> ARange(n)]
IRanges(m) == [j \in 1..SeqLen(3) |-> IRange(m)]
Year(s) == CASE s = "bbob" -> RandomElement(2009..2025 \cup {0})
             [] s = "bbob-boxed" -> 2023
             [] s = "bbob-noisy" -> 2009
             [] OTHER -> RandomElement(2016..2025)
OptI(s, key) == IF key = "year" THEN [k |-> key, r |-> <<>>, y |-> Year(s)] ELSE [k |-> key, r |-> IRanges(12), y |-> 0]
InstOpt(s) == LET c == Rnd(1, 10) IN
  CASE s = "toy" -> IF c <= 5 THEN <<>> ELSE <<OptI(s, "instances")>>
    [] c <= 2 -> <<>>
    [] c <= 5 -> <<OptI(s, "year")>>
    [] c <= 8 -> <<OptI(s, "instances")>>
    [] c = 9 -> <<OptI(s, "year"), OptI(s, "instances")>>
    [] OTHER -> <<OptI(s, "instances"), OptI(s, "year")>>
DimList(s) == LET ds == DimensionsOf(s) IN
  [j \in 1..SeqLen(3) |-> LET v == IF P(90) THEN ds[Rnd(1, Len(ds))] ELSE Rnd(ds[1], ds[Len(ds)]) IN <<v, v>>]
Perms3 == {<<1,2,3>>, <<1,3,2>>, <<2,1,3>>, <<2,3,1>>, <<3,1,2>>, <<3,2,1>>}
FilterOpt(s, ni) ==
  LET fo == IF P(75) THEN <<[k |-> "function_indices", r |-> Ranges(NumFunctions(s)), y |-> 0]>> ELSE <<>>
      io == IF P(60) THEN <<[k |-> "instance_indices", r |-> Ranges(ni), y |-> 0]>> ELSE <<>>
      d1 == <<[k |-> "dimensions", r |-> DimList(s), y |-> 0]>>
      d2 == <<[k |-> "dimension_indices", r |-> Ranges(Len(DimensionsOf(s))), y |-> 0]>>
      c == Rnd(1, 10)
      do == CASE c <= 4 -> d1 [] c <= 7 -> d2 [] c = 8 -> d1 \o d2 [] c = 9 -> d2 \o d1 [] OTHER -> <<>>
      p == RandomElement(Perms3)
      q == <<fo, io, do>>
  IN q[p[1]] \o q[p[2]] \o q[p[3]]

Open == {s \in DOMAIN st : st[s].ok}
Live == {s \in Open : ~st[s].ended}
Create == \E s \in {x \in DOMAIN st : ~st[x].ok /\ \A y \in DOMAIN st : ~st[y].ok => x <= y} :
          \E nm \in {RandomElement(Names)} : \E io \in {InstOpt(nm)} :
          \E fo \in {FilterOpt(nm, Len(Instances(nm, io)))} :
            /\ NonZero(SuiteOf(nm, io, fo).insts) # {}
            /\ st' = [st EXCEPT ![s] = SuiteOf(nm, io, fo)]
            /\ hist' = Append(hist, [op |-> "suite", s |-> s, name |-> nm, inst |-> io, opts |-> fo])
NextP == \E s \in {RandomElement(Live)} :
            /\ st' = [st EXCEPT ![s] = AfterNext(@)]
            /\ hist' = Append(hist, [op |-> "next", s |-> s])
AnIdx(s) == IF P(60) /\ st[s].cur >= 0 THEN Min2(Count(st[s]) - 1, Max2(0, st[s].cur + Rnd(0, 4) - 2)) ELSE Rnd(0, Count(st[s]) - 1)
Query == \E s \in {RandomElement(Open)} : \E c \in {Rnd(1, 7)} : \E n \in {AnIdx(s)} :
            /\ st' = st
            /\ hist' = Append(hist,
                 CASE c = 1 -> [op |-> "get", s |-> s, n |-> n]
                   [] c = 2 -> [op |-> "getfdi", s |-> s, af |-> st[s].funcs[Rnd(1, NF(st[s]))] + (IF P(10) THEN 1 ELSE 0),
                                ad |-> st[s].dims[Rnd(1, ND(st[s]))], ai |-> st[s].insts[Rnd(1, NI(st[s]))]]
                   [] c = 3 -> [op |-> "enc", s |-> s, af |-> Rnd(0, NF(st[s]) - 1), ad |-> Rnd(0, ND(st[s]) - 1), ai |-> Rnd(0, NI(st[s]) - 1)]
                   [] c = 4 -> [op |-> "dec", s |-> s, n |-> IF P(95) THEN n ELSE Count(st[s]) + Rnd(0, 5)]
                   [] c = 5 -> [op |-> "fof", s |-> s, n |-> Rnd(0, NF(st[s]) - 1)]
                   [] c = 6 -> [op |-> "dof", s |-> s, n |-> Rnd(0, ND(st[s]) - 1)]
                   [] OTHER -> [op |-> "iof", s |-> s, n |-> Rnd(0, NI(st[s]) - 1)])
Init == st = [s \in 0..(MaxSuites - 1) |-> Closed] /\ hist = <<>> /\ k = 0
Next == /\ k < Depth /\ k' = k + 1
        /\ \E c \in {Rnd(1, 10)} :
             IF Open = {} \/ (c = 1 /\ Cardinality(Open) < MaxSuites) THEN Create
             ELSE IF c <= 6 /\ Live # {} THEN NextP ELSE Query
Spec == Init /\ [][Next]_vars
Emit == (k = Depth) => PrintT(<<"BEH", ToJson(hist)>>)
=============================================================================
