------------------------------ MODULE Relations ------------------------------
(* How the problems of the suites are made from one another.                   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt
\* ---- bi-objective suites: pairs of functions and of instances
Sel == {1, 2, 6, 8, 13, 14, 15, 17, 20, 21}
Lex(a, b) == a[1] < b[1] \/ (a[1] = b[1] /\ a[2] < b[2])
PairsOf(G, keep(_, _)) == SetToSortSeq({p \in G \X G : p[1] <= p[2] /\ keep(p[1], p[2])}, Lex)
Core(a, b) == TRUE
New(a, b) == a # b /\ ~(a \in Sel /\ b \in Sel)
Groups == <<1..5, 6..9, 10..14, {15, 17, 18, 19}, 20..24>>
Pairs == PairsOf(Sel, Core) \o PairsOf(Groups[1], New) \o PairsOf(Groups[2], New) \o PairsOf(Groups[3], New) \o PairsOf(Groups[4], New) \o PairsOf(Groups[5], New)
Pair(f) == Pairs[f]
\* instances 1-15 are fixed, later ones are 2i+1 and a later one
InstOk(i, a, b) == IF i > 15 THEN a = 2 * i + 1 /\ b > a
                   ELSE <<a, b>> = (CASE i = 1 -> <<2, 4>> [] i = 2 -> <<3, 5>> [] i = 9 -> <<19, 21>> [] i = 15 -> <<31, 34>> [] OTHER -> <<2 * i + 1, 2 * i + 2>>)
NumFunctions(s) == CASE s = "bbob-biobj" -> 55 [] s \in {"bbob-biobj-ext", "bbob-biobj-mixint"} -> 92
Base(s, d) == IF s = "bbob-biobj-mixint" /\ d >= 50 THEN "bbob-largescale" ELSE "bbob"
\* ---- constrained suite: six levels; of a constraints that are active at the optimum, half as many more are added
Active(l, d) == CASE l = 0 -> 1 [] l = 1 -> 2 [] l = 2 -> 6 [] l = 3 -> 6 + (d \div 2) [] l = 4 -> 6 + d [] l = 5 -> 6 + 3 * d
NCons(s, f, d) == IF s = "bbob-constrained" THEN (3 * Active((f - 1) % 6, d)) \div 2 ELSE 0
NObj(s) == IF s \in {"bbob-biobj", "bbob-biobj-ext", "bbob-biobj-mixint"} THEN 2 ELSE 1
NInts(s, d) == IF s \in {"bbob-mixint", "bbob-biobj-mixint"} THEN (4 * d) \div 5 ELSE 0
=============================================================================
