--------------------------- MODULE LoggerBiobjMC ----------------------------
(* Two observers (archive of all / of the final solutions), one problem each   *)
(* observing the same evaluations on a small grid, all short histories. The    *)
(* invariants restate the files from the history of evaluations alone.         *)
EXTENDS LoggerBiobj
CONSTANTS MaxOps, Top
VARIABLES w, h, rs, pend, done
vars == <<w, h, rs, pend, done>>
MCT1 == <<1, 3, 4, 6, 9, 13, 20, 30>>
Key == [suite |-> "s", f |-> 1, d |-> 1, inst |-> 1, id |-> "i", pre |-> "p", name |-> "n", type |-> "t"]
MinTok == -2 * (Top - Grid) * (Top - Grid)
Tab == [t \in MinTok..(Grid * Grid) |-> [le |-> (50 - t) \div 2, li |-> (50 - t) \div 3, tv |-> 50 - t, s |-> ToString(t)]]
Fresh(mode) == [obs |-> [o \in {1} |-> FreshObs("A", mode, TRUE, <<2, 5>>)], lg |-> [p \in {1} |-> Off], fs |-> <<>>, info |-> <<>>]
Start(mode) == Observed(Fresh(mode), 1, 1, Key)
E(n, a, b) == [n |-> n, a |-> a, b |-> b, row |-> <<a, b>>]
Ev(x, e) == Evaluated(x, 1, e, TokenOf(NewArch(x, 1, e)), Tab)
Init == w = <<Start("all"), Start("final")>> /\ h = <<>> /\ rs = {} /\ pend = FALSE /\ done = FALSE
Eval == \E a \in 0..Top : \E b \in 0..Top :
          LET e == E(Len(h) + 1, a, b) IN
            /\ Len(h) < MaxOps /\ h' = Append(h, Norm([a |-> a, b |-> b, row |-> <<a, b>>])) /\ w' = <<Ev(w[1], e), Ev(w[2], e)>>
            /\ rs' = (IF pend THEN rs \cup {Len(h) + 1} ELSE rs) /\ pend' = FALSE
Restart == ~pend /\ h # <<>> /\ Len(h) < MaxOps /\ pend' = TRUE /\ w' = <<Restarted(w[1], 1), Restarted(w[2], 1)>> /\ UNCHANGED <<h, rs>>
Release == done' = TRUE /\ w' = <<Released(w[1], 1, Tab), Released(w[2], 1, Tab)>> /\ UNCHANGED <<h, rs, pend>>
Next == ~done /\ ((Eval /\ UNCHANGED done) \/ (Restart /\ UNCHANGED done) \/ Release)
Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
Pts(n) == {[h[j] EXCEPT !.row = j] : j \in 1..n}
Nd(n) == {j \in 1..n : ~\E q \in 1..n : q # j /\ WeaklyDominates(h[q], h[j]) /\ ~(h[q].a = h[j].a /\ h[q].b = h[j].b /\ q > j)}
Entered == {j \in DOMAIN h : ~\E q \in 1..(j - 1) : WeaklyDominates(h[q], h[j])}
Cells(n) == Cardinality({c \in (0..Grid - 1) \X (0..Grid - 1) : \E j \in 1..n : h[j].a <= c[1] /\ h[j].b <= c[2]})
Value(n) == IF Cells(n) > 0 THEN Cells(n) ELSE 0 - Min({Dist2(h[j]) : j \in 1..n})
F(x, kind, name) == x.fs[<<1, kind, name>>]
Nums(s) == {s[j][1] : j \in 2..Len(s)}
Rows(S) == SetToSortSeq(S, LAMBDA x, y : x < y)
ArchiveRight == ~done => \A q \in {1, 2} : {p.ev : p \in w[q].lg[1].arch} = Nd(Len(h)) /\ (h # <<>> => w[q].lg[1].tok = Value(Len(h)))
AdatAll == LET r == Rows(Entered) IN F(w[1], "adat", "i_all") = <<Head1(Key)>> \o [j \in DOMAIN r |-> <<ToString(r[j]), <<h[r[j]].row[1], h[r[j]].row[2]>>>>]
                                    \o (IF done THEN <<<<"F", ToString(Len(h))>>>> ELSE <<>>)
AdatFinal == LET r == Rows(Nd(Len(h))) IN done => F(w[2], "adat", "i_final") = <<Head1(Key)>> \o [j \in DOMAIN r |-> <<ToString(r[j]), <<h[r[j]].row[1], h[r[j]].row[2]>>>>] \o <<<<"F", ToString(Len(h))>>>>
\* a row exactly where the value reaches a target none before reached, and at the end
Reached(j) == j \in Entered /\ \A q \in 1..(j - 1) : Tab[Value(j)].le < Tab[Value(q)].le \/ Tab[Value(j)].li < Tab[Value(q)].li
FirstBetter(j) == j = 1 \/ Tab[Value(j)].le < Tab[Value(j - 1)].le \/ Tab[Value(j)].li < Tab[Value(j - 1)].li
Dat == LET hits == {j \in DOMAIN h : FirstBetter(j)}
           r == Rows(IF done /\ h # <<>> THEN hits \cup {Len(h)} ELSE hits)
           got == F(w[1], "dat", "p")
       IN h # <<>> => /\ Len(got) = Len(r) + 1 /\ \A j \in DOMAIN r : got[j + 1][1] = ToString(r[j]) /\ got[j + 1][2] = Value(r[j])
Trig == {MCT1[j] : j \in DOMAIN MCT1} \cup {b * Pow10(q) : b \in {2, 5}, q \in 0..1}
Tdat == LET r == Rows({j \in DOMAIN h : j \in Trig \/ (done /\ j = Len(h))})
        IN h # <<>> => F(w[1], "tdat", "p") = <<Head1(Key)>> \o [j \in DOMAIN r |-> <<ToString(r[j]), Value(r[j])>>]
Rdat == LET r == Rows(rs) IN F(w[1], "rdat", "p") = <<Head1(Key)>> \o [j \in DOMAIN r |-> <<ToString(r[j]), Value(r[j])>>]
\* feeding the archived solutions reproduces the data, up to the last archived solution
RECURSIVE Feed(_, _)
Feed(x, s) == IF s = <<>> THEN x ELSE Feed(Ev(x, E(Head(s), h[Head(s)].row[1], h[Head(s)].row[2])), Tail(s))
Upto(s, n) == SelectSeq(s, LAMBDA r : r[1] = "H" \/ \E j \in 1..n : r[1] = ToString(j))
Reconstructs == LET r == Rows(Entered)
                    z == Feed(Start("read"), r)
                    n == r[Len(r)]
                IN h # <<>> /\ ~done => /\ F(z, "dat", "p") = F(w[1], "dat", "p") /\ F(z, "tdat", "p") = Upto(F(w[1], "tdat", "p"), n)
                                        /\ z.lg[1].tok = w[1].lg[1].tok
=============================================================================
