---------------------------- MODULE LoggerBiobj -----------------------------
(* The bi-objective logger: nondominated archive, hypervolume indicator and    *)
(* the files written from them.                                                *)
(*                                                                             *)
(* obs[o]  an observer: algorithm name, archive mode ("all", "final", "none",  *)
(*         "read"), whether indicators are computed, base evaluation triggers, *)
(*         function and dimension of the last problem                          *)
(* lg[p]   the logger of problem object p                                      *)
(* fs      <<observer, kind, name>> -> rows                                    *)
(* info    <<observer, problem type>> -> lines                                 *)
(*                                                                             *)
(* The indicator value is a token: the hypervolume when it is positive,        *)
(* otherwise minus the squared distance of the archive to the region of        *)
(* interest. tab[token] has the logarithmic (le) and linear (li) target the    *)
(* value reaches, the target written (tv) and the text in the info file (s).   *)
EXTENDS Pareto, Triggers, TLC
Far == 1000000000
Zero == -999999999     \* no solution yet
With(f, k, val) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN val ELSE f[x]]
FreshObs(alg, mode, ind, base) == [alg |-> alg, mode |-> mode, ind |-> ind, base |-> base, prev |-> <<0, 0>>]
Off == [on |-> FALSE]
Logger(o, key) == [on |-> TRUE, o |-> o, key |-> key, n |-> 0, arch |-> {}, tok |-> Zero, le |-> Far, li |-> Far, tv |-> -1,
                   hit |-> FALSE, tr |-> NoneYet, rest |-> FALSE]
TokenOf(A) == LET h == HV(A) IN IF A = {} THEN Zero ELSE IF h > 0 THEN h ELSE 0 - Min({Dist2(p) : p \in A})

Put(fs, k, row) == With(fs, k, Append(IF k \in DOMAIN fs THEN fs[k] ELSE <<>>, row))
PutIf(fs, c, k, row) == IF c THEN Put(fs, k, row) ELSE fs
Head1(key) == <<"H", ToString(key.inst), key.name>>

(* observing a problem opens its files *)
Observed(w, p, o, key) ==
  LET O == w.obs[o]
      f1 == PutIf(w.fs, O.mode \in {"all", "final"}, <<o, "adat", key.id \o "_" \o O.mode>>, Head1(key))
      f2 == PutIf(f1, O.ind, <<o, "dat", key.pre>>, Head1(key))
      f3 == PutIf(f2, O.ind, <<o, "tdat", key.pre>>, Head1(key))
      f4 == PutIf(f3, O.ind, <<o, "rdat", key.pre>>, Head1(key))
      f5 == Put(f4, <<o, "mdat", key.pre>>, Head1(key))
      ik == <<o, key.type>>
      lines == IF ik \in DOMAIN w.info THEN w.info[ik] ELSE << [suite |-> key.suite, alg |-> O.alg, f |-> 0, d |-> 0, data |-> "", ent |-> <<>>] >>
      new == O.prev # <<key.f, key.d>>
      line == [suite |-> "", alg |-> "", f |-> key.f, d |-> key.d, data |-> key.pre, ent |-> <<>>]
  IN [obs |-> IF O.ind THEN [w.obs EXCEPT ![o].prev = <<key.f, key.d>>] ELSE w.obs,
      lg |-> With(w.lg, p, Logger(o, key)), fs |-> f5,
      info |-> IF O.ind THEN With(w.info, ik, IF new THEN Append(lines, line) ELSE lines) ELSE w.info]

Point(e) == Norm([a |-> e.a, b |-> e.b, ev |-> e.n, row |-> e.row])
NewArch(w, p, e) == Insert(w.lg[p].arch, Point(e))
RECURSIVE Gap(_, _, _, _, _, _, _)
\* evaluations that were not fed: rows with the value before
Gap(fs, k, tr, base, d, ts, tok) ==
  IF ts = <<>> THEN [fs |-> fs, tr |-> tr]
  ELSE LET t2 == Triggered(tr, base, d, Head(ts))
       IN Gap(PutIf(fs, t2.hit, k, <<ToString(Head(ts)), tok>>), k, t2, base, d, Tail(ts), tok)

(* evaluation number e.n has the objective values e.a, e.b; tok is the value of the archive after it *)
Evaluated(w, p, e, tok, tab) ==
  LET L0 == w.lg[p]
      O == w.obs[L0.o]
      K1 == L0.key
      upd == Enters(L0.arch, Point(e))
      t == tab[tok]
      hit == upd /\ (t.le < L0.le \/ t.li < L0.li)
      newtok == IF upd THEN tok ELSE L0.tok
      le == IF upd THEN t.le ELSE Far
      li == IF upd THEN t.li ELSE Far
      g == Gap(w.fs, <<L0.o, "tdat", K1.pre>>, L0.tr, O.base, K1.d, IF O.mode = "read" /\ O.ind THEN [j \in 1..(e.n - L0.n - 1) |-> L0.n + j] ELSE <<>>, L0.tok)
      tr == Triggered(g.tr, O.base, K1.d, e.n)
      L == [L0 EXCEPT !.n = e.n, !.arch = NewArch(w, p, e), !.tok = newtok, !.rest = FALSE, !.hit = hit, !.tr = tr,
              !.le = IF le < @ THEN le ELSE @, !.li = IF li < @ THEN li ELSE @, !.tv = IF hit THEN t.tv ELSE @]
      n == ToString(e.n)
      f1 == PutIf(g.fs, upd /\ O.mode = "all", <<L0.o, "adat", K1.id \o "_all">>, <<n, e.row>>)
      f2 == PutIf(f1, O.ind /\ hit, <<L0.o, "dat", K1.pre>>, <<n, newtok, L.tv>>)
      f3 == PutIf(f2, O.ind /\ tr.hit, <<L0.o, "tdat", K1.pre>>, <<n, newtok>>)
      f4 == PutIf(f3, O.ind /\ L0.rest, <<L0.o, "rdat", K1.pre>>, <<n, newtok>>)
  IN [w EXCEPT !.lg[p] = L, !.fs = f4]
Recommended(w, p, e) == [w EXCEPT !.fs = Put(@, <<w.lg[p].o, "mdat", w.lg[p].key.pre>>, <<ToString(w.lg[p].n), e.row>>)]
Restarted(w, p) == [w EXCEPT !.lg[p].rest = @ \/ w.lg[p].n > 0]

RECURSIVE PutAll(_, _, _)
PutAll(fs, k, rows) == IF rows = <<>> THEN fs ELSE PutAll(Put(fs, k, Head(rows)), k, Tail(rows))
(* releasing the problem or removing the observer closes the files *)
Released(w, p, tab) ==
  LET L == w.lg[p]
      O == w.obs[L.o]
      K1 == L.key
      n == ToString(L.n)
      ad == <<L.o, "adat", K1.id \o "_" \o O.mode>>
      f1 == IF O.mode = "final" THEN PutAll(w.fs, ad, [j \in 1..Cardinality(L.arch) |->
               LET s == SetToSortSeq(L.arch, LAMBDA x, y : x.ev < y.ev) IN <<ToString(s[j].ev), s[j].row>>]) ELSE w.fs
      f2 == PutIf(f1, O.mode \in {"all", "final"}, ad, <<"F", n>>)
      f3 == PutIf(f2, O.ind /\ ~L.hit, <<L.o, "dat", K1.pre>>, <<n, L.tok, L.tv>>)
      f4 == PutIf(f3, O.ind /\ ~L.tr.hit, <<L.o, "tdat", K1.pre>>, <<n, L.tok>>)
      ik == <<L.o, K1.type>>
      ln == Len(w.info[ik])
      ent == [inst |-> K1.inst, n |-> L.n, val |-> IF L.tok = Zero THEN "0.0e+00" ELSE tab[L.tok].s]
  IN [w EXCEPT !.fs = f4, !.lg[p] = Off, !.info = IF O.ind THEN [@ EXCEPT ![ik][ln].ent = Append(@, ent)] ELSE @]
=============================================================================
