----------------------------- MODULE LoggerBbob -----------------------------
(* The bbob logger: what the files of an experiment contain.                 *)
(*                                                                           *)
(* obs[o]  an observer: function, dimension, suite and data file it wrote    *)
(*         last, and its base evaluation triggers                            *)
(* lg[p]   the logger of problem object p (Off: the problem is not observed) *)
(* fs      <<observer, data file name>> -> the rows of its four data files   *)
(* info    <<observer, function>> -> the lines of its info file              *)
(*                                                                           *)
(* An evaluation enters as a record e:                                       *)
(*   v   its logged value (objective, not below the optimum, plus positive   *)
(*       constraints), as a rank: only comparisons matter                    *)
(*   le  index of the logarithmic target it reaches (0 when not in use)      *)
(*   li  index (rank) of the linear target it reaches                        *)
(*   sb, sm, sv, sx, si, dg   what is written for: distance to the optimum,  *)
(*       measured value, value, point, distance in the info file, constraint *)
(*       digits ("": unconstrained)                                          *)
EXTENDS Integers, Sequences, FiniteSets, Triggers, TLC

Inf == 1000000000
FreshObs(alg, base) == [lf |-> 0, ld |-> 0, ls |-> "", file |-> "", alg |-> alg, base |-> base]
Off == [on |-> FALSE]
None == [v |-> Inf, sb |-> "", sv |-> "", sx |-> "", si |-> "1.8e+308"]
FreshLogger(o, key, g0, logt) ==
  [on |-> TRUE, o |-> o, key |-> key, init |-> FALSE, file |-> "", n |-> 0, g |-> 0, gc |-> g0, rest |-> FALSE,
   ld |-> 0, lt |-> 0, lm |-> 0, best |-> None, rbest |-> None,
   le |-> IF logt THEN Inf ELSE 0, li |-> Inf, rle |-> IF logt THEN Inf ELSE 0, rli |-> Inf, i1 |-> 1, i2 |-> 1, k2 |-> 0]

Base(key) == "data_f" \o ToString(key.f) \o "/bbobexp_f" \o ToString(key.f) \o "_DIM" \o ToString(key.d)
Numbered(b, k) == IF k = 0 THEN b ELSE b \o "-" \o (IF k < 10 THEN "000" ELSE IF k < 100 THEN "00" ELSE "0") \o ToString(k)
FreeName(fs, o, b) ==
  LET k == CHOOSE k \in 0..Cardinality(DOMAIN fs) :
             /\ <<o, Numbered(b, k)>> \notin DOMAIN fs
             /\ \A j \in 0..(k - 1) : <<o, Numbered(b, j)>> \in DOMAIN fs
  IN Numbered(b, k)
NoRows == [dat |-> <<>>, tdat |-> <<>>, rdat |-> <<>>, mdat |-> <<>>]
Header(key) == <<"%", key.fopt>>
With(f, k, val) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN val ELSE f[x]]

(* the first evaluation or recommendation through the observer opens the files; w = [obs, lg, fs, info] *)
Opened(w, p) ==
  LET L == w.lg[p]
      O == w.obs[L.o]
      K == L.key
      new == ~(O.lf = K.f /\ O.ld = K.d /\ O.ls = K.suite)
      name == IF new THEN FreeName(w.fs, L.o, Base(K)) ELSE O.file
      old == IF <<L.o, name>> \in DOMAIN w.fs THEN w.fs[<<L.o, name>>] ELSE NoRows
      ik == <<L.o, K.f>>
      lines == IF ik \in DOMAIN w.info THEN w.info[ik] ELSE <<>>
      line == [suite |-> K.suite, f |-> K.f, d |-> K.d, alg |-> O.alg, data |-> name, ent |-> <<>>]
      lines2 == IF new THEN Append(lines, line) ELSE lines
  IN IF L.init THEN w ELSE
     [obs |-> [w.obs EXCEPT ![L.o] = [@ EXCEPT !.lf = K.f, !.ld = K.d, !.ls = K.suite, !.file = name]],
      lg |-> [w.lg EXCEPT ![p] = [@ EXCEPT !.init = TRUE, !.file = name]],
      fs |-> With(w.fs, <<L.o, name>>, [x \in {"dat", "tdat", "rdat", "mdat"} |-> Append(old[x], Header(K))]),
      info |-> With(w.info, ik, [lines2 EXCEPT ![Len(lines2)].ent = Append(@, [inst |-> K.inst, n |-> -1, val |-> ""])])]

Row(L, best, sm, s5, sx) == <<ToString(L.n), ToString(L.g), best.sb, sm, s5, sx>>
Add(w, L, ext, cond, row) == IF cond THEN [w EXCEPT !.fs[<<L.o, L.file>>][ext] = Append(@, row)] ELSE w

Evaluated(w0, p, e) ==
  LET w == Opened(w0, p)
      L0 == w.lg[p]
      n == L0.n + 1
      better == n = 1 \/ e.v < L0.best.v
      best == IF better THEN [v |-> e.v, sb |-> e.sb, sv |-> e.sv, sx |-> e.sx, si |-> e.si] ELSE L0.best
      asked == better /\ n > 1
      hit == asked /\ (e.le < L0.le \/ e.li < L0.li)
      t == n + L0.gc
      base == w.obs[L0.o].base
      c1 == t >= T1[L0.i1]
      c2 == t >= base[L0.i2] * L0.key.d * Pow10(L0.k2)
      L == [L0 EXCEPT !.n = n, !.g = L0.gc, !.best = best, !.rest = FALSE,
              !.le = IF asked /\ e.le < @ THEN e.le ELSE @, !.li = IF asked /\ e.li < @ THEN e.li ELSE @,
              !.ld = IF n = 1 \/ hit THEN n ELSE @, !.lt = IF c1 \/ c2 THEN n ELSE @,
              !.i1 = IF c1 THEN @ + 1 ELSE @,
              !.i2 = IF c2 THEN (IF @ < Len(base) THEN @ + 1 ELSE 1) ELSE @,
              !.k2 = IF c2 /\ L0.i2 = Len(base) THEN @ + 1 ELSE @]
      row == Row(L, best, e.sm, IF e.dg # "" THEN e.dg ELSE best.sv, e.sx)
      w1 == [w EXCEPT !.lg[p] = L]
      w2 == Add(w1, L, "dat", n = 1 \/ hit, row)
      w3 == Add(w2, L, "tdat", c1 \/ c2, row)
  IN Add(w3, L, "rdat", L0.rest, row)

ConstraintsEvaluated(w, p) == [w EXCEPT !.lg[p].gc = @ + 1]

Recommended(w0, p, e) ==
  LET w == Opened(w0, p)
      L0 == w.lg[p]
      better == e.v < L0.rbest.v
      best == IF better THEN [v |-> e.v, sb |-> e.sb, sv |-> e.sv, sx |-> e.sx, si |-> e.si] ELSE L0.rbest
      hit == better /\ (e.le < L0.rle \/ e.li < L0.rli)
      L == [L0 EXCEPT !.rbest = best, !.rle = IF better /\ e.le < @ THEN e.le ELSE @, !.rli = IF better /\ e.li < @ THEN e.li ELSE @,
              !.lm = IF hit THEN L0.n ELSE @]
  IN Add([w EXCEPT !.lg[p] = L], L, "mdat", hit, Row(L, best, e.sm, IF e.dg # "" THEN e.dg ELSE best.sv, e.sx))

Restarted(w, p) == [w EXCEPT !.lg[p].rest = @ \/ w.lg[p].n > 0]

(* releasing the problem or removing the observer closes the files *)
Released(w, p) ==
  LET L == w.lg[p]
      ik == <<L.o, L.key.f>>
      closing(b) == Row(L, b, b.sv, b.sv, b.sx)
      w1 == Add(w, L, "dat", L.n # L.ld, closing(L.best))
      w2 == Add(w1, L, "tdat", L.n # L.lt, closing(L.best))
      w3 == Add(w2, L, "mdat", L.n # L.lm /\ L.lm # 0, closing(L.rbest))
      ln == Len(w.info[ik])
      k == Len(w.info[ik][ln].ent)
      w4 == [w3 EXCEPT !.info[ik][ln].ent[k] = [@ EXCEPT !.n = L.n, !.val = L.best.si]]
  IN IF ~L.on THEN w ELSE [(IF L.init THEN w4 ELSE w) EXCEPT !.lg[p] = Off]
=============================================================================
