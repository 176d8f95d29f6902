-------------------------------- MODULE Suite --------------------------------
(* A benchmark suite: the selection made by its two option strings, the cursor *)
(* of the iteration, and the three ways to reach a problem (iteration, index,  *)
(* function/dimension/instance).                                               *)
(*                                                                             *)
(* Option strings are sequences of [k: key, r: ranges, y: year]; a range is    *)
(* <<lo, hi>>, 0 for an open end.  A suite state is                            *)
(*   [ok, funcs, dims, insts, cur, ended]                                      *)
(* funcs/dims/insts hold 0 for an item removed by a filter; cur is the index   *)
(* of the last problem the iteration delivered, -1 before the first.           *)
EXTENDS SuiteDefs, FiniteSets, TLC

Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b

\* ---------------------------------------------------------------- option strings
OneRange(r, min, max) ==
  LET lo == IF r[1] = 0 THEN min ELSE Max2(r[1], min)
      hi == IF r[2] = 0 THEN max ELSE IF max > 0 THEN Min2(r[2], max) ELSE r[2]
  IN Range2(lo, hi)

RECURSIVE ExpandRanges(_, _, _)
ExpandRanges(rs, min, max) ==
  IF rs = <<>> THEN <<>>
  ELSE OneRange(Head(rs), min, max) \o ExpandRanges(Tail(rs), min, max)

SeqToSet(s) == {s[k] : k \in DOMAIN s}

\* The first occurrence of one of the keys decides; 0 when none is given
FirstKey(opts, keys) ==
  LET hits == {k \in DOMAIN opts : opts[k].k \in keys}
  IN IF hits = {} THEN 0 ELSE CHOOSE k \in hits : \A j \in hits : k <= j

Instances(s, inst) ==
  LET k == FirstKey(inst, {"year", "instances"})
  IN IF k = 0 THEN DefaultInstances(s)
     ELSE IF inst[k].k = "year" THEN YearInstances(s, inst[k].y)
     ELSE ExpandRanges(inst[k].r, 1, 0)

FilterIndices(items, keep) == [k \in DOMAIN items |-> IF k \in keep THEN items[k] ELSE 0]

FilterByIndexKey(items, opts, key) ==
  LET k == FirstKey(opts, {key})
  IN IF k = 0 THEN items
     ELSE FilterIndices(items, SeqToSet(ExpandRanges(opts[k].r, 1, Len(items))))

FilterDims(items, opts) ==
  LET k == FirstKey(opts, {"dimensions", "dimension_indices"})
  IN IF k = 0 THEN items
     ELSE IF opts[k].k = "dimension_indices"
          THEN FilterIndices(items, SeqToSet(ExpandRanges(opts[k].r, 1, Len(items))))
          ELSE LET want == {opts[k].r[j][1] : j \in DOMAIN opts[k].r}
               IN [j \in DOMAIN items |-> IF items[j] \in want THEN items[j] ELSE 0]

NonZero(items) == {k \in DOMAIN items : items[k] # 0}

SuiteOf(s, inst, opts) ==
  LET fs == FilterByIndexKey([k \in 1..NumFunctions(s) |-> FirstFunction(s) + k - 1], opts, "function_indices")
      is == FilterByIndexKey(Instances(s, inst), opts, "instance_indices")
      ds == FilterDims(DimensionsOf(s), opts)
  IN [ok |-> NonZero(ds) # {}, funcs |-> fs, dims |-> ds, insts |-> is, cur |-> -1, ended |-> FALSE]

\* ---------------------------------------------------------------- indices
NI(st) == Len(st.insts)
NF(st) == Len(st.funcs)
ND(st) == Len(st.dims)
Count(st) == NI(st) * NF(st) * ND(st)

Encode(st, f, d, i) == i + f * NI(st) + d * NI(st) * NF(st)
DecI(st, n) == n % NI(st)
DecF(st, n) == (n \div NI(st)) % NF(st)
DecD(st, n) == n \div (NI(st) * NF(st))

\* the problem at an index: <<function, dimension, instance>>, any component 0 when filtered out
At(st, n) == <<st.funcs[DecF(st, n) + 1], st.dims[DecD(st, n) + 1], st.insts[DecI(st, n) + 1]>>
Selected(st, n) == \A c \in 1..3 : At(st, n)[c] # 0

\* ---------------------------------------------------------------- iteration
\* the smallest selected index above cur, -1 when there is none; found level by level
\* (instance, then function, then dimension), as the iteration is documented
FirstOf(items) == CHOOSE k \in NonZero(items) : \A j \in NonZero(items) : k <= j
After(items, p) == {k \in NonZero(items) : k > p}          \* positions 1..
LeastOf(S) == CHOOSE k \in S : \A j \in S : k <= j

NextIndex(st) ==
  IF NonZero(st.insts) = {} \/ NonZero(st.funcs) = {} \/ NonZero(st.dims) = {} THEN -1
  ELSE LET i1 == FirstOf(st.insts) - 1
           f1 == FirstOf(st.funcs) - 1
           d1 == FirstOf(st.dims) - 1
       IN IF st.cur = -1 THEN Encode(st, f1, d1, i1)
          ELSE LET i == DecI(st, st.cur)  f == DecF(st, st.cur)  d == DecD(st, st.cur)
                   ai == After(st.insts, i + 1)  af == After(st.funcs, f + 1)  ad == After(st.dims, d + 1)
               IN IF ai # {} THEN Encode(st, f, d, LeastOf(ai) - 1)
                  ELSE IF af # {} THEN Encode(st, LeastOf(af) - 1, d, i1)
                  ELSE IF ad # {} THEN Encode(st, f1, LeastOf(ad) - 1, i1)
                  ELSE -1

\* state after one call of next
AfterNext(st) == IF NextIndex(st) = -1 THEN [st EXCEPT !.ended = TRUE] ELSE [st EXCEPT !.cur = NextIndex(st)]

\* index reached by function number, dimension and instance number (the first match), -1: none
FirstPos(items, v) == LET S == {k \in DOMAIN items : v # 0 /\ items[k] = v} IN IF S = {} THEN 0 ELSE LeastOf(S)
ByFDI(st, f, d, i) ==
  LET a == FirstPos(st.funcs, f)  b == FirstPos(st.dims, d)  c == FirstPos(st.insts, i)
  IN IF a = 0 \/ b = 0 \/ c = 0 THEN -1 ELSE Encode(st, a - 1, b - 1, c - 1)
=============================================================================
