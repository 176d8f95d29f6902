------------------------------ MODULE Triggers ------------------------------
(* Evaluation numbers that trigger a row: the logarithmic sequence T1, and     *)
(* base[k] * dimension * 10^e.                                                 *)
EXTENDS Integers, Sequences
\* evaluation numbers floor(10^(e/20))
T1 == <<1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 14, 15, 17, 19, 22, 25, 28, 31, 35, 39,
  44, 50, 56, 63, 70, 79, 89, 100, 112, 125, 141, 158, 177, 199, 223, 251,
  281, 316, 354, 398, 446, 501, 562, 630, 707, 794, 891, 1000, 1122, 1258,
  1412, 1584, 1778, 1995, 2238, 2511, 2818, 3162, 3548, 3981, 4466, 5011,
  5623, 6309, 7079, 7943, 8912, 10000, 11220, 12589, 14125, 15848, 17782,
  19952, 22387, 25118, 28183, 31622, 35481, 39810, 44668, 50118, 56234, 63095,
  70794, 79432, 89125, 100000, 112201, 125892, 141253, 158489, 177827, 199526,
  223872>>
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)

NoneYet == [i1 |-> 1, i2 |-> 1, k2 |-> 0, hit |-> FALSE]
Triggered(s, base, d, t) ==
  LET c1 == t >= T1[s.i1]
      c2 == t >= base[s.i2] * d * Pow10(s.k2)
  IN [i1 |-> IF c1 THEN s.i1 + 1 ELSE s.i1,
      i2 |-> IF c2 THEN (IF s.i2 < Len(base) THEN s.i2 + 1 ELSE 1) ELSE s.i2,
      k2 |-> IF c2 /\ s.i2 = Len(base) THEN s.k2 + 1 ELSE s.k2, hit |-> c1 \/ c2]
=============================================================================
