------------------------------ MODULE OptionsMC -------------------------------
(* All short option texts over a few names and values (among them values that  *)
(* are names, or quote one): what is written is what is read, and nothing else.*)
EXTENDS Options
CONSTANT MaxOpts
VARIABLES opts, k
vars == <<opts, k>>
W(t) == [k |-> "w", t |-> t]
C == [k |-> "c", t |-> ":"]
B == [k |-> "b", t |-> " "]
Q(t) == [k |-> "q", t |-> t]
MCNames == {"precision_x", "algorithm_name", "foo"}
Vals == {W("3"), W("precision_x"), W("algorithm_name"), Q("precision_x: 7"), W("99")}
Written1(o) == <<W(o.n)>> \o (IF o.s1 THEN <<B>> ELSE <<>>) \o <<C>> \o (IF o.s2 THEN <<B>> ELSE <<>>) \o <<o.v>>
RECURSIVE Written(_)
Written(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN Written1(s[1]) ELSE Written1(s[1]) \o <<B>> \o Written(Tail(s))
Init == opts = <<>> /\ k = 0
Next == k < MaxOpts /\ k' = k + 1 /\ \E n \in MCNames, v \in Vals, s1, s2 \in BOOLEAN :
          /\ \A j \in DOMAIN opts : opts[j].n # n
          /\ opts' = Append(opts, [n |-> n, v |-> v, s1 |-> s1, s2 |-> s2])
Spec == Init /\ [][Next]_vars
Given(n) == {j \in DOMAIN opts : opts[j].n = n}
RoundTrip == \A n \in MCNames : /\ Has(Written(opts), n) <=> Given(n) # {}
                              /\ \A j \in Given(n) : Value(Written(opts), n) = opts[j].v.t
NamesRight == Cardinality(Names(Written(opts))) = Len(opts)
UnknownRight == Unknown(Written(opts), "bbob") = (IF Given("foo") = {} THEN {} ELSE {"foo"})
\* the order in which options are given does not matter
OrderFree == \A n \in MCNames : \A j, l \in DOMAIN opts : LET sw == [opts EXCEPT ![j] = opts[l], ![l] = opts[j]] IN
               Has(Written(opts), n) => Value(Written(sw), n) = Value(Written(opts), n)
Defaults == Effective(Written(opts), "precision_x") \in {"3", "8"} /\ (Given("algorithm_name") = {} => Effective(Written(opts), "algorithm_name") = "ALG")
=============================================================================
