------------------------------ MODULE SettingsMC ------------------------------
(* Options and parameter files: an option already set survives graceful        *)
(* updates, a file keeps what was written first, arguments give each name one  *)
(* value.                                                                      *)
EXTENDS Settings
CONSTANT MaxOps
VARIABLES o, file, first, args, n
vars == <<o, file, first, args, n>>
Keys == {"a", "_b", "selfish"}
Dicts == UNION {[K -> {"int", "object"}] : K \in SUBSET Keys}
KnownNames == {"ab", "abc", "b"}
ArgSet == {[parts |-> p, slash |-> s] : p \in {<<"ab">>, <<"b", "1">>, <<"b", "1.0">>, <<"b", "4">>, <<"abc", "1">>, <<"a", "1">>, <<"batch", "1/2">>}, s \in {<<"1", "2">>}}
Init == o = <<>> /\ file = <<>> /\ first = <<>> /\ args = <<>> /\ n = 0
Upd == \E d \in Dicts : o' = Update(o, d) /\ UNCHANGED <<file, first, args>>
Gra == \E d \in Dicts : /\ o' = Graceful(o, d) /\ \A k \in DOMAIN o : o'[k] = o[k]
                        /\ UNCHANGED <<file, first, args>>
Write == /\ file' = (IF file = <<>> THEN <<Written(o, Standard)>> ELSE file)
         /\ first' = (IF first = <<>> THEN <<o>> ELSE first)
         /\ UNCHANGED <<o, args>>
Give == \E a \in ArgSet : args' = Append(args, a) /\ UNCHANGED <<o, file, first>>
Next == n < MaxOps /\ n' = n + 1 /\ (Upd \/ Gra \/ Write \/ Give)
Spec == Init /\ [][Next]_vars
FirstStays == file # <<>> => /\ DOMAIN file[1] \subseteq {"a"}
                                 /\ \A k \in DOMAIN file[1] : file[1][k] = first[1][k] /\ file[1][k] \in Readable
R == Args(<<>>, args, KnownNames, <<"c", "d">>)
OneValue == R # Error => /\ DOMAIN R \subseteq KnownNames \cup {"c", "d"}
Unambiguous == (\E j \in DOMAIN args : args[j].parts \in {<<"a", "1">>, <<"ab">>}) => R = Error
Conflict == (\E j, l \in DOMAIN args : args[j].parts = <<"b", "1">> /\ args[l].parts = <<"b", "4">>) => R = Error
=============================================================================
