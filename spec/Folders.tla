------------------------------- MODULE Folders -------------------------------
(* Result folders. An observer asks for a folder <outer>/<name>; it gets that  *)
(* one if it does not exist, otherwise the one with the smallest number        *)
(* -0001, -0002, ... that does not exist.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Digit(d) == SubSeq("0123456789", d + 1, d + 1)
Pad(k) == Digit(k \div 1000) \o Digit((k \div 100) % 10) \o Digit((k \div 10) % 10) \o Digit(k % 10)
Name(base, k) == IF k = 0 THEN base ELSE base \o "-" \o Pad(k)
\* folder f is the right one for a request for base that began with the directories before and ended with after
Right(base, f, before, after, k) == /\ f = Name(base, k) /\ f \notin before /\ f \in after
                                    /\ \A j \in 0..(k - 1) : Name(base, j) \in after
=============================================================================
