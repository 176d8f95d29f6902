------------------------------ MODULE PySuiteGen ------------------------------
(* Raw operations; the replay maps the numbers to existing handles and indices. *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS Len1, NCfg
VARIABLES cfg, ops
vars == <<cfg, ops>>
Kinds == <<"next", "next", "next", "iter", "inext", "inext", "inext", "reset", "get", "get", "getid", "fdi", "fdi", "call", "call", "call", "call", "call", "badx", "cons", "evals", "propose", "propose", "many", "pfree",
           "with", "desc", "ids", "observe", "bare", "barebad", "badid", "cur">>
Late == <<"sfree">>
R(S, x) == RandomElement(S)
Init == cfg = 0 /\ ops = <<>>
Op(k) == [op |-> k, a |-> R(0..9999, k), b |-> R(0..9999, k), x |-> R(1..4, k)]
Next == \/ cfg = 0 /\ cfg' = R(1..NCfg, 1) /\ UNCHANGED ops
        \/ cfg > 0 /\ Len(ops) < Len1 /\ UNCHANGED cfg
           /\ \E k \in {IF Len(ops) * 4 > Len1 * 3 /\ R(1..12, ops) = 1 THEN "sfree" ELSE Kinds[R(1..Len(Kinds), ops)]} : ops' = Append(ops, Op(k))
Spec == Init /\ [][Next]_vars
Emit == (Len(ops) >= Len1) => PrintT(<<"BEH", ToJson([cfg |-> cfg, ops |-> ops])>>)
=============================================================================
