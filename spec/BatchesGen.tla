------------------------------ MODULE BatchesGen ------------------------------
EXTENDS Batches, Json
CONSTANTS Len1
VARIABLES cfg, stream, ids
vars == <<cfg, stream, ids>>
R(S, x) == RandomElement(S)
Init == cfg = <<>> /\ stream = <<>> /\ ids = <<>>
New(x) == [n |-> R(1..9, x), nf |-> R(1..8, x), nd |-> R(1..3, x), ni |-> R({1, 1, 2, 5}, x), mode |-> R({1, 1, 2, 3}, x), biobj |-> R({0, 1}, x), tries |-> [j \in 1..4 |-> R({-1, 0, 1, 2, 3, 8, 9, 10, 99}, <<x, j>>)]]
DF(k) == << 1, 2, 11, 12, 21, 111, 101, 24 >>[k]
DD(k) == << 2, 3, 20 >>[k]
Next == \/ cfg = <<>> /\ \E c \in {New(1)} : cfg' = <<c>> /\ UNCHANGED <<stream, ids>>
        \/ /\ cfg # <<>> /\ Len(stream) < Len1
           /\ LET c == cfg[1] j == Len(stream) per == c.nf * c.nd * c.ni q == j % per IN
              \E rf \in {R(1..c.nf, stream)}, rd \in {R(1..c.nd, stream)}, ri \in {R(1..c.ni, stream)} :
              \* 1: suites as they are; 2: some instances left out; 3: anything
              LET pr == IF c.mode = 3 THEN <<DF(rf), DD(rd), ri>> ELSE <<DF(1 + ((q \div c.ni) % c.nf)), DD(1 + (q \div (c.ni * c.nf))), 1 + (q % c.ni)>> IN
              /\ stream' = Append(stream, pr)
              /\ ids' = IF c.mode = 2 /\ R({0, 1}, ids) = 0 THEN ids ELSE Append(ids, <<pr[1], pr[3], pr[2]>>)
           /\ UNCHANGED cfg
Spec == Init /\ [][Next]_vars
Emit == (Len(stream) >= Len1) => PrintT(<<"BEH", ToJson([n |-> cfg[1].n, tries |-> cfg[1].tries, biobj |-> cfg[1].biobj = 1, stream |-> stream, ids |-> ids])>>)
=============================================================================
