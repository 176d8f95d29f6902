-------------------------------- MODULE RandLog -------------------------------
(* Random number generators and message levels.  A generator is a position in  *)
(* the sequence that belongs to its seed: a uniform number takes one element,  *)
(* a normal number is made of the next two (polar method).  Nothing else moves *)
(* it.                                                                         *)
(* Messages are shown when the level admits their kind: errors and warnings on *)
(* the error stream, the others on the output stream, in the order given.      *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES gens, level, out, err
sys == <<gens, level, out, err>>
Levels == <<"error", "warning", "info", "debug">>
Rank(l) == CHOOSE j \in 1..4 : Levels[j] = l
Kinds == {"warning", "info", "partial", "debug"}
KindRank(m) == CASE m = "warning" -> 2 [] m \in {"info", "partial"} -> 3 [] m = "debug" -> 4
Shown(m) == Rank(level) >= KindRank(m)
IsLevel(l) == \E j \in 1..4 : Levels[j] = l
SysInit == gens = <<>> /\ level = "error" /\ out = <<>> /\ err = <<>>
Upd(f, x, v) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN v ELSE f[z]]
New(g, seed) == gens' = Upd(gens, g, [seed |-> seed, pos |-> 0]) /\ UNCHANGED <<level, out, err>>
Draw(g, n) == gens' = [gens EXCEPT ![g].pos = @ + n] /\ UNCHANGED <<level, out, err>>
Uniform(g) == Draw(g, 1)
Normal(g) == Draw(g, 2)
Drop(g) == gens' = [z \in DOMAIN gens \ {g} |-> gens[z]] /\ UNCHANGED <<level, out, err>>
\* an unknown level is answered by a warning, an empty one only asks
SetLevel(l, id) == /\ level' = IF IsLevel(l) THEN l ELSE level
                   /\ err' = IF ~IsLevel(l) /\ l # "" /\ Shown("warning") THEN Append(err, id) ELSE err
                   /\ UNCHANGED <<gens, out>>
Message(m, id) == /\ out' = IF m # "warning" /\ Shown(m) THEN Append(out, id) ELSE out
                  /\ err' = IF m = "warning" /\ Shown(m) THEN Append(err, id) ELSE err
                  /\ UNCHANGED <<gens, level>>
Work == UNCHANGED sys
=============================================================================
