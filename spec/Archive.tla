------------------------------ MODULE Archive -------------------------------
(* An archive of solutions of a bi-objective problem (coco_archive): holds the *)
(* two extreme points and the nondominated of the added ones, counts them,     *)
(* measures their hypervolume and hands them out one after the other.          *)
EXTENDS Pareto
X1 == [a |-> One, b |-> 0, id |-> -1]
X2 == [a |-> 0, b |-> One, id |-> -2]
Fresh == [pts |-> {X1, X2}, cur |-> 0, dirty |-> TRUE]
Queried(w) == IF w.dirty THEN [w EXCEPT !.cur = 0, !.dirty = FALSE] ELSE w
Adds(w, p) == Enters(w.pts, Norm(p))
Added(w, p) == IF Adds(w, p) THEN [w EXCEPT !.pts = Insert(@, Norm(p)), !.dirty = TRUE] ELSE w
Listing(w) == <<X1, X2>> \o ByB(w.pts \ {X1, X2})
NextId(w) == LET z == Queried(w) IN IF z.cur < Cardinality(z.pts) THEN Listing(z)[z.cur + 1].id ELSE 0
Nexted(w) == LET z == Queried(w) IN IF z.cur < Cardinality(z.pts) THEN [z EXCEPT !.cur = @ + 1] ELSE z
=============================================================================
