------------------------------ MODULE EvalTrace ------------------------------
(* Recorded executions: every value, counter and flag the code shows must be   *)
(* the one the specification gives.                                            *)
(* Trace: [ev, tab, noisy, worst, inf]; tab[k] = [y, c, feas] from an isolated *)
(* evaluation of the pair k, noisy[s][j] from an isolated run of segment s.    *)
EXTENDS Eval, Json, IOUtils
Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, i, ps, seg, pos
vars == <<tid, i, ps, seg, pos>>
T == Traces[tid]
Tr == T.ev
Slots == 0..9
Shows(e, p) == /\ e.n = p.n /\ e.nc = p.nc
               /\ e.taint = (IF p.taint THEN 1 ELSE 0)
               /\ (e.nobj = 1 => e.best = p.best)
               /\ e.hit = Hit(p, e.nobj, e.target)
Y(e) == IF e.noisy = 1 /\ e.kind = "fin" THEN T.noisy[seg][pos + 1] ELSE T.tab[e.k].y
After(e) ==
  LET p == ps[e.p] IN
  CASE e.op = "open" -> Fresh(e.key, T.worst)
    [] e.op = "eval" -> AfterEval(p, e.kind, Y(e), T.tab[e.k].feas)
    [] e.op = "cons" -> AfterCons(p, e.kind)
    [] e.op = "xopt" -> IF e.nobj = 1 THEN [p EXCEPT !.taint = TRUE] ELSE p
    [] e.op = "add" -> [p EXCEPT !.stack = Append(@, e.kind)]
    [] e.op = "rem" -> [p EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
    [] e.op = "free" -> Closed
    [] e.op = "about" -> [p EXCEPT !.about = e.m]
    [] e.op = "type" -> [p EXCEPT !.type = e.m]
    [] OTHER -> p
Ok(e) ==
  LET p == ps[e.p] IN
  IF e.ended = 1 THEN e.op = "eval" /\ e.kind = "fin" /\ Refused(p)
  ELSE CASE e.op = "eval" -> /\ ~(e.kind = "fin" /\ Refused(p))
                             /\ e.y = Result(e.kind, Y(e), T.inf) /\ e.xsame = 1 /\ Shows(e, After(e))
         [] e.op = "cons" -> e.y = Result(e.kind, T.tab[e.k].c, T.inf) /\ e.xsame = 1 /\ Shows(e, After(e))
         [] e.op \in {"rec", "open", "add", "rem", "xopt"} -> Shows(e, After(e))
         \* what a problem says about itself never changes
         [] e.op = "about" -> p.about \in {0, e.m}
         [] e.op = "type" -> p.type \in {0, e.m}
         [] e.op \in {"free", "seeds"} -> TRUE
         [] OTHER -> FALSE
TraceInit == tid \in 1..Len(Traces) /\ i = 1 /\ ps = [s \in Slots |-> Closed] /\ seg = 1 /\ pos = 0
Conforms == i <= Len(Tr) => Ok(Tr[i])
TraceNext ==
  /\ i <= Len(Tr)
  /\ LET e == Tr[i] IN
     /\ ps' = IF e.op = "seeds" THEN ps ELSE [ps EXCEPT ![e.p] = After(e)]
     /\ seg' = IF e.op = "seeds" THEN seg + 1 ELSE seg
     /\ pos' = IF e.op = "seeds" THEN 0 ELSE IF e.op = "eval" /\ e.noisy = 1 /\ e.kind = "fin" /\ e.ended = 0 THEN pos + 1 ELSE pos
  /\ i' = i + 1 /\ UNCHANGED tid
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
